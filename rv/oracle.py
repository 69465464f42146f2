"""Comparison of the values of the library with those of the reference model."""
import numpy as np
from . import model


class Report(object):
    """Result of the oracle for one job (picklable)."""

    def __init__(self):
        self.bad, self.n, self.worst, self.cov, self.sig = [], 0, 0., {}, []

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + int(n)

    def fail(self, key, msg):
        if len(self.bad) < 20: self.bad.append((key, msg))

    def close(self, label, got, want, tol, key=None):
        """Elementwise |got - want| <= tol; nan never passes; values out of the range of doubles in both are not compared."""
        got, want, tol = np.broadcast_arrays(np.asarray(got, dtype='f8'), np.asarray(want, dtype='f8'), np.asarray(tol, dtype='f8'))
        self.n += got.size
        if not got.size: return True
        over = (np.abs(want) > 1e290) & (np.abs(got) > 1e280) & (np.sign(got) == np.sign(want))  # out of the range of doubles, or about
        with np.errstate(all='ignore'): err = np.where(over, 0., np.abs(got - want))
        with np.errstate(all='ignore'): ratio = np.where(err == 0, 0., err / np.maximum(tol, 1e-300))
        ratio = np.where(np.isfinite(ratio), ratio, np.inf)
        w = ratio.max()
        if w > 1:
            i = np.unravel_index(np.argmax(ratio), ratio.shape)
            self.fail(key or label.split(':')[0].split('[')[0], '{}: {:.17g} instead of {:.17g} (tolerance {:.3g}), {} of {} values out of tolerance'.format(
                label + (str(list(i)) if got.ndim else ''), float(got[i]), float(want[i]), float(tol[i]), int((ratio > 1).sum()), ratio.size))
        self.worst = max(self.worst, float(min(w, 1e30)))
        if w > 0.1: self.cov["near_tolerance " + label[:60]] = max(self.cov.get("near_tolerance " + label[:60], 0), 1)
        return w <= 1

    def true(self, label, cond, msg='', key=None):
        self.n += 1
        if not cond: self.fail(key or label.split(':')[0], '{}: {}'.format(label, msg))
        return bool(cond)

    def vals(self, label, got, ref, rtol=1e-9, k=50., key=None):
        """ref: Val or nested list of Val."""
        got = np.asarray(got, dtype='f8')
        flat = _flat(ref)
        if got.size != len(flat):
            self.fail(key or label, '{}: {} values instead of {}'.format(label, got.size, len(flat)))
            return False
        return self.close(label, got.ravel(), [v.v for v in flat], [v.tol(rtol, k) for v in flat], key)

    def columns(self, got, ref, rtol=1e-9, k=50., prefix=''):
        for name in ref:
            if name not in got: self.fail(name, 'column {} is missing'.format(name))
            else: self.vals(prefix + name, got[name], ref[name], rtol, k, key=name)


def _flat(ref):
    if isinstance(ref, model.Val): return [ref]
    return [v for r in ref for v in _flat(r)]


def collect(ctx, results, cases, func, variant='plain', samples=True, nontrivial=None):
    """Turns the reports of jobs into verdict and evidence."""
    for case, r in zip(cases, results):
        if r.status != 0 or not isinstance(r.value, Report): continue
        rep = r.value
        ctx.evaluations += rep.n
        for s in rep.sig or [repr(sorted((k, repr(v)) for k, v in case.items()))]: ctx.distinct.add(hash_(s))
        if samples and len(ctx.samples) < 4:
            from .core import jsonable
            ctx.samples.append(jsonable({'case': case, 'values_compared': rep.n, 'worst_error_over_tolerance': rep.worst}))
        for k, n in rep.cov.items(): ctx.count(k, n)
        ctx.count('jobs')
        ctx.high('worst_error_over_tolerance', rep.worst if not rep.bad else 0.)
        for key, msg in rep.bad[:3]: ctx.violate(key, msg, {'variant': variant, 'func': func, 'case': case, 'module': None})


def hash_(s):
    import hashlib
    return hashlib.md5(repr(s).encode()).hexdigest()
