"""Interpolated polynomials and spectra."""
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import terms
from .c16 import random_terms

A = [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)]                                            # powers of (mu2, growth rate) of each column
B = [(1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (4, 4)]


def interp(k, x, y, left, right):
    """Linear interpolation, written from its definition."""
    k = np.asarray(k, dtype='f8')
    out = np.empty(k.shape)
    for i in np.ndindex(*k.shape):
        v = k[i]
        if v < x[0]: out[i] = left
        elif v > x[-1]: out[i] = right
        elif v == x[-1]: out[i] = y[-1]
        else:
            j = int(np.searchsorted(x, v, side='right')) - 1
            out[i] = y[j] + (y[j + 1] - y[j]) * ((v - x[j]) / (x[j + 1] - x[j])) if len(x) > 1 else y[0]
    return out


def arguments(rng, x):
    """Wavenumbers, squared cosines, growth rates that broadcast against each other."""
    c = rng.integers(0, 9)
    pick = lambda n: np.where(rng.random(n) < 0.25, rng.choice(x, n), np.exp(rng.uniform(np.log(x[0]) - 0.7, np.log(x[-1]) + 0.7, n)))
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 5))
    wide = rng.random() < 0.15  # the polynomials hold for any argument
    mu = lambda n: np.where(rng.random(n) < 0.2, rng.choice([0., 1.], n), rng.uniform(-1, 2, n) if wide else rng.uniform(0, 1, n))
    if c == 0: return float(pick(1)[0]), float(mu(1)[0]), float(rng.uniform(-1, 2))
    if c == 1: return pick(n), mu(n), float(rng.uniform(0, 2))
    if c == 2: return pick(n)[:, None], mu(m)[None, :], float(rng.uniform(0, 2))
    if c == 3: return float(pick(1)[0]), mu(n), float(rng.uniform(0, 2))
    if c == 4: return pick(n), float(mu(1)[0]), rng.uniform(0, 2, n)
    if c == 5: return pick(n)[:, None], mu(m)[None, :], rng.uniform(0, 2, (n, m))
    if c == 6: return pick(n * m).reshape(n, m), mu(n * m).reshape(n, m), float(rng.uniform(0, 2))
    if c == 7: return pick(n * m).reshape(n, m), mu(m), rng.uniform(0, 2, (n, m))
    return pick(2 * n * m).reshape(2, n, m), mu(n * m).reshape(n, m), rng.uniform(0, 2, (2, 1, m))


def integers(rng, v):
    """Numbers rounded to integers, in an integer type."""
    v = np.rint(v)
    c = rng.integers(0, 5)
    if np.ndim(v) == 0: return int(v) if c < 3 else np.int64(v)
    return v.astype(['i8', 'i4', 'i2', '>i4', 'i8'][c])


def layout(rng, v):
    """The same values in another memory layout."""
    if np.ndim(v) == 0: return v
    c = rng.integers(0, 6)
    if c == 0: return np.asfortranarray(v)
    if c == 1:
        b = np.full(tuple(3 * n for n in v.shape), -7.)
        w = b[tuple(slice(1, None, 3) for n in v.shape)]
        w[...] = v
        return w
    if c == 2: return np.array(v[::-1], order='C')[::-1]
    if c == 3: return v.astype('>f8')
    if c == 4:
        v = np.array(v)
        v.flags.writeable = False
    return v


def job(seed, n):
    rep = Report()
    rng = np.random.default_rng(seed)
    import pyregpt
    for i in range(n):
        cls = str(rng.choice(['A1Loop', 'A2Loop', 'B1Loop', 'B2Loop', 'Spectrum1Loop', 'Spectrum2Loop', 'SpectrumLin']))
        nk = int(rng.integers(2, 12))
        if cls == 'SpectrumLin': o = pyregpt.SpectrumLin(k=np.sort(10**rng.uniform(-3, 0.5, nk)), pk=rng.normal(0, 1e4, nk))
        else: o = random_terms(rng, cls, nk)
        x = np.sort(np.array(o['k']))
        o['k'] = x
        D = float(rng.choice([1., rng.uniform(0.2, 1.5)]))
        kw = {} if rng.random() < 0.3 else {n: float(rng.normal(0, 1e3)) for n in (['left'] if rng.random() < 0.3 else ['right'] if rng.random() < 0.4 else ['left', 'right'])}
        left, right = kw.get('left', 0.), kw.get('right', 0.)
        k, mu2, beta = arguments(rng, x)
        if rng.random() < 0.15: mu2 = integers(rng, mu2)
        if rng.random() < 0.15: beta = integers(rng, beta)
        if rng.random() < 0.1: D = int(rng.integers(1, 4))
        k, mu2, beta = [layout(rng, v) if np.ndim(v) == 0 or v.dtype == 'f8' else v for v in (k, mu2, beta)]
        label = '{}.pk_interp'.format(cls)
        before = {f: np.array(o[f]) for f in o.fields}
        if cls[0] in 'AB':
            pw = A if cls[0] == 'A' else B
            args = dict(kw)
            if rng.random() < 0.8: args.update(beta=beta)
            else: beta = 1.
            if rng.random() < 0.8: args.update(Dgrowth=D)
            else: D = 1.
            keep = [np.array(v) for v in (k, mu2, beta)]
            got = o.pk_interp(k, mu2, **args)
            rep.true(label + ': inputs', all(np.array_equal(p, q) for p, q in zip(keep, (k, mu2, beta))), 'an argument is modified')
            ref, size = 0., 0.
            for c, (a, b) in enumerate(pw):
                t = np.asarray(mu2, dtype='f8')**a * np.asarray(beta, dtype='f8')**b * interp(k, x, o['pk'][:, c] * D**4, left, right)
                ref, size = ref + t, size + np.abs(t)
            scale = size + 1e-6 * np.abs(o['pk']).max() * D**4 * np.max(np.abs(beta))**1 * np.max(np.abs(mu2))
        else:
            args = dict(kw, Dgrowth=D) if rng.random() < 0.7 else dict(kw)
            got = o.pk_interp(k, **args)
            p = o.pk(args.get('Dgrowth', 1.))
            ref = interp(k, x, np.asarray(p), left, right)
            scale = np.abs(ref) + 1e-3 * np.abs(p).max()
        rep.true(label + ': shape', np.shape(got) == np.shape(ref), '{} instead of {}'.format(np.shape(got), np.shape(ref)), key=cls + ':shape')
        if np.shape(got) == np.shape(ref): rep.close(label + '({})'.format(', '.join(sorted(args))), got, ref, 1e-11 * scale, key=cls)
        rep.true(label + ': terms', all(np.array_equal(before[f], o[f], equal_nan=True) for f in before), 'the terms are modified', key=cls + ':terms')
        kk = np.asarray(k)
        rep.count('wavenumbers_left', np.sum(kk < x[0]))
        rep.count('wavenumbers_right', np.sum(kk > x[-1]))
        rep.count('wavenumbers_at_points', np.sum(np.isin(kk, x)))
        rep.sig.append((cls, seed, i))
    return rep


def real(k, pk, cls, kout, ops, args, nthreads):
    """Job: calculated terms, at their own wavenumbers."""
    rep = Report()
    kout = np.unique(kout)
    o = jobs.new(cls)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    o.set_terms(kout)
    o.run_terms(nthreads=nthreads, **args)
    pw = A if cls[0] == 'A' else B
    pkc = np.array(o['pk'])
    for mu2, f in ((0.3, 0.7), (1., 1.), (0.01, 0.5)):
        t = np.array([pkc[:, c] * mu2**a * f**b for c, (a, b) in enumerate(pw)])
        rep.close('{}.pk_interp'.format(cls), o.pk_interp(kout, mu2, beta=f), t.sum(axis=0), 1e-11 * np.abs(t).sum(axis=0), key=cls)
        rep.sig.append((cls, float(kout[0]), mu2))
    return rep


def run(ctx):
    rng = ctx.rng
    cases = [dict(seed=int(rng.integers(1 << 30)), n=150) for i in range(ctx.n(48, 400))]
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    from . import c03
    cases = []
    for i in range(ctx.n(12, 60)):
        c = c03.make(rng, ['A1Loop', 'A2Loop', 'B1Loop', 'B2Loop'][i % 4], 4, 5, where='in')
        cases.append(dict(c, nthreads=2))
    collect(ctx, ctx.run('plain', 'real', cases), cases, 'real')
    ctx.rule = ('random and calculated terms of all classes; scalars and arrays that broadcast as wavenumbers (inside, at points, outside), squared cosines (0 and 1 included), growth rates and factors, left and right values given or not; '
                'each value compared with the polynomial written from its powers; one distinct case = one call')
    ctx.assumptions = ['wavenumbers of the terms in ascending order (as numpy.interp requires)']
