"""Assembled spectra and growth scaling."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms

LD = np.longdouble
BIAS = ['pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22']


def want(cls, c, D, s2):
    """method -> expected value, from the columns c in extended precision."""
    D = np.asarray(D, dtype=LD)
    out = {}
    if cls in ('SpectrumLin', 'SpectrumNoWiggle'): return {'pk': D**2 * c['pk']}
    col = (lambda x: x) if D.ndim == 0 else None
    if cls in ('A1Loop', 'A2Loop', 'B1Loop', 'B2Loop'):
        if D.ndim and D.shape != (len(c['k']), 1): return {'pk_lin': D**2 * c['pk_lin']}
        return {'pk_lin': D**2 * c['pk_lin'], 'pk': D**4 * c['pk']}
    if cls == 'Spectrum1Loop': out['pk'] = model.pk_1loop(c, D, s2)
    if cls == 'Spectrum2Loop': out['pk'] = model.pk_2loop(c, D, s2)
    out['pk_lin'] = D**2 * c['pk_lin']
    if cls == 'Bias1Loop':
        f = (c['k'] * D)**2 / 2 * (c['sigmad2'] if s2 is None else s2)
        for n in BIAS: out[n] = D**4 * c[n]
        for n in BIAS[4:]: out[n + '_damp'] = D**4 * c[n] * np.exp(-2 * f) * (1 + f)**2
        out['pk_sigma3sq'] = D**4 * c['pk_lin'] * c['sigma3sq']
    return out


TAKES_SIGMAD2 = ['pk_b22_damp', 'pk_b2s2_damp', 'pk_bs22_damp']


def check(rep, o, cls, D, s2, label):
    c = {n: np.asarray(o[n], dtype=LD) for n in o}
    before = {n: np.array(o[n]) for n in o}
    ref = want(cls, c, D, s2)
    for name, v in ref.items():
        kw = {}
        if s2 is not None and (name in TAKES_SIGMAD2 or (name == 'pk' and cls.startswith('Spectrum') and 'Loop' in cls)): kw['sigmad2'] = s2
        elif s2 is not None: v = want(cls, c, D, None)[name]
        got = getattr(o, name)(D, **kw)
        v = np.asarray(v)
        rep.true(cls + '.' + name, np.shape(got) == v.shape, 'shape {} instead of {}'.format(np.shape(got), v.shape))
        if np.shape(got) == v.shape:
            # cancellations between terms of either sign
            ab = want(cls, {n: np.abs(x) for n, x in c.items()}, np.abs(np.asarray(D, dtype=LD)), None if s2 is None else np.abs(s2))[name] if not kw and s2 is None else np.abs(v)
            f = np.asarray((c['k'] * np.asarray(D, dtype=LD))**2 * (c['sigmad2'] if s2 is None or not kw else s2), dtype='f8') if 'sigmad2' in c and cls[1:] not in ('1Loop', '2Loop') else 0.
            tol = 1e-11 * (np.maximum(np.abs(v), np.abs(ab)).astype('f8')) * ((1 + f) if np.ndim(f) == v.ndim else (1 + np.max(f)))
            if kw:
                big = want(cls, {n: np.abs(x) for n, x in c.items()}, np.abs(np.asarray(D, dtype=LD)), np.abs(s2))[name].astype('f8')
                tol = 1e-11 * big * (1 + f)
            rep.close(cls + '.' + name + label, got, v.astype('f8'), tol + 1e-300, key=cls + '.' + name)
            if np.ndim(D) == 0 and D == 1 and not kw: rep.close(cls + '.' + name + ' default growth', getattr(o, name)(), v.astype('f8'), tol + 1e-300, key=cls + '.' + name)
    for n in before: rep.true(cls + ' columns', np.array_equal(before[n], o[n], equal_nan=True), 'column {} is modified by an evaluation'.format(n))


def random_terms(rng, cls, n):
    o = jobs.new(cls)
    o.zeros(np.sort(10**rng.uniform(-4, 1, n)))
    for name in o.FIELDS:
        if name == 'k': continue
        sh = (n,) + tuple(getattr(o, 'SHAPE', {}).get(name, ()))
        o[name] = rng.normal(0, 1, sh) * 10**rng.uniform(-3, 4, sh)
        if name == 'sigmad2': o[name] = np.abs(o[name]) * 1e-3 / np.max(o['k'])**rng.choice([0, 2])
    return o


def synthetic(seed, n):
    """Job: random terms."""
    rep = Report()
    rng = np.random.default_rng(seed)
    import pyregpt
    for i in range(n):
        cls = str(rng.choice(gen.CLASSES + ['SpectrumLin', 'SpectrumNoWiggle']))
        nk = int(rng.integers(1, 12))
        if cls in ('SpectrumLin', 'SpectrumNoWiggle'):
            o = getattr(pyregpt, cls)()
            o['k'] = np.sort(10**rng.uniform(-4, 1, nk))
            o['pk'] = rng.normal(0, 1e4, nk)
        else: o = random_terms(rng, cls, nk)
        D = [1., float(rng.uniform(0.05, 2)), rng.uniform(0.05, 2, nk)][int(rng.integers(0, 3))]
        if cls[:2] in ('A1', 'A2', 'B1', 'B2') and np.ndim(D) and rng.random() < 0.5: D = D[:, None]  # one per wavenumber
        wide = cls[:2] not in ('A1', 'A2', 'B1', 'B2') and rng.random() < 0.25  # growth factors that broadcast with the wavenumbers: one row per redshift
        if wide: D = rng.uniform(0.05, 2, (int(rng.integers(1, 4)), 1 if rng.random() < 0.6 else nk))
        if rng.random() < 0.1: D = D * rng.choice([-1., 1e-3, 30.])
        s2 = [None, None, float(rng.uniform(0, 10)), rng.uniform(0, 10, nk)][int(rng.integers(0, 4))]
        check(rep, o, cls, D, s2, ' D={} sigmad2={}'.format('array' if np.ndim(D) else D, 'column' if s2 is None else 'given'))
        rep.sig.append((cls, seed, i))
        rep.count('evaluated_' + cls)
        # rescaling
        D = float(rng.uniform(0.05, 2))
        r = o.deepcopy()
        r.rescale(D)
        if s2 is not None:
            rs2 = s2 * D**2
        for name in want(cls, {x: np.asarray(o[x], dtype=LD) for x in o}, 1., None):
            kw = name in TAKES_SIGMAD2 or (name == 'pk' and cls in ('Spectrum1Loop', 'Spectrum2Loop'))
            a = getattr(o, name)(D, **({'sigmad2': s2} if kw and s2 is not None else {}))
            b = getattr(r, name)(1., **({'sigmad2': rs2} if kw and s2 is not None else {}))
            ab = want(cls, {x: np.abs(np.asarray(o[x], dtype=LD)) for x in o}, D, s2)[name].astype('f8')
            f = np.max(np.asarray(o['k'])**2 * D**2 * np.max(np.abs(o['sigmad2'] if s2 is None else s2))) if 'sigmad2' in o else 0.
            rep.close(cls + '.' + name + ' of rescaled terms', b, a, 1e-11 * ab * (1 + f) + 1e-300, key=cls + '.rescale')
    return rep


def real(k, pk, cls, kout, ops, args, nthreads, D):
    """Job: terms computed by the library."""
    rep = Report()
    o = jobs.new(cls)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    o.set_terms(kout)
    o.run_terms(nthreads=nthreads, **args)
    check(rep, o, cls, 1., None, ' of calculated terms')
    check(rep, o, cls, D, None, ' of calculated terms')
    rep.sig = [(cls, repr(args), float(kk)) for kk in kout]
    return rep


def run(ctx):
    rng = ctx.rng
    cases = [dict(seed=int(rng.integers(1 << 30)), n=ctx.n(300, 2000)) for i in range(16)]
    collect(ctx, ctx.run('plain', 'synthetic', cases), cases, 'synthetic')
    cases = []
    for i in range(ctx.n(42, 300)):
        c = terms.case(rng, gen.CLASSES[i % len(gen.CLASSES)], nk=5, nmax=6, table=gen.table(rng, n=40))
        cases.append(dict(c, D=float(rng.uniform(0.2, 1.5))))
    collect(ctx, ctx.run('plain', 'real', cases), cases, 'real')
    ctx.rule = ('random terms of every class (any sign and size) and terms calculated by the library; scalar and array growth, damping from the column or given; every spectrum method compared with the published expression in extended precision, and '
                'with the same method at unit growth on rescaled terms; one distinct case = one set of terms and arguments')
