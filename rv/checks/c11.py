"""Two-loop spectrum terms (deterministic part) against their integrals."""
import numpy as np
from .. import f4, gen, jobs, model
from ..oracle import Report, collect
from . import terms


def job(**case):
    return terms.compare(**case)


def regimes(k, pk, q, qloop, kout, a, b, nthreads):
    """Job: a few triangles and a single loop wavenumber, so that the one-loop kernel is seen in one regime at a time."""
    rep = Report()
    L = 1e-3
    ops = [('set_precision', dict(calculation='gamma2_tree_q', n=2, min=q * np.exp(-L), max=q * np.exp(L), interpol='poly')),
           ('set_precision', dict(calculation='gamma2_tree_q', n=3, min=q / 3, max=q * 3, interpol='poly')),
           ('set_precision', dict(calculation='gamma2_tree_mu', n=4, interpol='poly')),
           ('set_precision', dict(calculation='gamma1_1loop_q', n=3, interpol='poly')),
           ('set_precision', dict(calculation='gamma1_2loop_q', n=2, min=q, max=q * 2, interpol='poly'))]
    ops += [('set_precision', dict(calculation='gamma2{}_1loop_q'.format(f), n=1, min=qloop * np.exp(-L), max=qloop * np.exp(L), interpol='poly')) for f in 'dt']
    sub = terms.compare(k, pk, 'Spectrum2Loop', kout, ops, dict(a=a, b=b), nthreads, skip=())
    return sub


def f4_average(k, pk, q, qloop, kk, field):
    """Job: the pk_gamma2 terms of the library, whose one-loop factor is replaced in the model by the angular average of F4."""
    rep = Report()
    L = 1e-3
    ops = [('set_precision', dict(calculation='gamma2_tree_q', n=2, min=q / 1.3, max=q * 1.3, interpol='poly')),
           ('set_precision', dict(calculation='gamma2_tree_mu', n=2, interpol='poly')),
           ('set_precision', dict(calculation='gamma1_1loop_q', n=3, interpol='poly')),
           ('set_precision', dict(calculation='gamma1_2loop_q', n=2, interpol='poly'))]
    ops += [('set_precision', dict(calculation='gamma2{}_1loop_q'.format(f), n=1, min=qloop * np.exp(-L), max=qloop * np.exp(L), interpol='poly')) for f in 'dt']
    got = jobs.calc(k, pk, 'Spectrum2Loop', np.array([kk]), ops, dict(a=field, b=field), 1, hook=dict(points=np.zeros((0, 5)), ret=[0.]))
    cfg, spec = terms.config(ops), model.Spec(k, pk)
    worst, seen = [0.], {}

    def gamma2_1loop(a, k1, k2, k3, g, T):
        out = np.zeros(k1.shape)
        for i in np.ndindex(k1.shape):
            v = [float(u[i]) for u in (k1, k2, k3)]
            r = int(model.regime_gamma2(*(v + [g.q.astype('f8')[0]]))[0])
            near = min(abs(np.log(np.array(v) / float(g.q[0]))))
            x = tuple(v)
            if x not in seen:
                x1 = f4.gamma2(*(v + [float(g.q[0])]))[0 if a == 'delta' else 1]
                x2 = f4.gamma2(*(v + [float(g.q[0])]), nmu=280, nph=96)[0 if a == 'delta' else 1]
                seen[x] = (x2, abs(x1 - x2), r)
            out[i] = seen[x][0]
        return (out[..., None] * (g.w * g.q**3 * g.pk)).sum(-1) / (8 * np.pi**3)
    old = model.gamma2_1loop
    g = model.Grid(spec, cfg['gamma2_tree_q'], np.float64)
    model.gamma2_1loop = gamma2_1loop
    try:
        t = model.gamma2_tree_terms(spec, cfg, kk, field, field, np.float64, g, True)
    finally:
        model.gamma2_1loop = old
    # expansions: 1e-4; the elongated one is a leading-order form, 20 %; numerical error of the average
    tol = max([{4: 0.25, 5: 1e-3, 1: 1e-3, 2: 1e-3}.get(r, 1e-4) + 100 * e / max(abs(v), 1e-300) for v, e, r in seen.values()] or [0])
    for v, e, r in seen.values(): rep.count('f4_triangles_regime_{}'.format(r))
    if tol < 0.3:
        for name, v, p in (('pk_gamma2_tree_1loop', t[1], 1), ('pk_gamma2_1loop_1loop', t[2], 2)):
            rep.close('F4_average:' + name, got[name][0], float(v.sum()), tol * p * 2 * float(np.abs(v).sum()))
    rep.sig = [(q, qloop, kk, field)]
    return rep


def run(ctx):
    rng = ctx.rng
    model.golden(np.float64), model.golden(np.longdouble)
    cases = [terms.case(rng, 'Spectrum2Loop', nk=2, nmax=25, where=['in', 'in', 'hostile'][i % 3], before=0.3) for i in range(ctx.n(160, 2500))]
    cases += [terms.case(rng, 'Spectrum2Loop', nk=1, default=True) for i in range(ctx.n(3, 20))]
    cases += [terms.large(rng, 'Spectrum2Loop') for i in range(ctx.n(16, 160))]
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = []
    for i in range(ctx.n(160, 3000)):
        k, pk, kind = gen.spectrum(rng)
        q = float(10**rng.uniform(-2.5, 0.5))
        qloop = float(q * 10**rng.uniform(-2.5, 2.5)) if i % 4 else float(q * np.exp(rng.uniform(-0.3, 0.3)))
        kout = q * 10**rng.uniform(-2.2, 0.5, 6)
        if i % 3 == 0: kout[:2] = q * rng.uniform(0.6, 2, 2)
        cases.append(dict(k=k, pk=pk, q=q, qloop=qloop, kout=kout, nthreads=2, **terms.fields(rng)))
    collect(ctx, ctx.run('plain', 'regimes', cases), cases, 'regimes')
    cases = []
    for i in range(ctx.n(16, 300)):
        k, pk, kind = gen.spectrum(rng)
        q = float(10**rng.uniform(-1.5, 0.))
        cases.append(dict(k=k, pk=pk, q=q, qloop=float(q * 10**rng.uniform(-1.5, 1.8)), kk=float(q * 10**rng.uniform(-0.5, 0.3)), field=str(rng.choice(['delta', 'theta']))))
    collect(ctx, ctx.run('plain', 'f4_average', cases), cases, 'f4_average')
    ctx.rule = ('random positive spectra, field pairs, node counts, ranges and interpolation modes; every deterministic column compared with the reference quadrature in extended precision, with a single loop wavenumber chosen to visit each regime '
                'of the one-loop kernels, and some with the angular average of the fourth-order kernel computed from the recursion relations; one distinct case = one (spectrum, settings, fields, k)')
    ctx.assumptions = ['the golden copy of the one-loop second-order kernels (rv/ref), itself compared with the F4 average in this check', 'the fitted two-loop kernel is the published one']
