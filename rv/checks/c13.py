"""A terms against their bispectrum integrals."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms


def job(**case):
    return terms.compare(**case)


def limit(k, pk, kout, nthreads):
    """Job: for a vanishing amplitude the two-loop A is the one-loop A (converged quadratures)."""
    rep = Report()
    ops = [('set_precision', dict(calculation='A_2loop_I_q', n=400, min=1e-3, max=10., interpol='poly')), ('set_precision', dict(calculation='A_2loop_I_mu', n=60, interpol='poly')),
           ('set_precision', dict(calculation='A_1loop_q', n=1200, min=1e-3, max=10., interpol='poly')), ('set_precision', dict(calculation='A_1loop_mu', n=60, interpol='poly')),
           ('set_precision', dict(calculation='gamma1_1loop_q', n=3, min=1e-3, max=10., interpol='poly')), ('set_precision', dict(calculation='gamma2_1loop_q', n=2, min=1e-3, max=10., interpol='poly'))]
    s = 1e-9
    a2 = jobs.calc(k, pk * s, 'A2Loop', kout, ops, {}, nthreads, hook=dict(points=np.zeros((0, 5)), ret=[0.]))['pk'] / s**2
    a1 = jobs.calc(k, pk, 'A1Loop', kout, ops, {}, nthreads)['pk'].reshape(a2.shape)
    spec = model.Spec(k, pk)
    ref = np.array([[v.scale for v in row] for row in model.A_1loop(spec, terms.config(ops), kout)['pk']])
    rep.close('limit: two-loop A of a vanishing spectrum against one-loop A', a2, a1, 0.02 * np.abs(a1) + 2e-3 * ref)
    rep.sig = [('limit', float(kk), float(pk[0])) for kk in kout]
    return rep


def assembly(k, pk, kout, ops, nthreads, ret):
    """Job: the Monte Carlo part enters with its normalisation and combination of columns."""
    rep = Report()
    for i in range(len(kout)):
        r = np.roll(ret, i)
        a = jobs.calc(k, pk, 'A2Loop', kout[i:i + 1], ops, {}, 1, hook=dict(points=np.zeros((0, 5)), ret=[0.]))['pk'].ravel()
        b = jobs.calc(k, pk, 'A2Loop', kout[i:i + 1], ops, {}, 1, hook=dict(points=np.zeros((0, 5)), ret=r))
        want = np.array(model.combine_A(r)) * kout[i]**3 / (2 * np.pi**2)
        rep.close('assembly: Monte Carlo part', b['pk'].ravel() - a, want, 1e-9 * (np.abs(want).max() + np.abs(a)))
        rep.true('assembly: one integral per wavenumber', len(b['hook']) == 1, '{} integrals'.format(len(b['hook'])))
    return rep


def together(**case):
    from . import c12
    return c12.together(**case)


def run(ctx):
    rng = ctx.rng
    model.golden(np.float64), model.golden(np.longdouble)
    cases = [terms.case(rng, 'A1Loop', nk=4, nmax=40, where=['in', 'in', 'hostile'][i % 3], before=0.3) for i in range(ctx.n(160, 2500))]
    for i in range(ctx.n(24, 200)):
        # q/k below 1e-4 or above 1e2: expansions of the kernel
        c = terms.case(rng, 'A1Loop', nk=4, nmax=40)
        c['kout'] = 10**(rng.uniform(-4.5, -3, 4) if i % 2 else rng.uniform(1.5, 2.5, 4))
        cases.append(c)
    for i in range(ctx.n(60, 400)):
        # q/k around 1: the logarithm of the kernel
        c = terms.case(rng, 'A1Loop', nk=1, nmax=30)
        terms.close_nodes(rng, c['ops'], c['kout'], at=[1.], widths=(-4.5, -2))
        cases.append(c)
    cases += [terms.case(rng, 'A2Loop', nk=2, nmax=25, where=['in', 'in', 'hostile'][i % 3], before=0.3) for i in range(ctx.n(160, 2000))]
    for i in range(ctx.n(60, 600)):
        # around the scales below which the loop corrections of the bispectrum are dropped
        c = terms.case(rng, 'A2Loop', nk=3, nmax=20)
        c['kout'] = rng.choice([1e-2, 3e-2, 1e-2], 3) * np.exp(rng.uniform(-0.3, 0.3, 3))
        cases.append(c)
    cases += [terms.case(rng, 'A1Loop', nk=2, default=True) for i in range(ctx.n(4, 30))]
    cases += [terms.case(rng, 'A2Loop', nk=1, default=True) for i in range(ctx.n(1, 10))]
    cases += [terms.large(rng, ['A1Loop', 'A2Loop'][i % 2]) for i in range(ctx.n(32, 300))]
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = []
    for i in range(ctx.n(6, 40)):
        k, pk, kind = gen.spectrum(rng, 'cdm')
        cases.append(dict(k=k, pk=pk, kout=10**rng.uniform(-1.9, -0.2, 2), nthreads=1))
    collect(ctx, ctx.run('plain', 'limit', cases), cases, 'limit')
    cases = []
    for i in range(ctx.n(8, 60)):
        c = terms.case(rng, 'A2Loop', nk=2, nmax=6)
        cases.append(dict(k=c['k'], pk=c['pk'], kout=c['kout'], ops=c['ops'], nthreads=1, ret=rng.normal(0, 1e3, 12)))
    collect(ctx, ctx.run('plain', 'assembly', cases), cases, 'assembly')
    from . import c12
    cases = c12.several(rng, 'A2Loop', ctx.n(32, 200))
    collect(ctx, ctx.run('plain', 'together', cases), cases, 'together')
    ctx.rule = ('random positive spectra, node counts, ranges and interpolation modes, wavenumbers in and out of the table; the columns of A1Loop and (with the Monte Carlo part set to zero by the integrator) of A2Loop compared with the reference '
                'quadratures; A2Loop of a vanishing spectrum compared with A1Loop; one distinct case = one (spectrum, settings, k)')
    ctx.assumptions = ['reference model rv/model.py', 'the golden copy of the one-loop second-order kernels (property C11)']
