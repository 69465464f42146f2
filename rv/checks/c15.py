"""Bias terms against their integrals."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms


def job(**case):
    return terms.compare(**case)


def large_scale(k, pk, nthreads):
    """Job: the auto terms vanish at large scales (default settings)."""
    rep = Report()
    ref = 0.1
    kout = np.array([k[0] * 1.01, 3 * k[0], ref])
    ops = [('set_precision', dict(calculation='bias_1loop_mu', n=40, interpol='poly'))]
    got = jobs.calc(k, pk, 'Bias1Loop', kout, ops, {}, nthreads)
    for n in ('pk_b22', 'pk_b2s2', 'pk_bs22'):
        lim = {'pk_b22': 0.5, 'pk_b2s2': 1. / 3, 'pk_bs22': 2. / 9}[n]
        spec = model.Spec(k, pk)
        g = model.Grid(spec, model.Cfg()['bias_1loop_q'], np.float64)
        sub = lim * 2 * np.sum(g.q**3 * g.w * g.pk**2) / (4 * np.pi**2)
        rep.close('large_scale:' + n, got[n][:1] / sub, 0., 0.05)
        rep.true('large_scale:' + n, abs(got[n][0]) <= abs(got[n][2]) + 0.01 * sub, '{} at low k, {} at k = {}'.format(got[n][0], got[n][2], ref))
    rep.sig = [('large scale', float(pk[0]))]
    return rep


def run(ctx):
    rng = ctx.rng
    cases = [terms.case(rng, 'Bias1Loop', nk=4, nmax=40, where=['in', 'in', 'hostile'][i % 3], before=0.3) for i in range(ctx.n(240, 3500))]
    cases += [terms.case(rng, 'Bias1Loop', nk=2, default=True) for i in range(ctx.n(4, 30))]
    cases += [terms.large(rng, 'Bias1Loop') for i in range(ctx.n(24, 240))]
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = []
    for i in range(ctx.n(6, 40)):
        k, pk, kind = gen.spectrum(rng, 'cdm', k=gen.table(rng, n=300, lo=1e-4, hi=10.))
        cases.append(dict(k=k, pk=pk, nthreads=1))
    collect(ctx, ctx.run('plain', 'large_scale', cases), cases, 'large_scale')
    ctx.rule = ('random positive spectra, node counts, ranges and interpolation modes, wavenumbers in and out of the table; every column of Bias1Loop compared with the reference quadrature; at the default settings the auto terms compared with zero '
                'at the largest scales; one distinct case = one (spectrum, settings, k)')
    ctx.assumptions = ['reference model rv/model.py']
