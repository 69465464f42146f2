"""B terms against their integrals."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms


def job(**case):
    return terms.compare(**case)


def two_loop(k, pk, kout, ops, nthreads, modelled, before=None):
    """Job: two-loop B from the one-loop spectra at the tabulated wavenumbers."""
    rep = Report()
    got = jobs.calc(k, pk, 'B2Loop', kout, ops, {}, nthreads, before=before)
    cfg, spec = terms.config((before['ops'] if before else []) + ops), model.Spec(k, pk)
    inputs, others = [], [[], [], []]
    rng = np.random.default_rng(len(k))
    for a, b in (('delta', 'theta'), ('theta', 'theta')):
        if modelled:
            t = model.spectrum_1loop(spec, cfg, k, a, b)
            # what the rounding of the one-loop terms makes of the spectra, and their extrapolation of B
            for o in others:
                w = {n: np.array([v.v + rng.uniform(-1, 1) * v.tol(1e-10, 5.) for v in t[n]]) for n in t}
                w['k'] = k
                o.append(model.Spec(k, model.pk_1loop(w)))
            t = {n: np.array([v.v for v in t[n]]) for n in t}
            t['k'] = k
            p = model.pk_1loop(t)
        else:
            s = jobs.new('Spectrum1Loop')
            s.set_pk_lin(k, pk)
            s.set_terms(k)
            s.run_terms(a, b, nthreads=nthreads)
            p = s.pk()
        inputs.append(model.Spec(k, p))
    ref = model.B_terms(spec, cfg, kout, *inputs)
    for o in others:
        if not o: break
        one = model.B_terms(spec, cfg, kout, *o)
        for v, w in zip(ref['pk'], one['pk']):
            for x, y in zip(v, w): x.noise += abs(x.v - y.v) / 10
    # an extrapolated spectrum whose slope points change sign within rounding is either zero or not
    if all(np.all(s.pk > 0) for s in inputs): rep.columns(got, ref, rtol=1e-7 if modelled else 1e-9, prefix='B2Loop ')
    if before: rep.count('two_loop_after_another_calculation')
    rep.count('two_loop_modelled' if modelled else 'two_loop_from_library_spectra')
    rep.sig = [('B2', float(kk), repr(ops), float(pk[0])) for kk in kout]
    return rep


def run(ctx):
    rng = ctx.rng
    cases = [terms.case(rng, 'B1Loop', nk=4, nmax=40, where=['in', 'in', 'hostile'][i % 3], before=0.3) for i in range(ctx.n(240, 3500))]
    cases += [terms.case(rng, 'B1Loop', nk=2, default=True) for i in range(ctx.n(4, 30))]
    cases += [terms.large(rng, 'B1Loop') for i in range(ctx.n(24, 240))]
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = []
    for i in range(ctx.n(120, 1500)):
        c = terms.case(rng, 'B2Loop', nk=3, nmax=15, where=['in', 'in', 'hostile'][i % 3], table=gen.table(rng, n=int(rng.integers(20, 60)), hi=float(10**rng.uniform(-0.3, 0.7))), before=0.4)
        cases.append(dict(k=c['k'], pk=c['pk'], kout=c['kout'], ops=c['ops'], nthreads=2, modelled=i % 3 == 0, before=c.get('before')))
    collect(ctx, ctx.run('plain', 'two_loop', cases), cases, 'two_loop')
    ctx.rule = ('random positive spectra, node counts, ranges and interpolation modes, wavenumbers in and out of the table; the nine columns of B1Loop compared with the reference quadrature of the linear spectrum, and those of B2Loop with the one '
                'of the one-loop spectra (of the reference model or of Spectrum1Loop) computed at the same settings; one distinct case = one (spectrum, settings, k)')
    ctx.assumptions = ['reference model rv/model.py']
