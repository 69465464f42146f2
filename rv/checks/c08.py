"""Running displacement dispersion."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms


def job(k, pk, kout, uv, column, positive):
    rep = Report()
    spec = model.Spec(k, pk)
    o = jobs.new('Bias1Loop')
    o.set_pk_lin(k, pk)
    ref = spec.sigmad2(kout, uv).astype('f8')
    size = np.sum(np.abs(pk[1:] + pk[:-1]) * np.diff(k)) / 12 / np.pi**2
    tol = 1e-10 * np.abs(ref) if positive else 1e-10 * np.abs(ref) + 1e-12 * size
    # rounding of uvcutoff*k
    i = np.clip(np.searchsorted(k, kout * uv) - 1, 0, len(k) - 2)
    tol = tol + 1e-14 * np.minimum(kout * uv, k[-1]) * (np.abs(pk[i]) + np.abs(pk[i + 1])) / 12 / np.pi**2
    # the cut of the table by rounding of uvcutoff*k at its first point
    edge = np.abs(kout * uv / k[0] - 1) < 1e-9
    tol = tol + np.where(edge, 1e-8 * size, 0)
    got = o.calc_running_sigmad2(kout, uvcutoff=uv)
    rep.close('calc_running_sigmad2', got, ref, tol)
    if positive:
        s = np.argsort(kout, kind='stable')
        rep.true('monotonic', np.all(np.diff(got[s]) >= -1e-12 * np.abs(got[s][1:])), 'decreases with k')
        rep.true('positive', np.all(got >= 0), 'negative')
    below, above = kout * uv < k[0] * (1 - 1e-9), kout * uv > k[-1] * (1 + 1e-9)
    rep.true('below', np.all(got[below] == 0), 'not zero below the table')
    rep.close('above', got[above], size if positive else np.sum((pk[1:] + pk[:-1]) * np.diff(k)) / 12 / np.pi**2, 1e-10 * size)
    rep.count('below_table', below.sum())
    rep.count('above_table', above.sum())
    rep.count('within_table', (~below & ~above).sum())
    # default cutoff
    rep.close('calc_running_sigmad2 default cutoff', o.calc_running_sigmad2(kout), spec.sigmad2(kout, 0.5).astype('f8'), 1e-10 * np.abs(spec.sigmad2(kout, 0.5).astype('f8')) + (0 if positive else 1e-12 * size)
              + 1e-14 * np.minimum(kout / 2, k[-1]) * np.abs(pk).max() / 6 / np.pi**2 + np.where(np.abs(kout / 2 / k[0] - 1) < 1e-9, 1e-8 * size, 0), key='calc_running_sigmad2')
    if column:
        cls = column
        o = jobs.new(cls)
        o.set_pk_lin(k, pk)
        for p in gen.small_precision(np.random.default_rng(0), gen.NEEDS[cls], 4, None, interpol=False): o.set_precision(**p)
        o.set_precision('all_q', min=float(k[0]), max=float(k[-1]))
        for c, n in terms.UVNAME.items(): o.set_running_uvcutoff(n, 0.9 * uv)
        o.set_running_uvcutoff(terms.UVNAME[cls], uv)
        if cls != 'A2Loop': o.set_running_uvcutoff('bispectrum_1loop', 0.9 * uv)
        o.set_terms(kout)
        o.run_terms(nthreads=2)
        rep.close('column sigmad2 of {}'.format(cls), o['sigmad2'], ref, tol, key='sigmad2_column')
        rep.count('column_' + cls)
    rep.sig = [(float(x), uv, float(pk[0]), len(k)) for x in kout]
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(400, 6000)):
        n = int(rng.choice([2, 3, 4, 5, 10, 100, 1000])) if i % 40 != 2 else int(10**rng.uniform(3.4, 5.1))
        k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=n))
        positive = True
        if rng.random() < 0.2: pk, positive = pk * rng.choice([-1, 0, 1], n), False
        uv = float(rng.choice([0.5, 1., rng.uniform(0.01, 3), 10**rng.uniform(-8, 8)]))
        if i % 50 == 7: uv = 0.
        if rng.random() < 0.2:
            # any unit
            unit = 10**rng.uniform(-40, 40)
            k, pk = k * unit, pk / unit
        kout = gen.wavenumbers(rng, k, 100, 'hostile') / rng.choice([1., uv or 1.])
        if rng.random() < 0.3: kout[rng.random(100) < 0.1] = k[-1] * 10**rng.uniform(0, 12)
        if rng.random() < 0.3: kout[rng.random(100) < 0.1] = k[0] * 10**rng.uniform(-12, 0)
        order = rng.integers(0, 3)
        if order == 1: kout = np.sort(kout)
        elif order == 2: kout = np.sort(kout)[::-1].copy()
        column = None
        if i % 4 == 0 and positive and n > 2:
            kout, column = kout[:12], str(gen.CLASSES[(i // 4) % len(gen.CLASSES)])
        cases.append(dict(k=k, pk=pk, kout=kout, uv=uv, column=column, positive=positive))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    ctx.rule = ('random tables (2 to 130000 points, some with zero and negative values), cutoffs and wavenumbers (inside, at and next to tabulated points, below and above the table, in any order); compared with the trapezoidal integral in extended '
                'precision, with zero below and the full integral above, and with each other for monotonicity; one distinct case = one (table, cutoff, k)')
