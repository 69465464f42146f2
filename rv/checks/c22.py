"""Finite results, in particular where a node or a wavenumber falls on a singular point of a kernel."""
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import terms, c03


def special(rng, nodes, k, n):
    """Wavenumbers in special positions with respect to quadrature nodes and tabulated points."""
    q = rng.choice(nodes, n)
    f = rng.choice([1., 2., 0.5, 1 / 0.99, 1 / 1.01, 0.1, 10., 1e-2, 1e2, 1e-4, 1e4, np.sqrt(2.), 1 / 3.], n)
    out = q * f
    c = rng.integers(0, 5, n)
    out = np.where(c == 0, rng.choice(k, n), out)
    out = np.where(c == 1, np.nextafter(out, rng.choice([0., np.inf])), out)
    out = np.where(c == 2, out * (1 + rng.choice([1e-15, -1e-12, 1e-10, 1e-8, -1e-6, 1e-4, -1e-3], n)), out)
    return out


def special_ranges(rng, k):
    """Settings whose nodes of different integrals coincide: same number and range for all."""
    c = rng.integers(0, 4)
    if c == 0: return -1., -1.
    if c == 1: return float(k[0]), float(k[-1])
    if c == 2: return 0.01, 1.
    return gen.qrange(rng, k)


FLOOR = 1e-6 # smallest k over largest node; beyond it k1 - k2 of a triangle (k1, k2, k) is lost in rounding

CORNERS = [0., 1., 0.5, 0.25, 1e-12, 1 - 1e-12, 1 / 3.]


def job(k, pk, cls, ops, args, seed, n, native=False, nthreads=2):
    rep = Report()
    rng = np.random.default_rng(seed)
    cfg, spec = terms.config(ops), model.Spec(k, pk)
    nodes = np.concatenate([model.Grid(spec, cfg[x], np.float64).q for x in gen.NEEDS[cls] if x in model.Q])
    kout = special(rng, nodes, k, n)
    kout = np.concatenate([kout, rng.choice([1e-7, 1e-5, 1e2, 1e3], 2, replace=False)])
    kout = np.maximum(kout, nodes.max() * FLOOR)
    o = jobs.new(cls)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    pts = np.concatenate([rng.choice(CORNERS, (12, 5)), rng.uniform(size=(12, 5))])
    h = jobs.install(o, dict(points=pts, ret=[1.])) if cls in history.HEAVY else None
    o.set_terms(kout)
    for name in o:
        if name != 'k': o[name][...] = np.nan
    o.run_terms(nthreads=nthreads, **args)
    for name in o:
        v = np.asarray(o[name])
        rep.n += v.size
        bad = ~np.isfinite(v)
        if bad.any():
            i = np.argwhere(bad)[0]
            rep.fail(cls + '.' + name, '{}: column {} is {} at k={:.17g} ({} of {} values)'.format(cls, name, v[tuple(i)], kout[i[0]], bad.sum(), v.size))
    if h is not None:
        for kk, log in zip(kout, h.log):
            v = log['values']
            rep.n += v.size
            bad = ~np.isfinite(v)
            rep.count('integrand_values', v.size)
            if bad.any():
                i = np.argwhere(bad)[0]
                rep.fail(cls + '.integrand', '{}: integrand of the Monte Carlo part is {} at k={:.17g}, {}'.format(cls, v[tuple(i)], kk, pts[i[0]].tolist()))
    for what in ('pk',):
        if cls.startswith('Spectrum'):
            with np.errstate(all='ignore'): p = o.pk()
            ok = np.isfinite(p) | (np.abs(o['k']**2 * o['sigmad2']) > 1e2) | (kout > 50)
            rep.true('pk', np.all(ok), '{}: pk is {} at k={}'.format(cls, p[~ok][:1], kout[~ok][:1]), key=cls + '.pk()')
    x = nodes[None, :] / kout[:, None]
    rep.count('k_equal_to_a_node', np.sum(np.any(x == 1., axis=1)))
    rep.count('k_twice_or_half_a_node', np.sum(np.any((x == 0.5) | (x == 2.), axis=1)))
    rep.count('k_within_1e-6_of_a_node', np.sum(np.any(np.abs(x - 1) < 1e-6, axis=1)))
    rep.count('k_equal_to_a_tabulated_one', np.sum(np.isin(kout, k)))
    rep.count('k_outside_of_the_table', np.sum((kout < k[0]) | (kout > k[-1])))
    rep.sig = [(cls, seed, float(kk)) for kk in kout]
    return rep


def functions(k, pk, seed):
    """Job: interpolated spectrum and dispersion, everywhere."""
    rep = Report()
    rng = np.random.default_rng(seed)
    o = jobs.new('PyRegPT')
    o.set_pk_lin(k, pk)
    kk = np.concatenate([gen.wavenumbers(rng, k, 300, 'hostile'), k, k * 2, [1e-8, 1e-6, 1e3, 1e4], np.nextafter(k, 0), np.nextafter(k, np.inf)])
    for m in ('poly', 'lin'):
        v = o.find_pk_lin(kk, interpol=m)
        rep.true('find_pk_lin', np.all(np.isfinite(v)), 'interpolated spectrum is {} at k={}'.format(v[~np.isfinite(v)][:1], kk[~np.isfinite(v)][:1]))
    v = o.calc_running_sigmad2(kk, uvcutoff=float(rng.choice([0.5, 1., 2., 0.1])))
    rep.true('sigmad2', np.all(np.isfinite(v) & (v >= 0)), 'dispersion is {} at k={}'.format(v[~(np.isfinite(v) & (v >= 0))][:1], kk[~(np.isfinite(v) & (v >= 0))][:1]))
    rep.n = 3 * len(kk)
    rep.sig = [('functions', seed, i) for i in range(len(kk))]
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(210, 4000)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        kind = None
        if i % 3 == 0: k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(3, 12))))
        else: k, pk, kind = gen.spectrum(rng)
        lo, hi = special_ranges(rng, k)
        same = rng.random() < 0.6
        n = int(rng.integers(2, 16))
        ops = []
        for name in gen.NEEDS[cls]:
            d = dict(calculation=name, interpol=str(rng.choice(['poly', 'lin'])))
            if name not in model.MC: d['n'] = n if same else int(rng.integers(2, 16))
            if 'mu' in name: d['n'] = int(rng.integers(1, 9))
            if name not in model.MU: d['min'], d['max'] = (lo, hi) if same else special_ranges(rng, k)
            ops.append(('set_precision', d))
        cases.append(dict(k=k, pk=pk, cls=cls, ops=ops, args=terms.fields(rng) if cls.startswith('Spectrum') else {}, seed=int(rng.integers(1 << 30)), n=5 if cls in history.HEAVY else 12))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = []
    for i in range(ctx.n(40, 600)):
        k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(3, 9))) if i % 2 else None)
        cases.append(dict(k=k, pk=pk, seed=int(rng.integers(1 << 30))))
    collect(ctx, ctx.run('plain', 'functions', cases), cases, 'functions')
    ctx.rule = ('positive spectra from 3 points; wavenumbers equal to quadrature nodes, tabulated points, their doubles, halves and regime borders (and one rounding or a small factor away), and far outside of the table; node sets of different integrals made to coincide; '
                'arrays filled with NaN before the run, library allocations filled with NaN; every value must be finite; the integrands of the Monte Carlo parts at corners of their domain; one distinct case = one wavenumber of one setting')
    ctx.assumptions = ['k from 1e-7 to 1e4, not below 1e-6 of the largest node']
