"""Interpolation and extrapolation of the linear spectrum."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms


def stencil_scale(spec, k):
    """Sum of the absolute Lagrange terms over the stencil (what rounding errors scale with)."""
    out = np.zeros(len(k))
    for m, x in enumerate(k):
        j = int(np.clip(np.searchsorted(spec.k, x, side='right') - 1, 0, spec.n - 1))
        sl = slice(max(0, j - 2), min(spec.n, j + 3))
        t, p = spec.k[sl], np.abs(spec.pk[sl])
        l = [np.prod([abs((x - t[b]) / (t[a] - t[b])) for b in range(len(t)) if b != a]) for a in range(len(t))]
        out[m] = max(p.max(), np.sum(np.array(l) * p))
    return out


def slope_noise(k, kout):
    '''Relative error of the power law from rounding of the slopes.'''
    far = np.abs(np.log(np.where(kout < k[0], kout / k[min(1, len(k) - 1)], kout / k[-1])))
    return 1e-15 / np.min(np.diff(np.log(k))) * far * ((kout < k[0]) | (kout > k[-1])) * 10


def job(k, pk, kout, column):
    rep = Report()
    spec = model.Spec(k, pk)
    o = jobs.new('Spectrum1Loop')
    o.set_pk_lin(k, pk)
    for mode in ('poly', 'lin'):
        got = o.find_pk_lin(kout, interpol=mode)
        with np.errstate(all='ignore'): ref, dbl = spec.find(kout, mode).astype('f8'), spec.find(kout, mode, np.float64)
        inside = (kout >= k[0]) & (kout <= k[-1])
        scale = np.where(inside, stencil_scale(spec, kout), np.abs(ref) * (1 + 1e10 * slope_noise(k, kout)))
        rep.true('find_pk_lin: shape', got.shape == kout.shape, 'shape {}'.format(got.shape))
        rep.close('find_pk_lin({}): interpolation'.format(mode), got[inside], ref[inside], (1e-10 * scale + 50 * np.abs(dbl - ref))[inside])
        rep.close('find_pk_lin({}): extrapolation'.format(mode), got[~inside], ref[~inside], (1e-10 * scale + 100 * np.abs(dbl - ref))[~inside])
        tab = o.find_pk_lin(k, interpol=mode)
        rep.close('find_pk_lin({}): tabulated values'.format(mode), tab, pk, 1e-12 * stencil_scale(spec, k))
        rep.count('points_interpolated', inside.sum())
        rep.count('points_below_table', (kout < k[0]).sum())
        rep.count('points_above_table', (kout > k[-1]).sum())
        rep.count('points_tabulated', len(k))
    if column:
        # pk_lin column of a type of terms, its own interpolation mode
        cls, mode = column
        o = jobs.new(cls)
        o.set_pk_lin(k, pk)
        for p in gen.small_precision(np.random.default_rng(0), gen.NEEDS[cls], 4, None, interpol=False): o.set_precision(**p)
        o.set_precision('all_q', min=float(k[0]), max=float(k[-1]))
        o.set_precision(terms.PKNAME[cls], interpol=mode)
        o.set_terms(kout)
        o.run_terms(nthreads=2)
        ref, dbl = spec.find(kout, mode).astype('f8'), spec.find(kout, mode, np.float64)
        scale = np.where(inside, stencil_scale(spec, kout), np.abs(ref) * (1 + 1e10 * slope_noise(k, kout)))
        rep.close('column pk_lin of {}'.format(cls), o['pk_lin'], ref, 1e-10 * scale + 100 * np.abs(dbl - ref), key='pk_lin_column')
        rep.count('column_' + cls)
    rep.sig = [(float(x), float(pk[0]), len(k)) for x in kout]
    return rep


def pieces(seed, n):
    """Job: interpol_poly and interpol_lin alone."""
    rep = Report()
    rng = np.random.default_rng(seed)
    o = jobs.new('PyRegPT')
    for i in range(n):
        m = int(rng.integers(1, 9))
        tx = np.cumsum(rng.uniform(0.1, 2, m)) + rng.uniform(-5, 5)
        c = rng.normal(0, 1, m)
        ty = np.polyval(c, tx)
        x = float(rng.choice([rng.uniform(tx[0], tx[-1]), rng.choice(tx), rng.uniform(tx[0] - 1, tx[-1] + 1)]))
        ref, dbl = float(model.neville(np.longdouble(x), tx.astype(np.longdouble), ty.astype(np.longdouble))), float(model.neville(x, tx, ty))
        rep.close('interpol_poly', o.interpol_poly(x, tx, ty), ref, 1e-10 * np.abs(ty).max() + 100 * abs(dbl - ref))
        if x in tx: rep.close('interpol_poly at a node', o.interpol_poly(x, tx, ty), ty[list(tx).index(x)], 1e-11 * np.abs(ty).max(), key='interpol_poly')
        x0, dx = rng.uniform(-5, 5), rng.uniform(0.1, 3)
        y = rng.normal(0, 10, 2)
        x = x0 + rng.uniform(0, 1) * dx
        rep.close('interpol_lin', o.interpol_lin(x, np.array([x0, x0 + dx]), y), y[0] + (x - x0) / dx * (y[1] - y[0]), 1e-11 * np.abs(y).max())
        rep.sig.append((m, x, float(ty[0])))
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(400, 6000)):
        n = int(rng.choice([3, 4, 5, 6, 7, 8, 14, 15, 16, 17, 18, 30, 31, 32, 100, 500, 2000])) if i % 2 else int(rng.integers(3, 60))
        k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=n))
        if i % 40 == 1: k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=int(10**rng.uniform(3.4, 5.1)), jitter=0.3))
        n = len(k)
        c = rng.integers(0, 8)
        if c == 0: pk[:rng.integers(1, min(n, 20))] *= rng.choice([0., -1.])
        elif c == 1: pk[-rng.integers(1, min(n, 20)):] *= rng.choice([0., -1.])
        elif c == 2: pk[rng.integers(0, n)] = 0.
        elif c == 3: pk = pk * rng.choice([-1, 1], n)
        elif c == 4: k, pk = np.ascontiguousarray(k * 10**rng.uniform(-6, 6)), pk * 10**rng.uniform(-30, 30)
        kout = gen.wavenumbers(rng, k, 120, 'hostile')
        kout = np.abs(kout)
        order = rng.integers(0, 3)
        if order == 1: kout = np.sort(kout)
        elif order == 2: kout = np.sort(kout)[::-1].copy()
        column = None
        if i % 6 == 0 and c > 3:
            kout = kout[:12]
            column = (str(rng.choice(gen.CLASSES)), str(rng.choice(['poly', 'lin'])))
        cases.append(dict(k=k, pk=pk, kout=kout, column=column))
    # two points: within the table only
    for i in range(4):
        k = np.array([0.01, 0.01 * (1 + rng.uniform(0.1, 10))])
        cases.append(dict(k=k, pk=rng.uniform(1, 1e4, 2), kout=np.concatenate([k, rng.uniform(k[0], k[1], 20)]), column=None))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = [dict(seed=int(rng.integers(1 << 30)), n=ctx.n(300, 3000)) for i in range(8)]
    collect(ctx, ctx.run('plain', 'pieces', cases), cases, 'pieces')
    ctx.rule = ('random tables of 2 to 130000 points (positive, with zeros, with negative values, oscillating sign, any amplitude and unit), wavenumbers inside, at tabulated points and next to them, at and beyond the edges, in any order; find_pk_lin in the two '
                'modes and the pk_lin columns compared with the definition in extended precision, the tabulated points with the table; one distinct case = one (table, k)')
    ctx.assumptions = ['a table of two points is only interpolated (the extrapolation needs one centred slope)']
