"""Each wavenumber is computed independently of the others requested."""
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import c03


def requests(rng, n):
    """Index arrays into n wavenumbers: orders, subsets, repetitions, single ones, none."""
    out = [np.arange(n)[::-1], rng.permutation(n), rng.permutation(n), rng.integers(0, n, 2 * n), np.zeros(0, dtype=int), np.repeat(int(rng.integers(n)), 3)]
    out += [np.array([i]) for i in rng.permutation(n)[:3]]
    cut = int(rng.integers(1, n)) if n > 1 else 1
    out += [np.arange(cut), np.arange(cut, n)]
    out.append(np.concatenate([[n - 1], np.arange(n - 1)]))
    out.append(rng.permutation(n)[:max(1, n // 2)])
    out.append(np.repeat(np.arange(n), rng.integers(1, 4, n)))  # the same one next to itself
    return out


def pieces(rep, label, got, ref, idx, kout):
    for name in ref:
        r = ref[name][idx]
        g = np.asarray(got[name])
        if g.size != r.size or (g.shape != r.shape and g.size):
            rep.fail(label, '{}: column {} has shape {} for {} wavenumbers'.format(label, name, g.shape, len(idx)))
            continue
        if not g.size: continue
        rep.n += g.size
        tol = 1e-10 * np.abs(r) + (1e-13 * np.nanmax(np.abs(ref[name])) if name == 'pk' else 0.)
        ok = (g == r) | (np.isnan(g) & np.isnan(r)) | (np.abs(g - r) <= tol)
        rep.count('values_bitwise_identical', np.sum((g == r) | (np.isnan(g) & np.isnan(r))))
        if not ok.all():
            i = np.unravel_index(np.argmin(ok), ok.shape)
            rep.fail(label, '{}: column {} at k={:.17g} is {:.17g} in the request {}, {:.17g} in the sorted one'.format(label, name, kout[idx[i[0]]], g[i], kout[idx].tolist()[:12], r[i]))


def job(k, pk, cls, kout, ops, args, seed, points):
    rep = Report()
    rng = np.random.default_rng(seed)
    o = jobs.new(cls)
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    kout = np.sort(kout)

    def once(kk, fresh):
        p = jobs.new(cls) if fresh else o
        if fresh: p.set_pk_lin(k, pk)
        p.set_terms(kk)
        p.run_terms(nthreads=int(rng.integers(1, 5)), **args)
        return jobs.columns(p)

    ref = once(kout, False)
    for idx in requests(rng, len(kout)):
        pieces(rep, cls, once(kout[idx], rng.random() < 0.3), ref, idx, kout)
        rep.sig.append((cls, kout[idx].tobytes(), idx.tobytes()))
        rep.count('requests')
        rep.count('requests_unsorted', len(idx) > 1 and np.any(np.diff(kout[idx]) < 0))
    return rep


def interpolators(k, pk, kout, seed):
    """Job: find_pk_lin and calc_running_sigmad2."""
    rep = Report()
    rng = np.random.default_rng(seed)
    o = jobs.new('PyRegPT')
    o.set_pk_lin(k, pk)
    kout = np.sort(kout)
    uv = float(rng.uniform(0.1, 2))
    funcs = {'poly': lambda x: o.find_pk_lin(x), 'lin': lambda x: o.find_pk_lin(x, interpol='lin'), 'sigmad2': lambda x: o.calc_running_sigmad2(x, uvcutoff=uv)}
    for name, f in funcs.items():
        ref = {name: f(kout)}
        for idx in requests(rng, len(kout)):
            pieces(rep, name, {name: f(kout[idx])}, ref, idx, kout)
            rep.sig.append((name, kout[idx].tobytes(), idx.tobytes()))
            rep.count('requests')
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(84, 1400)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        c = c03.make(rng, cls, int(rng.integers(2, 9)), 6 if cls in history.HEAVY else 12)
        if cls == 'Spectrum2Loop' and rng.random() < 0.5: c['kout'] = np.concatenate([c['kout'], c['kout'][:1] * 0 + 0.1])
        if len(c['kout']) > 2 and rng.random() < 0.5: c['kout'][0] = c['kout'][1] * (1 + 10**rng.uniform(-9, -2))  # nearly the same one
        cases.append(dict(c, seed=int(rng.integers(1 << 30)), points=50))
    for i in range(ctx.n(14, 140)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        cases.append(dict(c03.large(rng, cls, nk=int(rng.integers(80, 200 if cls in history.HEAVY else 700))), seed=int(rng.integers(1 << 30)), points=5))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = []
    for i in range(ctx.n(80, 1500)):
        n = int(rng.integers(2, 7)) if i % 3 == 0 else int(rng.integers(7, 300))
        k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=n))
        cases.append(dict(k=k, pk=pk, kout=gen.wavenumbers(rng, k, int(rng.integers(1, 80)), 'hostile'), seed=int(rng.integers(1 << 30))))
    collect(ctx, ctx.run('plain', 'interpolators', cases), cases, 'interpolators')
    ctx.rule = ('the same wavenumbers (inside, at points, at edges, outside of the table) requested in ascending, descending, random order, alone, in parts, several times, and none, on the same or on a new instance, any thread count; '
                'each value compared with the one of the ascending request; one distinct case = one request')
    ctx.assumptions = ['deterministic integrator in place of Cuba']
