"""Bitwise identity over thread counts and perturbed schedules."""
import ctypes
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import terms


def perturb(o, seed):
    ctypes.c_long.in_dll(o.regpt, 'rv_perturb').value = int(seed)


def orders(o):
    n = ctypes.c_long.in_dll(o.regpt, 'rv_orders_n').value
    a = (ctypes.c_uint64 * 4096).in_dll(o.regpt, 'rv_orders')
    return set(int(a[i]) for i in range(min(n, 4096)))


def native(o, kind, k, pk, kout, a, b, nthreads):
    """One-call spectra and B terms without given spectra, through the handle of the library."""
    D = np.ctypeslib.ndpointer(dtype='f8')
    out = np.zeros(len(kout))
    if kind == 'native_1loop':
        o.regpt.set_spectrum_1loop.argtypes = (ctypes.c_size_t, D, D)
        o.regpt.run_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
        o.regpt.set_spectrum_1loop(len(kout), kout, out)
        o.regpt.run_spectrum_1loop(a.encode(), b.encode(), nthreads)
    else:
        o.set_terms(kout)
        o.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
        o.regpt.run_terms_B(nthreads)
        return {'pk': np.array(o['pk'])}
    return {'pk': out}


def job(k, pk, cls, kout, ops, args, counts, seeds, points):
    """Job: the calculation with one thread, then with each (thread count, schedule seed), on the same instance."""
    rep = Report()
    nat = cls.startswith('native')
    o = jobs.new({'native_1loop': 'Spectrum1Loop', 'native_B': 'B1Loop'}.get(cls, cls))
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    kout = np.array(kout)

    def once(nt):
        if nat: return native(o, cls, k, pk, kout, args.get('a', 'delta'), args.get('b', 'delta'), nt)
        o.set_terms(kout)
        for key in o:
            if key != 'k': o[key][...] = np.nan
        o.run_terms(nthreads=nt, **args)
        return jobs.columns(o)

    perturb(o, 0)
    ref = once(1)
    for nt, seed in zip(counts, seeds):
        perturb(o, seed)
        got = once(nt)
        for name in ref:
            g, r = got[name], ref[name]
            rep.n += r.size
            rep.sig.append((cls, nt, seed, name))
            same = g.view('u8') == r.view('u8') if g.shape == r.shape else np.zeros(1, bool)
            same = same | (np.isnan(g) & np.isnan(r)) if g.shape == r.shape else same
            if not same.all():
                i = np.unravel_index(np.argmin(same), same.shape)
                rep.fail(cls, '{}: column {} at k={} is {!r} with {} threads (schedule {}), {!r} with 1'.format(cls, name, kout[i[0]] if len(kout) else None, g[i] if g.shape == r.shape else g.shape, nt, seed, r[i] if g.shape == r.shape else r.shape))
    rep.count('parallel_regions', ctypes.c_long.in_dll(o.regpt, 'rv_regions').value)
    rep.count('critical_sections', ctypes.c_long.in_dll(o.regpt, 'rv_criticals').value)
    team = ctypes.c_long.in_dll(o.regpt, 'rv_team_max').value
    rep.count('runs', len(counts))
    rep.cov['team'] = team
    rep.cov['orders'] = orders(o)
    return rep


def make(rng, cls, nk, nmax=12, where='hostile', spectrum=None):
    k, pk = spectrum or gen.spectrum(rng)[:2]
    base = {'native_1loop': 'Spectrum1Loop', 'native_B': 'B2Loop'}.get(cls, cls)
    ops = [('set_precision', d) for d in gen.small_precision(rng, gen.NEEDS[base], nmax, k)]
    if cls == 'Spectrum2Loop': ops += [('set_precision', d) for d in gen.small_precision(rng, ['gamma3_tree_q'], nmax, k)]
    if rng.random() < 0.4: ops.append(('set_precision', dict(calculation='all_pklin', interpol=str(rng.choice(['poly', 'lin'])))))
    args = terms.fields(rng) if base.startswith('Spectrum') else {}
    return dict(k=k, pk=pk, cls=cls, kout=gen.wavenumbers(rng, k, nk, where), ops=ops, args=args)


def large(rng, cls, nk=None, top=None):
    """Many wavenumbers, or many nodes in one of the integrals."""
    c = make(rng, cls, nk or int(rng.integers(60, 400)), 4)
    base = {'native_1loop': 'Spectrum1Loop', 'native_B': 'B2Loop'}.get(cls, cls)
    if top:
        c['ops'] = [('set_precision', d) for d in gen.large_precision(rng, gen.NEEDS[base], top=top)] + [x for x in c['ops'] if x[1]['calculation'] in ('all_pklin', 'gamma3_tree_q')]
    return c


ALL = gen.CLASSES + ['native_1loop', 'native_B']


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(90, 1500)):
        cls = ALL[i % len(ALL)]
        nk = int(rng.choice([1, 2, 3, 5, 7, 8, 13, 31]))
        c = make(rng, cls, nk, 8 if cls in history.HEAVY else 14)
        if nk > 1 and rng.random() < 0.3: c['kout'] = np.sort(c['kout'][rng.integers(0, max(1, nk // 2), nk)])  # equal ones next to each other, in different threads
        m = ctx.n(12, 24)
        counts = rng.permutation(np.concatenate([rng.integers(1, 9, m - 3), [int(nk) + 1, 16, int(rng.integers(9, 33))]]))
        cases.append(dict(c, counts=[int(v) for v in counts], seeds=[int(v) for v in rng.integers(1, 1 << 30, m) * (rng.random(m) < 0.75)], points=60))
    for i in range(ctx.n(18, 180)):
        # many wavenumbers, nodes and threads
        cls = ALL[i % len(ALL)]
        c = large(rng, cls) if i % 2 else large(rng, cls, nk=int(rng.integers(3, 12)), top=300)
        counts = [int(v) for v in rng.permutation([2, 8, int(rng.integers(33, 70)), int(rng.integers(70, 200)), 0])]
        cases.append(dict(c, counts=counts, seeds=[int(v) for v in rng.integers(1, 1 << 30, 5) * (rng.random(5) < 0.4)], points=10))
    res = ctx.run('plain', 'job', cases, nproc=4)
    team, seen = 0, set()
    for r in res:
        if r.status == 0:
            team, seen = max(team, r.value.cov.pop('team')), seen | r.value.cov.pop('orders')
    collect(ctx, res, cases, 'job')
    ctx.count('largest_team', team)
    ctx.count('distinct_arrival_orders_at_synchronisations', len(seen))
    ctx.rule = ('each class (and the native one-call calculations), random inputs and settings: bits of every column with 1 thread and with 1 to 200 threads (and none requested, which keeps the number of the previous calculation), under perturbed schedules (random delays of the threads at region starts, critical sections and barriers); '
                'arrays are filled with NaN before each run, so that a value not written differs; one distinct case = one (class, thread count, schedule, column)')
    ctx.assumptions = ['the perturbation layer wraps the libgomp entry points at link time', 'deterministic integrator in place of Cuba']
