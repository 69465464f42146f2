"""Data races: ThreadSanitizer on every calculation, with the synchronisation of the OpenMP runtime made visible to it and perturbed schedules."""
import ctypes
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import c03


def job(k, pk, cls, kout, ops, args, counts, seeds, points, verbosity='quiet'):
    rep = Report()
    nat = cls.startswith('native')
    o = jobs.new({'native_1loop': 'Spectrum1Loop', 'native_B': 'B1Loop'}.get(cls, cls))
    o.set_verbosity(verbosity)
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    kout = np.array(kout)
    for nt, seed in zip(counts, seeds):
        c03.perturb(o, seed)
        if nat: c03.native(o, cls, k, pk, kout, args.get('a', 'delta'), args.get('b', 'delta'), nt)
        else:
            o.set_terms(kout)
            o.run_terms(nthreads=nt, **args)
        rep.n += 1
        rep.sig.append((cls, len(kout), nt, seed, verbosity))
    for n in ['regions', 'criticals', 'barriers']: rep.count('synchronisations_' + n, ctypes.c_long.in_dll(o.regpt, 'rv_' + n).value)
    rep.cov['team'] = ctypes.c_long.in_dll(o.regpt, 'rv_team_max').value
    rep.cov['orders'] = c03.orders(o)
    rep.count('threads_run', sum(counts))
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(54, 700)):
        cls = c03.ALL[i % len(c03.ALL)]
        nk = int(rng.choice([1, 2, 3, 6, 9]))
        c = c03.make(rng, cls, nk, 5 if cls in history.HEAVY else 10)
        counts = [int(v) for v in rng.choice([2, 3, 4, 5, 8, 12], 3)]
        cases.append(dict(c, counts=counts, seeds=[int(v) for v in rng.integers(1, 1 << 30, 3)], points=25, verbosity=['quiet', 'quiet', 'info', 'debug'][i // len(c03.ALL) % 4]))
    for i in range(ctx.n(9, 90)):
        c = c03.large(rng, c03.ALL[i % len(c03.ALL)], nk=int(rng.integers(20, 60))) if i % 3 else c03.large(rng, c03.ALL[i % len(c03.ALL)], nk=3, top=100)
        cases.append(dict(c, counts=[int(rng.integers(16, 40)), 7], seeds=[int(v) for v in rng.integers(1, 1 << 30, 2)], points=8, verbosity=['quiet', 'debug'][i % 2]))
    res = ctx.run('tsan', 'job', cases, nproc=4, timeout=400)
    team, seen = 0, set()
    for r in res:
        if r.status == 0:
            team, seen = max(team, r.value.cov.pop('team')), seen | r.value.cov.pop('orders')
    collect(ctx, res, cases, 'job', variant='tsan')
    ctx.count('largest_team', team)
    ctx.count('distinct_arrival_orders_at_synchronisations', len(seen))
    ctx.rule = ('each class (and the native one-call calculations) on 2 to 40 threads, more or fewer than wavenumbers, random inputs and settings, all verbosity modes, perturbed schedules; any report of ThreadSanitizer is a violation; '
                'one distinct case = one (class, number of wavenumbers, threads, schedule)')
    ctx.assumptions = ['gcc ThreadSanitizer; libgomp is not instrumented, its fork/join, barriers, critical sections and locks are announced to it by rv/native/gompmon.c', 'stand-in integrator: the parallelism inside Cuba (fork) is outside of the repository']

