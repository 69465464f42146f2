"""The number of threads requested is the number used: team of every parallel region of every calculation, along histories."""
import ctypes
import os
import numpy as np
from .. import gen, history, jobs, model, nat
from ..oracle import Report, collect
from . import c03


class Teams(object):
    """Sizes of the teams of the parallel regions entered since the last call, as seen from inside of the regions."""

    def __init__(self, lib):
        self.v = {n: ctypes.c_long.in_dll(lib, 'rv_' + n) for n in ('team_max', 'team_min', 'team_entered', 'regions', 'suave_cores', 'suave_calls')}
        self.take()

    def take(self):
        out = {n: v.value for n, v in self.v.items()}
        for n, x in (('team_max', 0), ('team_min', 1000000), ('team_entered', 0), ('regions', 0), ('suave_calls', 0)): self.v[n].value = x
        return out


def judge(rep, what, t, want, mc=False):
    rep.count('calculations')
    rep.count('parallel_regions', t['regions'])
    rep.count('threads_that_entered_a_region', t['team_entered'])
    rep.true('parallel', t['regions'] > 0 or want == 1, '{} on {} threads enters no parallel region'.format(what, want))
    if t['regions']:
        rep.true('threads', t['team_min'] == t['team_max'] == want, '{} requested on {} threads runs its {} parallel regions on {} to {}'.format(what, want, t['regions'], t['team_min'], t['team_max']))
        rep.true('entered', t['team_entered'] == want * t['regions'], '{} on {} threads: {} threads entered its {} regions'.format(what, want, t['team_entered'], t['regions']))
    if t['suave_calls']:
        rep.true('integrator', t['suave_cores'] == want, '{} requested on {} threads gives {} to the integrator'.format(what, want, t['suave_cores']))
        rep.count('calculations_with_integrator')


def job(hist, points):
    """Job: a history; the teams of each call."""
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    teams = Teams(o.regpt)
    cur = [len(os.sched_getaffinity(0))]
    asked = [False]

    def on_op(p, name, kw):
        t = teams.take()
        if name != 'run':
            rep.true('other_calls', t['regions'] == 0 or name in ('native', 'edit', 'bad'), 'call {} enters {} parallel regions'.format(name, t['regions']))
            return
        if kw['nthreads']: cur[0], asked[0] = kw['nthreads'], True
        if not asked[0] and t['suave_calls']: t['suave_calls'] = 0  # the integrator's own default
        cls = type(p.objs[kw['i']]).__name__
        judge(rep, cls, t, cur[0])
        rep.count('calculations_keeping_the_last_number', kw['nthreads'] == 0)
        rep.sig.append((cls, kw['nthreads'], cur[0], len(p.objs[kw['i']]['k'])))

    p = history.Player(hist['spectra'], on_op=on_op)
    p.play(hist['ops'])
    return rep


def native(seed, nops, points):
    """Job: native calls."""
    rep = Report()
    rng = np.random.default_rng(seed)
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    teams = Teams(o.regpt)
    k, pk = gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(3, 20))))[:2]
    lib = nat.Native(o.regpt)
    for name in ('all_q', 'all_mu'): o.set_precision(name, n=3)
    o.set_pk_lin(k, pk)
    B = ctypes.POINTER(ctypes.c_double)
    keep = []

    def vec(x):
        keep.append(np.ascontiguousarray(x, dtype='f8'))
        return keep[-1].ctypes.data_as(B)

    kout = gen.wavenumbers(rng, k, int(rng.integers(1, 6)), 'inside')
    n = len(kout)
    last = len(os.sched_getaffinity(0))
    asked = False
    for i in range(nops):
        nt = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 24])) if rng.random() < 0.9 else int(rng.integers(25, 60))
        how = str(rng.choice(['run_spectrum_1loop', 'run_terms_B']))
        if how == 'run_terms_B':
            fn = o.regpt.set_terms_B
            fn.argtypes = (ctypes.c_size_t, B, B, B, B)
            fn(n, vec(kout), vec(np.zeros(n)), vec(np.zeros(n)), vec(np.zeros(9 * n)))
            f = o.regpt.run_terms_B
            f.argtypes = (ctypes.c_size_t,)
            teams.take()
            f(nt)
        else:
            s = getattr(o.regpt, 'set_' + how[4:])
            s.argtypes = (ctypes.c_size_t, B, B)
            s(n, vec(kout), vec(np.zeros(n)))
            f = getattr(o.regpt, how)
            f.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
            teams.take()
            f(str(rng.choice(['delta', 'theta'])).encode(), b'theta', nt)
        t = teams.take()
        if nt: last, asked = nt, True
        if not asked: t['suave_calls'] = 0
        judge(rep, how, t, last)
        rep.count('native_calculations')
        rep.sig.append((how, nt, last, n))
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(50, 800)):
        h = history.generate(rng, int(rng.integers(60, 140)), nmax=4, threads=(4, 12, 40, 90, 4, 12, 40, 300)[i % 8], bad=False, verb=i % 2 == 0, forms=False, nk=8)
        for name, kw in h['ops']:
            if name == 'run' and rng.random() < 0.25: kw['nthreads'] = 0
            if name == 'run' and rng.random() < 0.2: kw['nthreads'] = 1
        cases.append(dict(hist=h, points=10))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = [dict(seed=int(rng.integers(1 << 30)), nops=40, points=10) for i in range(ctx.n(12, 200))]
    collect(ctx, ctx.run('plain', 'native', cases), cases, 'native')
    ctx.rule = ('histories of public calls on several instances and sequences of native calculations, with requests for 0 to 300 threads (0: as many as at the last request, as many as processors before any); the OpenMP entry points are wrapped and the size of the team is read '
                'inside of every parallel region, the threads that enter are counted, the number of processes given to the integrator is recorded; one distinct case = one (calculation, request, current number, number of wavenumbers)')
    ctx.assumptions = ['the stand-in integrator records the number of processes asked for', 'no OMP_* variables in the environment']
