"""Memory allocated by the library is released, exactly once, when each call returns."""
import gc
import numpy as np
from .. import gen, history, jobs, model, nat
from ..oracle import Report, collect

COUNTERS = ['rvmem_live', 'rvmem_live_bytes', 'rvmem_unknown_frees', 'rvmem_smashed']


class Watch(object):

    def __init__(self, rep, o, sig=True):
        self.rep, self.o, self.sig = rep, o, sig
        self.allocs, self.frees = self.get('rvmem_allocs'), self.get('rvmem_frees')
        self.before = [self.get(c) for c in COUNTERS]

    def get(self, name):
        return jobs.counter(self.o, name)

    def check(self, what, key):
        now = [self.get(c) for c in COUNTERS]
        a = self.get('rvmem_allocs')
        live, size, unknown, smashed = [x - y for x, y in zip(now, self.before)]
        rep = self.rep
        rep.true('released', live == 0, '{}: {} blocks ({} bytes) of {} allocated are not released when the call returns'.format(what, live, size, a - self.allocs), key='leak_' + key)
        rep.true('once', unknown == 0, '{}: {} pointers released that are not allocated (released twice?)'.format(what, unknown), key='free_' + key)
        rep.true('canaries', smashed == 0, '{}: {} blocks written past their end'.format(what, smashed), key='smashed_' + key)
        rep.count('allocations_followed', a - self.allocs)
        if a > self.allocs and self.sig: rep.sig.append((what, a - self.allocs, rep.n))
        rep.count('calls_followed')
        self.before, self.allocs = now, a


def histories(hist, points):
    """Job: after each call of a history."""
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    w = Watch(rep, o)

    def on_op(p, name, kw):
        what = name
        if name == 'run': what = '{}.run_terms(nthreads={})'.format(type(p.objs[kw['i']]).__name__, kw['nthreads'])
        w.check(what, what.split('.')[0] if name == 'run' else name)

    history.Player(hist['spectra'], on_op=on_op).play(hist['ops'])
    return rep


def native(seed, nops, points):
    """Job: after each native call."""
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    w = Watch(rep, o)

    def on_op(name, call):
        call()
        w.check('native ' + name, name)

    nat.sequence(nat.Native(o.regpt), np.random.default_rng(seed), nops, on_op=on_op)
    return rep


def repeated(k, pk, cls, ops, args, points, n):
    """Job: the same calculation, with instances that come and go: memory of the library and of Python does not grow."""
    import tracemalloc
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    rng = np.random.default_rng(n)
    w = Watch(rep, o, sig=False)
    marks, peaks = [], []
    tracemalloc.start(1)
    keep = jobs.new(cls)
    keep.set_pk_lin(k, pk)
    kk = gen.wavenumbers(rng, k, 5, 'in')
    keep.set_terms(kk)
    for i in range(n):
        x = keep if i % 2 else jobs.new(cls)
        if x is not keep:
            x.set_pk_lin(np.array(k), np.array(pk))
            x.set_terms(np.array(kk[:1 + i % 5]))
        x.run_terms(nthreads=1 + i % 6, **args)
        w.check('{}.run_terms number {}'.format(cls, i), cls)
        peaks.append(w.get('rvmem_live_bytes'))
        del x
        if i % 10 == 9:
            gc.collect()
            marks.append(tracemalloc.get_traced_memory()[0])
    tracemalloc.stop()
    first, last = np.min(marks[2:6]), np.min(marks[-4:])
    grown = (last - first) / (10. * (len(marks) - 6))
    rep.true('growth', grown < 800., '{}: memory grows by {:.0f} bytes per calculation (now {}, {} before)'.format(cls, grown, last, first), key='growth_' + cls)
    rep.count('repetitions', n)
    rep.sig.append((cls, n, float(pk[0])))
    return rep


def large(k, pk, cls, kout, ops, args, counts, points):
    """Job: many nodes, wavenumbers, threads."""
    rep = Report()
    o = jobs.new(cls)
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    w = Watch(rep, o)
    for nt in counts:
        o.set_terms(np.array(kout))
        w.check('set_terms', 'terms')
        o.run_terms(nthreads=nt, **args)
        w.check('{}.run_terms(nthreads={}) of {} wavenumbers'.format(cls, nt, len(kout)), cls)
    return rep


def run(ctx):
    rng = ctx.rng
    points = 30
    cases = [dict(hist=history.generate(rng, int(rng.integers(60, 160)), nmax=6, forms=True, threads=9, clear=False, verb=True), points=points) for i in range(ctx.n(60, 800))]
    collect(ctx, ctx.run('plain', 'histories', cases), cases, 'histories')
    cases = [dict(seed=int(rng.integers(1 << 30)), nops=120, points=points) for i in range(ctx.n(40, 600))]
    collect(ctx, ctx.run('plain', 'native', cases), cases, 'native')
    from . import c03
    cases = []
    for i in range(ctx.n(21, 210)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        c = c03.large(rng, cls, nk=int(rng.integers(2, 5)), top=600) if i % 2 else c03.large(rng, cls, nk=int(rng.integers(100, 500)))
        cases.append(dict(c, counts=[int(rng.integers(1, 9)), int(rng.integers(9, 150))], points=5))
    collect(ctx, ctx.run('plain', 'large', cases), cases, 'large')
    cases = []
    for i in range(ctx.n(14, 56)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=300))
        cases.append(dict(k=k, pk=pk, cls=cls, ops=history.small_ops(rng, k, 5), args={}, points=10, n=160))
    collect(ctx, ctx.run('plain', 'repeated', cases), cases, 'repeated')
    ctx.rule = ('malloc, calloc, realloc, free and aligned allocations of the library are wrapped at link time: after each call of random histories (classes and native entry points, 0 to 9 wavenumbers, 1 to 9 threads) no block allocated in the call is alive, every release '
                'was of a living block, no canary behind a block is overwritten; repeated calculations with instances that come and go do not make the memory of Python grow; one distinct case = one call that allocates')
    ctx.assumptions = ['allocations inside of libc and of the OpenMP runtime are not followed']
