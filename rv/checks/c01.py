"""Memory safety and defined behaviour: sanitizers over hostile histories of calls."""
import os
import subprocess
import numpy as np
from .. import build, core, gen, history, jobs, model, nat
from ..oracle import Report, collect
from . import c05

WILD = [0., -1., np.nan, np.inf, -np.inf, 1e-300, 1e300, 5e-324, -0.]


def spectrum(rng):
    c = rng.random()
    if c < 0.45: return gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(2, 9))))[:2]
    if c < 0.55: return gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(12, 20))))[:2]
    k, pk = gen.spectrum(rng)[:2]
    if c > 0.9: k = k * 10**rng.uniform(-80, 80)  # any unit
    if c < 0.65: pk = pk * rng.choice([1., 0., -1.], len(pk), p=[0.9, 0.05, 0.05])
    return k, pk


def history_of(rng, nops, **kw):
    h = history.generate(rng, nops, spectra=[spectrum(rng) for i in range(3)], nobj=6, threads=12, verb=True, clear=False, forms=True, nk=10, **kw)
    if rng.random() < 0.4: h['ops'] = [('verbosity', dict(i=0, mode=str(rng.choice(['info', 'debug'], p=[0.8, 0.2])))) if j == 1 else op for j, op in enumerate([h['ops'][0], None] + h['ops'][1:])]
    for name, d in h['ops']:
        if name == 'terms' and len(d['k']) and rng.random() < 0.1: d['k'] = np.array(d['k']); d['k'][int(rng.integers(len(d['k'])))] = rng.choice(WILD)
        if name == 'setting' and d['op'][0] == 'set_precision' and 'n' in d['op'][1] and rng.random() < 0.15: d['op'][1]['n'] = 1
    return h


def histories(hist, points):
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    with np.errstate(all='ignore'):
        p = history.Player(hist['spectra'], scribble=True)
        p.play(hist['ops'])
    rep.n = len(hist['ops'])
    for name, kw in hist['ops']: rep.count('calls_' + name)
    rep.sig = [(n, repr(sorted(d.items(), key=str))) for n, d in hist['ops']]
    return rep


def native(seed, nops, points):
    rep = Report()
    rng = np.random.default_rng(seed)
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)

    def on_op(name, call):
        call()
        rep.n += 1
        rep.count('native_' + name)
        rep.sig.append((name, seed, rep.n))

    nat.sequence(nat.Native(o.regpt), rng, nops, threads=12, verb=True, on_op=on_op, tables=[spectrum(rng) for i in range(3)])
    return rep


def large(k, pk, cls, kout, ops, args, counts, points):
    """Job: many nodes, wavenumbers, tabulated points, threads."""
    rep = Report()
    o = jobs.new(cls)
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    for nt in counts:
        o.set_terms(np.array(kout))
        o.run_terms(nthreads=nt, **args)
        rep.n += 1
        rep.sig.append((cls, len(kout), len(k), nt, repr(ops)))
    o.find_pk_lin(np.concatenate([k, k * 1.1, k * 0.9]))
    o.calc_running_sigmad2(k)
    rep.count('large_calculations', len(counts))
    return rep


def unset(cls, seed):
    """Job: calls on fresh objects, without spectrum or terms: exceptions at worst."""
    import pyregpt
    rep = Report()
    rng = np.random.default_rng(seed)
    k = np.array([0.1, 0.2])
    calls = {'run_terms': lambda o: o.run_terms(), 'find_pk_lin': lambda o: o.find_pk_lin(k), 'calc_running_sigmad2': lambda o: o.calc_running_sigmad2(k), 'set_terms': lambda o: o.set_terms(k),
             'copy': lambda o: o.copy(), 'deepcopy': lambda o: o.deepcopy(), 'pad_k': lambda o: o.pad_k([0.01, 0.1, 0.2, 0.3]), 'nan_to_zero': lambda o: o.nan_to_zero(), 'clear': lambda o: o.clear(),
             'rescale': lambda o: o.rescale(2.), 'pk': lambda o: o.pk(), 'set_precision': lambda o: o.set_precision('all_q', n=3), 'nodes': lambda o: o.nodes_weights_gauss_legendre(0., 1., 5), 'verbosity': lambda o: o.set_verbosity('info'),
             'spectrum': lambda o: o.set_pk_lin(np.array([0.01, 0.1, 1.]), np.array([1., 2., 1.])), 'empty': lambda o: o.set_terms([]), 'unknown_setting': lambda o: o.set_precision('nothing', n=3), 'str': lambda o: str(o), 'len': lambda o: len(o)}
    for turn in range(6):
        o = getattr(pyregpt, cls)()
        jobs.suave_points(o, 10)
        o.set_precision('all_q', n=4)
        o.set_precision('all_mu', n=3)
        for name in rng.permutation(list(calls))[:int(rng.integers(3, len(calls)))]:
            if name == 'clear': continue
            rep.n += 1
            try:
                with np.errstate(all='ignore'): calls[name](o)
                rep.count('calls_accepted')
            except Exception as e:
                rep.count('calls_refused_' + type(e).__name__)
            rep.sig.append((cls, seed, turn, str(name)))
    return rep


def driver(exe, program):
    """Job: a program of native calls in the driver under MemorySanitizer."""
    rep = Report()
    p = subprocess.run([exe], input='\n'.join(program) + '\n', capture_output=True, text=True, errors='replace', env=dict(os.environ, MSAN_OPTIONS='exit_code=87:halt_on_error=1:symbolize=1:print_stats=0'))
    rep.n = len(program)
    err = p.stderr
    done = [l for l in err.splitlines() if l.startswith('DONE')]
    if p.returncode == 3: raise RuntimeError(err[-500:])
    if p.returncode or not done:
        lines = [l for l in err.splitlines() if 'UNINITIALISED' in l or 'WARNING' in l or 'ERROR' in l or 'SUMMARY' in l]
        rep.fail('uninitialised', 'native calls under MemorySanitizer: status {}, {} | {}'.format(p.returncode, ' | '.join(lines)[:600], err[:1200]))
    else:
        w = done[-1].split()
        rep.count('driver_calls', int(w[2]))
        rep.count('values_checked_for_initialisation', int(w[4]))
    rep.sig = [(i, l[:300]) for i, l in enumerate(program)]
    return rep


def program(rng, nops):
    r = nat.Recorder()
    tables = [spectrum(rng) for i in range(3)]

    def on_op(name, call):
        call()
        if rng.random() < 0.15: r.functions(rng, tables[0][0])

    nat.sequence(r, rng, nops, threads=3, verb=True, on_op=on_op, tables=tables)
    return r.out


def run(ctx):
    rng = ctx.rng
    from . import c03
    cases = [dict(hist=history_of(rng, int(rng.integers(60, 140))), points=12) for i in range(ctx.n(120, 1600))]
    collect(ctx, ctx.run('asan', 'histories', cases), cases, 'histories', variant='asan')
    cases = [dict(seed=int(rng.integers(1 << 30)), nops=100, points=12) for i in range(ctx.n(40, 500))]
    collect(ctx, ctx.run('asan', 'native', cases), cases, 'native', variant='asan')
    cases = [dict(cls=c, seed=int(rng.integers(1 << 30))) for c in ['PyRegPT'] + gen.CLASSES * ctx.n(1, 10)]
    collect(ctx, ctx.run('asan', 'unset', cases), cases, 'unset', variant='asan')
    cases = []
    for i in range(ctx.n(21, 210)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        sp = gen.spectrum(rng, k=gen.table(rng, n=int(10**rng.uniform(2.7, 4.3)), jitter=0.3))[:2] if i % 3 == 2 else None
        if i % 3 == 0: c = c03.large(rng, cls, nk=int(rng.integers(2, 5)), top=600)
        else: c = c03.make(rng, cls, int(rng.integers(100, 500)) if i % 3 == 1 else 3, 4, spectrum=sp if cls != 'B2Loop' else None)
        cases.append(dict(c, counts=[int(rng.integers(1, 9)), int(rng.integers(9, 150))], points=5))
    # each number of nodes in turn beyond any size met in use
    for cls, names in (('Spectrum2Loop', ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_tree_mu', 'gamma2d_1loop_q', 'gamma2t_1loop_q']), ('Spectrum1Loop', ['gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu']),
                       ('Bias1Loop', gen.NEEDS['Bias1Loop']), ('A1Loop', gen.NEEDS['A1Loop']), ('A2Loop', ['A_2loop_I_q', 'A_2loop_I_mu']), ('B1Loop', gen.NEEDS['B1Loop'])):
        for name in names * ctx.n(1, 6):
            c = c03.make(rng, cls, 2, 3)
            top = 1500 if name == 'gamma1_2loop_q' else 12000
            ops = [('set_precision', dict(d, n=int(top * np.exp(rng.uniform(-1.2, 0)))) if d['calculation'] == name else d) for d in gen.small_precision(rng, gen.NEEDS[cls], 3)]
            cases.append(dict(c, ops=ops, counts=[2], points=5))
    collect(ctx, ctx.run('asan', 'large', cases), cases, 'large', variant='asan')
    cases = []
    for i in range(ctx.n(14, 140)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        c = c03.make(rng, cls, int(rng.integers(1, 6)), 4 if cls in history.HEAVY else 8)
        cases.append(dict(c, points=8, seed=int(rng.integers(1 << 30))))
    collect(ctx, ctx.run('asan', 'mutated', cases, module='rv.checks.c06'), cases, 'mutated', variant='asan')
    # uninitialised memory
    exe = build.stage_driver()
    cases = [dict(exe=exe, program=program(rng, int(rng.integers(20, 60)))) for i in range(ctx.n(40, 600))]
    collect(ctx, ctx.run('plain', 'driver', cases), cases, 'driver', samples=False)
    cases = [dict(hist=history.generate(rng, int(rng.integers(40, 90)), nmax=6, threads=4), points=12) for i in range(ctx.n(24, 300))]
    a, b = [ctx.run(v, 'dirty', cases, module='rv.checks.c05') for v in ('pattern', 'zero')]
    for c, x, y in zip(cases, a, b):
        if x.status != 0 or y.status != 0: continue
        for j, ((st, got), (st2, ref)) in enumerate(zip(x.value, y.value)):
            one = Report()
            c05.differ(one, 'with other contents of uninitialised memory, calculation {} of a history'.format(j), got, ref, st['cls'])
            for key, msg in one.bad[:2]: ctx.violate('uninitialised_' + key, msg, {'variant': 'pattern', 'func': 'dirty', 'case': c, 'module': 'rv.checks.c05'})
            ctx.evaluations += one.n
            ctx.distinct.add(('fill', j, repr(st['kout'])))
            ctx.count('calculations_repeated_with_other_uninitialised_contents')
    ctx.rule = ('AddressSanitizer and UndefinedBehaviorSanitizer over random histories of calls on up to 6 instances (spectra of 2 to 400 points, some not positive; 0 to 13 wavenumbers, repeated, unsorted, outside of the table, sometimes zero, negative, infinite or NaN; 1 to 10 nodes; 1 to 12 threads; some with hundreds of nodes, wavenumbers, threads or thousands of tabulated points; '
                'all verbosities; arrays and instances dropped and their memory reused), over sequences of native calls and calls on objects without spectrum or terms; MemorySanitizer on a sequential program of the same native calls, outputs checked for initialisation; '
                'histories repeated with other contents of uninitialised heap and stack; one distinct case = one call with its arguments')
    ctx.assumptions = ['Cuba is replaced by a deterministic integrator', 'reads of the Python interpreter itself are not judged']
