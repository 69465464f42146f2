"""Requests that cannot be served raise and leave no trace: histories with and without them, calculation by calculation."""
import numpy as np
from .. import gen, history, jobs
from ..oracle import Report, collect
from . import c03, c05, c06


def scatter(rng, hist, density):
    """The same history with requests that cannot be served in between."""
    ops, live = [], {}
    for op in hist['ops']:
        name, kw = op
        ops.append(op)
        if name == 'make' and kw['cls'] != 'PyRegPT': live[kw['i']] = False
        elif name == 'spec': live[kw['i']] = True
        elif name == 'dup' and kw['i'] in live: live[kw['j']] = live[kw['i']]
        elif name == 'drop': live.pop(kw['i'], None)
        ready = [i for i in live if live[i]]  # with a spectrum to come back to
        while ready and rng.random() < density:
            ops.append(('bad', dict(i=int(rng.choice(ready)), how=str(rng.choice(history.BAD)), name=str(rng.choice(history.SETTINGS + history.GROUPS)))))
    return dict(hist, ops=ops)


def play(hist, points, last):
    """Job: plays a history, ending with a calculation of each class; the results of all calculations, and what the refused requests did."""
    rep = Report()
    out = []
    prev = [{}]

    def on_run(p, i, args, nthreads):
        out.append((dict(cls=type(p.objs[i]).__name__, k=np.array(p.get_k(i))), jobs.columns(p.objs[i])))

    def on_op(p, name, kw):
        if name == 'bad':
            rep.true('accepted_' + kw['how'], p.nraised == seen[0] + 1, 'request {} ({}) to a {} raises nothing'.format(kw['how'], kw['name'], type(p.objs[kw['i']]).__name__))
            seen[0] = p.nraised
            now = c06.snapshot(p)
            for j in prev[0]:
                same = set(prev[0][j]) == set(now[j]) and all(np.array_equal(x, now[j][n], equal_nan=True) for n, x in prev[0][j].items())
                rep.true('trace_terms', same, 'refused request {} to instance {} changes the terms of instance {}'.format(kw['how'], kw['i'], j))
            rep.true('trace_inputs', p.intact(), 'refused request {} changes an array given as input'.format(kw['how']))
            rep.count('refused_' + kw['how'])
            rep.sig.append((kw['how'], kw['name'] if kw['how'].startswith('setting') else '', type(p.objs[kw['i']]).__name__, len(out)))
        else: prev[0] = c06.snapshot(p)

    seen = [0]
    p = history.Player(hist['spectra'], on_run=on_run, on_op=on_op)
    jobs.suave_points(jobs.new('PyRegPT'), points)
    p.play(hist['ops'])
    for j, cls in enumerate(gen.CLASSES):
        p.play([('make', dict(i=1000 + j, cls=cls, verbosity=None)), ('spec', dict(i=1000 + j, s=0, kind='plain', how='set_pk_lin')), ('terms', dict(i=1000 + j, k=np.array(last), kind='plain')),
                ('run', dict(i=1000 + j, args={}, nthreads=2))])
    return rep, out


ASK = {'run_terms': lambda o: o.run_terms(), 'find_pk_lin': lambda o: o.find_pk_lin([0.1]), 'sigmad2': lambda o: o.calc_running_sigmad2([0.1]), 'pad_k': lambda o: o.pad_k([0.001, 0.1, 30.]),
       'empty': lambda o: o.set_pk_lin([], []), 'point': lambda o: o.set_pk_lin([0.1], [1.]), 'lengths': lambda o: o.set_pk_lin([0.1, 0.2], [1.])}


def first(cls, k, pk, kout, ops, args, asks, terms):
    """Job: a process whose first requests cannot be served (no spectrum, or none that can be used), then valid ones."""
    rep = Report()
    o = jobs.new(cls)
    jobs.suave_points(o, 20)
    if terms: o.set_terms(np.array(kout))
    for a in asks:
        if a == 'pad_k' and (not terms or cls in ('A1Loop', 'A2Loop')): continue  # these have no column that needs the spectrum
        try: ASK[a](o)
        except Exception: rep.count('refused_first_' + a)
        else: rep.fail('accepted_first_' + a, 'request {} to a {} raises nothing without a spectrum'.format(a, cls))
        rep.n += 1
        rep.sig.append((cls, a, terms, kout.tobytes()))
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    if not terms: o.set_terms(np.array(kout))
    o.run_terms(nthreads=2, **args)
    return rep, jobs.columns(o)


def run(ctx):
    rng = ctx.rng
    hists = [history.generate(rng, int(rng.integers(40, 110)), resets=i % 3 == 0, nmax=6, threads=4, bad=False, forms=i % 2 == 0) for i in range(ctx.n(60, 900))]
    cases = [dict(hist=scatter(rng, h, rng.uniform(0.1, 0.5)), points=20, last=[0.05, 0.3]) for h in hists]
    a = ctx.run('plain', 'play', cases)
    b = ctx.run('plain', 'play', [dict(c, hist=h) for c, h in zip(cases, hists)])
    for c, x, y in zip(cases, a, b):
        if x.status != 0 or y.status != 0: continue
        rep, got = x.value
        for key, msg in rep.bad[:3]: ctx.violate(key, msg, {'variant': 'plain', 'func': 'play', 'case': c})
        ctx.evaluations += rep.n
        for s in rep.sig: ctx.distinct.add(s)
        for n, v in rep.cov.items(): ctx.count(n, v)
        for j, ((st, cols), (st2, ref)) in enumerate(zip(got, y.value[1])):
            one = Report()
            c05.differ(one, 'with refused requests before, calculation {} of a history'.format(j), cols, ref, st['cls'])
            for key, msg in one.bad[:2]: ctx.violate('trace_' + key, msg, {'variant': 'plain', 'func': 'play', 'case': c})
            ctx.evaluations += one.n
            for n, v in one.cov.items(): ctx.count(n, v)
            ctx.count('calculations_compared')
    cases = []
    for i in range(ctx.n(56, 700)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        c = c03.make(rng, cls, int(rng.integers(1, 4)), 4)
        cases.append(dict(cls=cls, k=c['k'], pk=c['pk'], kout=np.asarray(c['kout']), ops=c['ops'], args=c['args'], asks=[str(s) for s in rng.permutation(list(ASK))[:int(rng.integers(1, len(ASK) + 1))]], terms=bool(rng.random() < 0.6)))
    a = ctx.run('plain', 'first', cases)
    b = ctx.run('plain', 'first', [dict(c, asks=[], terms=False) for c in cases])
    for c, x, y in zip(cases, a, b):
        if x.status != 0 or y.status != 0: continue
        rep, got = x.value
        c05.differ(rep, 'after refused requests', got, y.value[1], c['cls'])
        for key, msg in rep.bad[:2]: ctx.violate('first_' + key, msg, {'variant': 'plain', 'func': 'first', 'case': c})
        ctx.evaluations += rep.n
        for s in rep.sig: ctx.distinct.add(s)
        for n, v in rep.cov.items(): ctx.count(n, v)
    ctx.rule = ('random histories of valid calls on several instances of all classes, with requests that cannot be served scattered in between ({} kinds: unknown settings, values of the wrong type for settings, cutoffs, fields, threads, arrays and modes, spectra that are empty, have one point, '
                'no values, different lengths or texts, columns of terms that are missing, too long or texts): each must raise and leave all columns and given arrays as they were, and every calculation of the history, and a last one of each class, must be that of the same history without them; '
                'processes that start with such requests, before any spectrum is set; one distinct case = one (request, class, position)').format(len(history.BAD))
    ctx.assumptions = ['deterministic integrator in place of Cuba', 'after a spectrum that cannot be used the user sets one that can']
