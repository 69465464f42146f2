"""Isolation of instances; inputs of any type and layout are only read."""
import gc
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import c05


def snapshot(p):
    return {i: {n: np.array(o.columns[n]) for n in o.fields} for i, o in p.objs.items() if type(o).__name__ != 'PyRegPT'}


def job(hist, points, scribble):
    """Job: history over several instances; after each call, the columns of all other instances and all arrays given are unchanged."""
    rep = Report()
    out = []
    prev = [{}, None]

    def on_run(p, i, args, nthreads):
        out.append((c05.state_of(p, i, args, nthreads), jobs.columns(p.objs[i])))

    def on_op(p, name, kw):
        now = snapshot(p)
        target = kw.get('i')
        writes = name in ('terms', 'run', 'edit', 'setk')
        shared = [j for j in now if target in p.objs and p.objs[j].columns is p.objs[target].columns] if writes else []
        for j in now:
            if j not in prev[0] or j in shared: continue
            old = prev[0][j]
            same = set(old) == set(now[j]) and all(np.array_equal(old[n], now[j][n], equal_nan=True) for n in old)
            rep.true('isolation', same, 'call {} on instance {} changes the terms of instance {} ({})'.format(name, target, j, type(p.objs[j]).__name__))
        rep.true('inputs', p.intact(), 'call {} modifies an array given as input'.format(name))
        if target in p.objs and name == 'terms':
            rep.true('k', np.array_equal(now[target]['k'], p.get_k(target)), 'column k of a new set of terms is {} instead of {}'.format(now[target]['k'], p.get_k(target)))
        rep.count('calls')
        rep.count('instances_watched', len(now))
        prev[0] = now

    p = history.Player(hist['spectra'], on_run=on_run, on_op=on_op, scribble=scribble)
    jobs.suave_points(jobs.new('PyRegPT'), points)
    p.play(hist['ops'])
    rep.count('calculations', len(out))
    rep.sig = [(i, op[0], repr(sorted(op[1].items(), key=str))) for i, op in enumerate(hist['ops'])]
    return rep, out


def forms(k, pk, cls, kout, ops, args, points):
    """Job: every form of input array gives the bits of the plain one, and is left as it was."""
    rep = Report()
    jobs.suave_points(jobs.new('PyRegPT'), points)
    k, pk, kout = history.round_f4(k), history.round_f4(pk), history.round_f4(kout)
    k = np.unique(k)
    pk = pk[:len(k)]

    def once(kind, how):
        o = jobs.new(cls)
        jobs.apply_ops(o, ops)
        a, b, c = history.form(k, kind), history.form(pk, kind), history.form(kout, kind)
        keep = [np.array(x, copy=True) for x in (a, b, c)]
        if how == 'lin':
            import pyregpt
            o.set_spectrum_lin(pyregpt.SpectrumLin(k=a, pk=b))
        else: o.set_pk_lin(a, b)
        o.set_terms(c)
        if kind == 'plain': pass
        gc.collect()
        o.run_terms(nthreads=2, **args)
        rep.true('inputs', all(np.array_equal(x, y) for x, y in zip(keep, (a, b, c))), 'arrays given as {} are modified'.format(kind))

        f = o.find_pk_lin(c)
        g = o.calc_running_sigmad2(c)
        rep.true('inputs', np.array_equal(keep[2], c), 'wavenumbers given as {} are modified'.format(kind))
        return dict(jobs.columns(o), find=f, sigma=g)

    ref = once('plain', 'pk')
    for kind in history.FORMS:
        for how in ('pk', 'lin'):
            if how == 'lin' and kind in ('list', 'tuple', 'fortran2d'): continue
            got = once(kind, how)
            rep.sig.append((cls, kind, how, len(kout)))
            for n in ref: rep.true('form', got[n].shape == ref[n].shape and np.array_equal(got[n], ref[n], equal_nan=True), '{} with inputs given as {} ({}): column {} is {} instead of {}'.format(cls, kind, how, n, got[n].ravel()[:4], ref[n].ravel()[:4]))
    return rep


def mutated(k, pk, cls, kout, ops, args, points, seed):
    """Job: arrays given and dropped, or overwritten by their owner after the call (set_pk_lin and set_terms may have kept a view: only dropping is judged); and results held by the user survive later calculations."""
    rep = Report()
    rng = np.random.default_rng(seed)
    jobs.suave_points(jobs.new('PyRegPT'), points)

    def junk():
        return [np.full(int(n), np.nan) for n in list(rng.integers(1, 500, 60)) + [len(k)] * 20 + [len(kout)] * 40]

    o = jobs.new(cls)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(np.array(k), np.array(pk))
    o.set_terms(np.array(kout))
    o.run_terms(nthreads=2, **args)
    ref = jobs.columns(o)
    for turn in range(3):
        o = jobs.new(cls)
        o.set_pk_lin(list(k), list(pk))
        gc.collect()
        j1 = junk()
        o.set_terms(list(kout))
        gc.collect()
        j2 = junk()
        others = []
        for i in range(int(rng.integers(1, 4))):
            c2 = str(rng.choice(gen.CLASSES))
            p = jobs.new(c2 if i else cls)
            p.set_pk_lin(k * 1.3, pk * 2.)
            p.set_terms(np.array(kout)[:max(1, len(kout) - 1)] * 1.1)
            if rng.random() < 0.7: p.run_terms(nthreads=2)
            if rng.random() < 0.5: others.append(p)
            del p
        gc.collect()
        j3 = junk()
        o.run_terms(nthreads=2, **args)
        got = jobs.columns(o)
        held = {n: o[n] for n in o}
        for p in others: p.run_terms(nthreads=1)
        q = jobs.new(cls)
        q.set_pk_lin(k, pk * 3.)
        q.set_terms(np.array(kout) * 0.9)
        q.run_terms(nthreads=2, **args)
        f = o.find_pk_lin(kout)
        rep.true('own_spectrum', np.array_equal(f, ref['find'] if 'find' in ref else f), '')
        ref.setdefault('find', f)
        for n in got:
            rep.true('dropped', np.array_equal(got[n], ref[n], equal_nan=True), '{}: column {} is {} instead of {} when other instances were used and dropped'.format(cls, n, got[n].ravel()[:4], ref[n].ravel()[:4]))
            rep.true('held', np.array_equal(held[n], ref[n], equal_nan=True), '{}: column {} held by the user changes to {} from {} after calculations of other instances'.format(cls, n, held[n].ravel()[:4], ref[n].ravel()[:4]))
        rep.sig.append((cls, turn, seed))
        del j1, j2, j3
    return rep


def run(ctx):
    rng = ctx.rng
    points = 40
    hists = [history.generate(rng, int(rng.integers(60, 140)), nmax=6, forms=True, nobj=6) for i in range(ctx.n(40, 500))]
    cases = [dict(hist=h, points=points, scribble=True) for h in hists]
    res = ctx.run('plain', 'job', cases)
    collect(ctx, [r._replace(value=r.value[0]) if r.status == 0 else r for r in res], cases, 'job')
    pick = []
    for c, r in zip(cases, res):
        if r.status != 0: continue
        out = r.value[1]
        for j in set(rng.integers(0, len(out), 8).tolist()) if out else []: pick.append((c, j) + out[j])
    ref = ctx.run('plain', 'pristine', [dict(states=[st], points=points) for c, j, st, got in pick], module='rv.checks.c05')
    for (c, j, st, got), r in zip(pick, ref):
        if r.status != 0: continue
        one = Report()
        c05.differ(one, 'calculation {} of a history on several instances'.format(j), got, r.value, st['cls'])
        for key, msg in one.bad[:2]: ctx.violate(key, msg, {'variant': 'plain', 'func': 'job', 'case': c})
        ctx.evaluations += one.n
        ctx.count('calculations_compared_with_a_process_of_their_own')
    from . import c03
    cc, dd = [], []
    for i in range(ctx.n(28, 280)):
        cls = gen.CLASSES[i % len(gen.CLASSES)]
        c = c03.make(rng, cls, 2 * int(rng.integers(1, 4)), 5 if cls in history.HEAVY else 10, spectrum=gen.spectrum(rng, k=gen.table(rng, n=2 * int(rng.integers(5, 60)), jitter=0.3))[:2])
        cc.append(dict(c, points=points))
        dd.append(dict(c, points=points, seed=int(rng.integers(1 << 30))))
    collect(ctx, ctx.run('plain', 'forms', cc), cc, 'forms')
    collect(ctx, ctx.run('plain', 'mutated', dd), dd, 'mutated')
    ctx.rule = ('histories over up to 6 living instances of all classes with input arrays of 12 types and layouts: after each call the columns of every other instance and every array given are compared with what they were; sampled calculations are redone in a '
                'process of their own; inputs and instances are dropped, collected and their memory reused before the calculation; one distinct case = one call of a history or one (class, form)')
    ctx.assumptions = ['a shallow copy shares its columns with its origin (Python semantics)', 'deterministic integrator in place of Cuba']
