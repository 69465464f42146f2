"""Results are a function of the current inputs and settings: calculations at the end of random histories against the same calculation in a pristine process."""
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect


def state_of(player, i, args, nthreads):
    o = player.objs[i]
    k, pk = player.table(i)
    return dict(k=np.array(k), pk=np.array(pk), cls=type(o).__name__, kout=np.array(player.get_k(i)), ops=history.dump(player.cfg), args=args)


def dirty(hist, points):
    """Job: plays a history; returns, for each calculation, the state it should depend on and its result."""
    out = []

    def on_run(p, i, args, nthreads):
        out.append((state_of(p, i, args, nthreads), jobs.columns(p.objs[i])))
        if len(out) % 4 == 0:  # repeating repeats
            p.objs[i].run_terms(nthreads=nthreads, **args)
            out.append((out[-1][0], jobs.columns(p.objs[i])))

    p = history.Player(hist['spectra'], on_run=on_run)
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    p.play(hist['ops'])
    return out


def pristine(states, points):
    """Job: each calculation alone would need a process each: here one calculation per process."""
    s, = states
    jobs.suave_points(jobs.new('PyRegPT'), points)
    return jobs.calc(s['k'], s['pk'], s['cls'], s['kout'], s['ops'], s['args'], 1)


def differ(rep, label, got, ref, cls):
    for name in ref:
        if name not in got or np.shape(got[name]) != np.shape(ref[name]):
            rep.fail(cls, '{}: column {} is {} instead of {}'.format(label, name, np.shape(got.get(name)), np.shape(ref[name])))
            continue
        g, r = np.asarray(got[name]), np.asarray(ref[name])
        same = (g == r) | (np.isnan(g) & np.isnan(r))
        scale = np.nanmax(np.abs(r[np.isfinite(r)])) if np.isfinite(r).any() else 0.
        close = same | (np.abs(g - r) <= 1e-11 * np.abs(r) + 1e-13 * scale)
        rep.n += r.size
        rep.count('values_bitwise_identical', same.sum())
        if not close.all():
            i = np.unravel_index(np.argmin(close), close.shape)
            rep.fail(cls, '{}: column {} of {}: {:.17g} instead of {:.17g} in a fresh process (k={})'.format(label, name, cls, g[i], r[i], ref['k'][i[0]] if ref['k'].size else None))


def many(k, pk, cls, kout, ops, args, n, renew, nthreads, points):
    """Job: the same calculation a great number of times."""
    rep = Report()
    o = jobs.new(cls)
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    o.set_pk_lin(k, pk)
    o.set_terms(np.array(kout))
    o.run_terms(nthreads=nthreads, **args)
    ref = jobs.columns(o)
    for j in range(n):
        if renew == 'terms': o.set_terms(np.array(kout))
        if renew == 'instance':
            o = jobs.new(cls)
            o.set_pk_lin(k, pk)
            o.set_terms(np.array(kout))
        if renew == 'settings': jobs.apply_ops(o, ops)
        o.run_terms(nthreads=nthreads, **args)
        rep.n += 1
        bad = [name for name in ref if not np.array_equal(ref[name], o[name], equal_nan=True)]
        if bad:
            rep.fail('many_' + cls, 'calculation {} of the same terms gives another {}: {} instead of {}'.format(j + 2, bad[0], np.ravel(o[bad[0]])[:3], np.ravel(ref[bad[0]])[:3]))
            break
    rep.count('calculations_repeated_many_times', rep.n)
    rep.sig.append((cls, renew, nthreads, n, kout.tobytes()))
    return rep


def cleared(hist, points, seed):
    """Job: history, then clear(), then calculations with the default settings."""
    rng = np.random.default_rng(seed)
    p = history.Player(hist['spectra'])
    jobs.suave_points(jobs.new('PyRegPT'), points)
    p.play(hist['ops'])
    i = list(p.objs)[int(rng.integers(len(p.objs)))]
    p.objs[i].clear()
    p.objs[i].set_verbosity('quiet')
    return defaults(hist['spectra'][0], points)


def defaults(spectrum, points, fresh=False):
    import pyregpt
    out = {}
    k, pk = spectrum
    kout = np.array([0.03, 0.21])
    for cls in gen.CLASSES:
        o = getattr(pyregpt, cls)()
        if fresh:
            o.set_verbosity('quiet')
            jobs.suave_points(o, points)
        o.set_pk_lin(k, pk)
        o.set_terms(kout[:1] if cls in history.HEAVY else kout)
        o.run_terms(nthreads=2)
        out[cls] = jobs.columns(o)
    return out


def run(ctx):
    rng = ctx.rng
    points = 60
    nh = ctx.n(40, 500)
    hists = [history.generate(rng, int(rng.integers(60, 160)), resets=False, nmax=8, verb=i % 4 == 0, threads=40 if i % 5 == 0 else 6) for i in range(nh)]
    cases = [dict(hist=h, points=points) for h in hists]
    res = ctx.run('plain', 'dirty', cases)
    pick, ncalc = [], 0
    for c, r in zip(cases, res):
        if r.status != 0: continue
        ncalc += len(r.value)
        idx = sorted(set(rng.integers(0, len(r.value), 12).tolist() + [len(r.value) - 1])) if r.value else []
        pick += [(c, j, r.value[j]) for j in idx]
    ref = ctx.run('plain', 'pristine', [dict(states=[st], points=points) for c, j, (st, got) in pick])
    rep = Report()
    for (c, j, (st, got)), r in zip(pick, ref):
        if r.status != 0: continue
        one = Report()
        differ(one, 'calculation {} of a history'.format(j), got, r.value, st['cls'])
        for key, msg in one.bad[:2]: ctx.violate(key, msg, {'variant': 'plain', 'func': 'dirty', 'case': c})
        ctx.evaluations += one.n
        ctx.distinct.add((st['cls'], st['kout'].tobytes(), repr(st['ops'])))
        for k, v in one.cov.items(): ctx.count(k, v)
        ctx.count('calculations_compared_' + st['cls'])
    cases = []
    for i in range(ctx.n(21, 84)):
        cls = gen.CLASSES[i % 7]
        from . import c03
        c = c03.make(rng, cls, int(rng.integers(1, 3)), 2 if cls in history.HEAVY else 3, spectrum=gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(3, 30))))[:2])
        cases.append(dict(c, n=ctx.n(1300, 5000) // (2 if cls in history.HEAVY else 1), renew=str(rng.choice(['none', 'terms', 'instance', 'settings'])), nthreads=1 + (i // 7) % 2, points=2))
    collect(ctx, ctx.run('plain', 'many', cases), cases, 'many')
    # clear()
    m = ctx.n(4, 24)
    spec = [h['spectra'][0] for h in hists[:m]]
    cc = [dict(hist=history.generate(rng, 70, resets=True, nmax=8, spectra=hists[i]['spectra']), points=points, seed=int(rng.integers(1 << 30))) for i in range(m)]
    a = ctx.run('plain', 'cleared', cc)
    b = ctx.run('plain', 'defaults', [dict(spectrum=s, points=points, fresh=True) for s in spec])
    for c, x, y in zip(cc, a, b):
        if x.status != 0 or y.status != 0: continue
        for cls in gen.CLASSES:
            one = Report()
            differ(one, 'after clear()', x.value[cls], y.value[cls], cls)
            for key, msg in one.bad[:2]: ctx.violate('clear_' + key, msg, {'variant': 'plain', 'func': 'cleared', 'case': c})
            ctx.evaluations += one.n
            ctx.distinct.add(('clear', cls, repr(c['seed'])))
        ctx.count('histories_cleared')
    ctx.samples.append('history: ' + ' '.join(n for n, kw in hists[0]['ops'])[:600])
    ctx.count('histories', nh)
    ctx.count('calls_in_histories', sum(len(h['ops']) for h in hists))
    ctx.count('calculations_in_histories', ncalc)
    ctx.rule = ('random histories of public calls on several instances of all classes (spectra, settings, cutoffs, groups, wavenumbers, calculations, copies, paddings, drops); calculations sampled from each history are redone alone in a process '
                'that has never calculated anything, with the settings a model of the settings says are current; the same calculation repeated a thousand times and more; one distinct case = one (class, wavenumbers, settings)')
    ctx.assumptions = ['model.Cfg tracks the settings (checked by C17)', 'deterministic integrator in place of Cuba']
