"""Precision settings: histories of settings against the reference model run with the settings a model of the interface says are current."""
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import terms

PROBES = np.random.default_rng(5).uniform(size=(12, 5))


def evaluate(rep, spec, cfg, k, pk, cls, kout, args, label):
    """The terms of a class with the current settings of the library, against the model."""
    import pyregpt
    o = getattr(pyregpt, cls)()
    o.set_pk_lin(k, pk)
    hook = None
    if cls in ('Spectrum2Loop', 'A2Loop'): hook = jobs.install(o, dict(points=PROBES, ret=[0.]))
    o.set_terms(np.array(kout))
    o.run_terms(nthreads=2, **args)
    got = jobs.columns(o)
    ref = terms.MODEL[cls](spec, cfg, kout, **args) if cls != 'B2Loop' else b2(spec, cfg, kout)
    for name in ref: rep.vals('{}: {} of {}'.format(label, name, cls), got[name], ref[name], key=cls + '.' + name)
    if hook is None: return
    for kk, log in zip(kout, hook.log):
        with np.errstate(all='ignore'):
            if cls == 'A2Loop': v, margin = model.A_II_III_integrand(spec, cfg, kk, PROBES)
            else: v, margin = model.gamma3_integrand(spec, cfg, kk, args['a'], args['b'], PROBES)
        v = np.atleast_2d(np.asarray(v, dtype='f8'))
        ok = margin > 1e-9
        rep.close('{}: integrand of {} (settings of the Monte Carlo part)'.format(label, cls), log['values'].T[:, ok], v[:, ok], 1e-5 * np.abs(v[:, ok]).max(axis=0) + 1e-290, key=cls + '.integrand')
        rep.count('monte_carlo_probes', ok.sum())


def b2(spec, cfg, kout):
    """Spectra at the points of the table from the model at one loop."""
    D, TH = model.D, model.TH
    out = {}
    for name, (a, b) in dict(dt=(D, TH), tt=(TH, TH)).items():
        t = model.spectrum_1loop(spec, cfg, spec.k, a, b)
        out[name] = model.pk_1loop({n: np.array([float(v.v) for v in t[n]]) for n in t} | {'k': spec.k})
    return model.B_terms(spec, cfg, kout, model.Spec(spec.k, out['dt']), model.Spec(spec.k, out['tt']))


def job(k, pk, settings, calcs):
    """Job: settings and calculations interleaved."""
    rep = Report()
    import pyregpt
    spec, cfg = model.Spec(k, pk), model.Cfg()
    o = jobs.new('PyRegPT')
    users = [o, jobs.new('Bias1Loop'), jobs.new('Spectrum2Loop')]
    last = ''
    for step in settings:
        if step[0] == 'calc': evaluate(rep, spec, cfg, k, pk, step[1]['cls'], step[1]['kout'], step[1]['args'], 'after ' + last)
        elif step[0] == 'other':  # a calculation with another spectrum must not change the settings
            p = jobs.new(step[1]['cls'])
            p.set_pk_lin(k * step[1]['x'], pk)
            if 'Loop' in step[1]['cls'] and step[1]['cls'] in ('Spectrum2Loop', 'A2Loop'): jobs.install(p, dict(points=PROBES[:1], ret=[0.]))
            p.set_terms(np.array([0.1, 0.05]))
            p.run_terms(nthreads=3)
        else:
            u = users[rep.n % 3]
            getattr(u, step[0])(**step[1])
            history.apply_cfg(cfg, step)
            last = '{}({})'.format(step[0], ', '.join('{}={!r}'.format(*x) for x in step[1].items()))
            rep.sig.append(last)
            rep.count('settings_changed')
            rep.count('of_' + str(step[1].get('calculation', step[0])))
    return rep


AFFECTS = {'gamma1_1loop_q': ['Spectrum1Loop', 'Spectrum2Loop', 'A2Loop'], 'gamma1_2loop_q': ['Spectrum2Loop'], 'gamma2_tree_q': ['Spectrum1Loop', 'Spectrum2Loop'], 'gamma2_tree_mu': ['Spectrum1Loop', 'Spectrum2Loop'],
           'gamma2d_1loop_q': ['Spectrum2Loop', 'A2Loop'], 'gamma2t_1loop_q': ['Spectrum2Loop', 'A2Loop'], 'gamma3_tree_q': ['Spectrum2Loop'], 'bias_1loop_q': ['Bias1Loop'], 'bias_1loop_mu': ['Bias1Loop'],
           'A_1loop_q': ['A1Loop'], 'A_1loop_mu': ['A1Loop'], 'A_2loop_I_q': ['A2Loop'], 'A_2loop_I_mu': ['A2Loop'], 'A_2loop_II_III_q': ['A2Loop'], 'B_q': ['B1Loop'], 'B_mu': ['B1Loop'],
           'spectrum_1loop_pk_lin': ['Spectrum1Loop'], 'spectrum_2loop_pk_lin': ['Spectrum2Loop'], 'bias_1loop_pk_lin': ['Bias1Loop'], 'bispectrum_1loop_pk_lin': ['A2Loop'], 'A_1loop_pk_lin': ['A1Loop'], 'A_2loop_pk_lin': ['A2Loop'], 'B_pk_lin': ['B1Loop'],
           'spectrum_1loop': ['Spectrum1Loop'], 'spectrum_2loop': ['Spectrum2Loop'], 'bispectrum_1loop': ['A2Loop'], 'bias_1loop': ['Bias1Loop'], 'A_1loop': ['A1Loop'], 'A_2loop': ['A2Loop'], 'B': ['B1Loop']}
MODELED = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop']


def members(op):
    name = op[1].get('calculation', 'all')
    if op[0] == 'set_running_uvcutoff': return model.UV if name == 'all' else [name]
    return model.GROUPS.get(name, [name])


def calc(rng, k, cls):
    return ('calc', dict(cls=cls, kout=gen.wavenumbers(rng, k, 1 if cls in history.HEAVY else 2, 'in'), args=terms.fields(rng) if cls.startswith('Spectrum') else {}))


def settings(rng, k, n, names):
    """Settings in random order; after each, calculations it should act on, and now and then one it should not."""
    out = history.small_ops(rng, k, 8)
    for i in range(n):
        op = names.pop() if names else history.random_setting(rng, k, 8, groups=True)
        out.append(op)
        if rng.random() < 0.25: out.append(('other', dict(cls=str(rng.choice(gen.CLASSES)), x=float(rng.uniform(0.5, 2)))))
        m = list(members(op))
        cls = set(str(rng.choice(AFFECTS[str(rng.choice(m))])) for j in range(2 if len(m) > 1 else 1))
        if rng.random() < 0.5: cls.add(str(rng.choice(MODELED)))
        for c in sorted(cls): out.append(calc(rng, k, c))
    return out


def every(rng, k, nmax=8):
    """One call of each kind for each name."""
    out = []
    for name in model.Q + model.MC + model.MU + [g for g in model.GROUPS if g != 'all_pklin']:
        mu, mc = name in model.MU or name == 'all_mu', name in model.MC
        if not mc: out.append(('set_precision', dict(calculation=name, n=int(rng.integers(2, nmax + 1)))))
        if not mu:
            if name not in ('all',): out.append(('set_precision', dict(calculation=name, min=float(10**rng.uniform(-3.5, -2)), max=float(10**rng.uniform(-0.5, 1)))))
            out.append(('set_precision', dict(calculation=name, n=int(rng.integers(2, nmax + 1)), min=-1., max=float(rng.choice([-1., 0.])))))
        out += [('set_precision', dict(calculation=name, interpol=i)) for i in ('poly', 'lin')]
        out.append(('set_precision', dict(calculation=name, n=int(rng.integers(2, nmax + 1)), min=2e-3, max=2., interpol=str(rng.choice(['lin', 'poly'])))))
    for name in model.PKLIN + ['all_pklin']: out += [('set_precision', dict(calculation=name, interpol=i)) for i in ('poly', 'lin')]
    for name in model.UV + ['all']: out += [('set_running_uvcutoff', dict(calculation=name, uvcutoff=float(rng.uniform(0.05, 2))))]
    out.append(('set_running_uvcutoff', dict(calculation='all')))
    # mu groups with n=..., min/max are ignored for them
    ok = []
    for op in out:
        d = op[1]
        if op[0] == 'set_precision' and 'n' not in d and 'interpol' not in d and any(x in model.MU for x in members(op)): continue  # would reset the mu settings of the group: tested apart
        if op[0] == 'set_precision' and set(d) <= {'calculation', 'n'} and any(x in model.MC for x in members(op)): d['interpol'] = 'poly'
        ok.append(op)
    return [ok[i] for i in rng.permutation(len(ok))]


def resets(k, pk, seed, prelude, name, kind):
    """Job: one setting (or group) brought back to its default by giving no value (or clear()), everything else in its current state; against the model."""
    rep = Report()
    rng = np.random.default_rng(seed)
    spec, cfg = model.Spec(k, pk), model.Cfg()
    o = jobs.new('PyRegPT')
    for op in prelude:
        getattr(o, op[0])(**op[1])
        history.apply_cfg(cfg, op)
    if kind == 'clear': op = ('clear', {})
    else: op = ('set_precision', dict(calculation=name, **({} if rng.random() < 0.5 else dict(n=0, min=1., max=-1., interpol='test'))))
    getattr(o, op[0])(**op[1])
    history.apply_cfg(cfg, op)
    o.set_verbosity('quiet')
    names = MODELED if kind == 'clear' else sorted(set(str(c) for m in members(op) for c in AFFECTS[m]))
    cheap = [n for n in names if n not in history.HEAVY] + [n for n in names if n in history.HEAVY][:1]
    if kind == 'clear': cheap = ['Spectrum1Loop', 'Bias1Loop', 'A1Loop', 'B1Loop']
    for cls in cheap: evaluate(rep, spec, cfg, k, pk, cls, np.array([0.11]) if cls in history.HEAVY else np.array([0.04, 0.3]), terms.fields(rng) if cls.startswith('Spectrum') else {}, 'after reset of {}'.format(name or 'all'))
    rep.sig = [('reset', kind, name, c) for c in cheap]
    rep.count('resets')
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    sp = [gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(30, 120))))[:2] for i in range(8)]
    todo = []
    for r in range(ctx.n(4, 20)): todo += every(rng, sp[0][0])
    nj = ctx.n(80, 600)
    chunk = int(np.ceil(len(todo) / nj)) + 1
    for i in range(nj):
        k, pk = sp[i % len(sp)]
        names, todo = todo[:chunk], todo[chunk:]
        cases.append(dict(k=k, pk=pk, settings=settings(rng, k, chunk + 3, list(names)), calcs=None))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = []
    names = model.Q + model.MC + model.MU + [g for g in model.GROUPS if g not in ('all_pklin', 'all', 'all_q')]
    for rep_ in range(ctx.n(1, 6)):
        for name in names:
            k, pk = sp[int(rng.integers(len(sp)))]
            cases.append(dict(k=k, pk=pk, seed=int(rng.integers(1 << 30)), prelude=history.small_ops(rng, k, 6) + [('set_precision', dict(calculation='all_pklin', interpol='lin')), ('set_running_uvcutoff', dict(calculation='all', uvcutoff=0.3))], name=name, kind='one'))
    for i in range(ctx.n(2, 8)):
        k, pk = sp[int(rng.integers(len(sp)))]
        cases.append(dict(k=k, pk=pk, seed=int(rng.integers(1 << 30)), prelude=history.small_ops(rng, k, 6) + [('set_precision', dict(calculation='all_pklin', interpol='lin')), ('set_running_uvcutoff', dict(calculation='all', uvcutoff=0.3))], name=None, kind='clear'))
    collect(ctx, ctx.run('plain', 'resets', cases), cases, 'resets')
    ctx.rule = ('every name and group of set_precision and set_running_uvcutoff with each kind of argument, in random order, through different instances, with calculations of other spectra in between; after each, the terms it acts on and others are compared with '
                'the reference model run with the modelled settings; resets of each name and clear() likewise; the settings of the Monte Carlo parts through the values of their integrands; one distinct case = one call')
    ctx.assumptions = ['reference model rv/model.py', 'the defaults are those documented in README/tests and hard-wired in the library at the pinned commit']
