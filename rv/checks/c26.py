"""Native one-call entry points against the classes."""
import numpy as np
from .. import gen, jobs, model, nat, oracle
from ..oracle import Report, collect
from . import terms

CLS = {'spectrum_1loop': 'Spectrum1Loop', 'spectrum_2loop': 'Spectrum2Loop', 'bias_1loop': 'Bias1Loop', 'A_1loop': 'A1Loop', 'A_2loop': 'A2Loop', 'B': 'B1Loop'}
ORDER = {'spectrum_1loop': ['pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree'],
         'spectrum_2loop': ['pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree'],
         'A_1loop': ['pk_lin', 'sigmad2', 'pk'], 'A_2loop': ['pk_lin', 'sigmad2', 'pk'], 'B': ['pk_lin', 'sigmad2', 'pk'],
         'bias_1loop': ['pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']}


def python(cls, k, pk, kout, args, spectra=None):
    o = jobs.new(cls)
    o.set_pk_lin(k, pk)
    o.set_terms(np.array(kout))
    o.run_terms(nthreads=2, **args)
    return o


def scale(cls, c):
    """Sum of the magnitudes of the pieces of pk, the scale of its rounding errors."""
    with np.errstate(all='ignore'):
        f = 0.5 * c['k']**2 * c['sigmad2']
        e = np.exp(-f) * (1. + f)
        if cls == 'Spectrum1Loop':
            return e**2 * ((1 + np.abs(c['gamma1a_1loop'])) * (1 + np.abs(c['gamma1b_1loop'])) * np.abs(c['pk_lin']) + np.abs(c['pk_gamma2_tree_tree']))
        g = [1 + f + np.abs(c['gamma1%s_1loop' % x]) + np.abs(c['gamma1%s_2loop' % x]) for x in 'ab']
        return e**2 * (g[0] * g[1] * np.abs(c['pk_lin']) + (1 + f)**2 * sum(np.abs(c[x]) for x in ORDER['spectrum_2loop'][6:]))


def near(rep, label, got, want, tol, key, kk):
    got, want, tol = [np.asarray(x, dtype='f8') for x in (got, want, np.broadcast_to(tol, np.shape(want)))]
    if got.shape != want.shape: return rep.fail(key, '{}: shape {} instead of {}'.format(label, got.shape, want.shape))
    same = (got == want) | (np.isnan(got) & np.isnan(want))
    rep.count('identical_bits', same.sum())
    rep.close('{}, k={}'.format(label, np.asarray(kk)[:8]), np.where(same, 0., got), np.where(same, 0., want), np.where(np.isfinite(tol), tol, 0.), key)


def b_reference(k, pk, kout, dt, tt):
    """B terms with given input spectra, through B1Loop's own machinery."""
    n = nat.Native()
    n.spectrum(k, pk)
    n.b_spectra(dt, tt)
    n.terms('B', kout)
    n.run('B', 2)
    out = [np.array(c) for c in n.keep['B'][1]]
    n.b_spectra()
    return out


def job(specs, ops, calls, points, rtol=1e-10):
    """Job: sequence of native calls; each result against the class, computed in between by other means."""
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    n = nat.Native(o.regpt)
    n.b_spectra()
    cache = {}

    def ref(cls, s, kout, args):
        key = (cls, s, kout.tobytes(), repr(args))
        if key not in cache:
            x = python(cls, specs[s][0], specs[s][1], kout, args)
            cache[key] = (np.array(x.pk()) if hasattr(x, 'pk') and cls.startswith('Spectrum') else None, jobs.columns(x))
        return cache[key]

    # the native calls first, in one go, then the classes: a call of a class in between would set again what a native call lost
    todo = []
    s = 0
    n.spectrum(*specs[0])
    last = {}
    for what, kw in calls:
        k, pk = specs[s]
        if what == 'spec':
            s = kw['s']
            n.spectrum(*specs[s], again=kw['again'])
        elif what == 'one':
            todo.append(('one', CLS['spectrum_1loop'], s, kw['k'], dict(a=kw['a'], b=kw['b']), np.array(n.one_call(kw['k'], kw['a'], kw['b'], kw['nthreads'], kw['again']))))
        elif what == 'rerun' and 'one' in n.keep:
            todo.append(('one', CLS['spectrum_1loop'], s, np.array(n.keep['one'][0]), dict(a=kw['a'], b=kw['b']), np.array(n.rerun(kw['a'], kw['b'], kw['nthreads']))))
        elif what == 'terms':
            n.terms(kw['name'], kw['k'], again=kw['again'])
            last.pop(kw['name'], None)
            n.run(kw['name'], kw['nthreads'], kw['a'], kw['b'])
            args = dict(a=kw['a'], b=kw['b']) if kw['name'].startswith('spectrum') else {}
            last[kw['name']] = (s, kw['k'], args)
            if kw['name'] != 'B': todo.append(('terms', CLS[kw['name']], s, kw['k'], args, [np.array(c) for c in n.keep[kw['name']][1]]))
            else: todo.append(('B', 'B', s, kw['k'], None, [np.array(c) for c in n.keep['B'][1]]))
        elif what == 'assemble' and kw['name'] in last:
            s0, kk, args = last[kw['name']]
            todo.append(('assemble', CLS[kw['name']], s0, kk, args, n.assembled(kw['name'])))
        bad = n.beyond()
        rep.true('beyond', not bad, 'after {} {}: written beyond the points asked for: {}'.format(what, kw, bad))
    for i, (what, cls, s, kk, args, got) in enumerate(todo):
        rep.count('calls_' + what + '_' + cls)
        rep.sig.append((what, cls, s, kk.tobytes(), repr(args), repr(ops)))
        if what in ('one', 'assemble'):
            r, c = ref(cls, s, kk, args)
            near(rep, 'native spectrum ({}), result {} of the sequence, {} {}'.format(what, i, cls, args), got, r, rtol * scale(cls, c), what + '_' + cls, kk)
        elif what == 'terms':
            r = ref(cls, s, kk, args)[1]
            name = [x for x in CLS if CLS[x] == cls][0]
            for c, col in zip(ORDER[name], got): near(rep, 'terms {} of {} run natively'.format(c, cls), col, r[c], rtol * np.abs(r[c]), 'terms_' + cls, kk)
        else:
            k = np.array(specs[s][0])
            dt, tt = ref('Spectrum1Loop', s, k, dict(a='delta', b='theta'))[0], ref('Spectrum1Loop', s, k, dict(a='theta', b='theta'))[0]
            r = b_reference(k, specs[s][1], kk, (k, dt), (k, tt))
            for c, col, rr in zip(ORDER['B'], got, r): near(rep, 'B terms run natively without input spectra, column {}'.format(c), col, rr, rtol * (np.abs(rr) + np.max(np.abs(rr), axis=-1, initial=0., keepdims=rr.ndim > 1)), 'B', kk)
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(500, 6000)):
        specs = [gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(3, 50))))[:2] for j in range(int(rng.integers(1, 4)))]
        ops = [('set_precision', d) for d in gen.small_precision(rng, model.Q + model.MC + model.MU, 10, specs[0][0])]
        for u in model.UV: ops.append(('set_running_uvcutoff', dict(calculation=u, uvcutoff=float(rng.uniform(0.1, 1.5)))))
        for u in model.PKLIN: ops.append(('set_precision', dict(calculation=u, interpol=str(rng.choice(['poly', 'lin'])))))
        calls = []
        for j in range(int(rng.integers(4, 14))):
            c = rng.random()
            d = dict(k=gen.wavenumbers(rng, specs[0][0], int(rng.choice([0, 1, 2, 3, 7])), 'hostile' if rng.random() < 0.5 else 'in'), a=str(rng.choice(['delta', 'theta'])), b=str(rng.choice(['delta', 'theta'])), nthreads=int(rng.integers(1, 5)), again=bool(rng.random() < 0.5))
            if c < 0.15: calls.append(('spec', dict(s=int(rng.integers(len(specs))), again=d['again'])))
            elif c < 0.33: calls.append(('one', d))
            elif c < 0.4: calls.append(('rerun', d))
            elif c < 0.6: calls.append(('assemble', dict(name=str(rng.choice(['spectrum_1loop', 'spectrum_1loop', 'spectrum_2loop'])))))
            else: calls.append(('terms', dict(d, name=str(rng.choice(['B', 'B', 'spectrum_1loop', 'spectrum_1loop', 'spectrum_2loop', 'A_1loop', 'bias_1loop', 'A_2loop'])))))
        cases.append(dict(specs=specs, ops=ops, calls=calls, points=40))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    ctx.rule = ('random sequences of native calls (run_spectrum_1loop, spectrum_1loop, spectrum_2loop, run_terms_*, B without input spectra, changes of the linear spectrum) on arrays filled with NaN, against pk() and the terms of the classes computed afterwards with the same settings; '
                'one distinct case = one native result')
    ctx.assumptions = ['native spectra of the A, B and bias terms have no native assembly to compare']
