"""Containers of terms against a model (dictionary of arrays)."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms
from .c16 import random_terms

POWERS = {  # number of linear spectra in each column
    'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'gamma1a_1loop': 1, 'gamma1b_1loop': 1, 'gamma1a_2loop': 2, 'gamma1b_2loop': 2, 'pk_gamma2_tree_tree': 2, 'pk_gamma2_tree_1loop': 3, 'pk_gamma2_1loop_1loop': 4,
    'pk_gamma3_tree': 3, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
FIELDS = {'SpectrumLin': ['k', 'pk'], 'SpectrumNoWiggle': ['k', 'pk'],
          'Spectrum1Loop': ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree'],
          'Spectrum2Loop': ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree'],
          'Bias1Loop': ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq'],
          'A1Loop': ['k', 'pk_lin', 'sigmad2', 'pk'], 'A2Loop': ['k', 'pk_lin', 'sigmad2', 'pk'], 'B1Loop': ['k', 'pk_lin', 'sigmad2', 'pk'], 'B2Loop': ['k', 'pk_lin', 'sigmad2', 'pk']}


def power(cls, name):
    if name == 'pk': return 1 if cls.startswith('Spectrum') else 2
    return POWERS[name]


def same(rep, label, o, m, key=None):
    rep.true(label + ': columns', set(o.fields) == set(m), '{} instead of {}'.format(sorted(o.fields), sorted(m)), key=key)
    for n in m:
        ok = n in o and np.shape(o[n]) == m[n].shape and np.array_equal(o[n], m[n], equal_nan=True)
        rep.true('{}: column {}'.format(label, n), ok, '{} instead of {}'.format(o[n] if n in o else None, m[n]), key=key or label)


def index(rng, n):
    c = rng.integers(0, 5)
    if c == 0: return slice(*[None if rng.random() < 0.3 else int(v) for v in np.sort(rng.integers(-n, n + 1, 2))])
    if c == 1: return slice(None, None, int(rng.choice([-2, -1, 1, 2, 3])))
    if c == 2: return rng.integers(-n, n, int(rng.integers(0, 6)))
    if c == 3: return rng.random(n) < 0.5
    return [int(v) for v in rng.integers(0, n, 3)]


def build(rng, cls, n):
    import pyregpt
    if not cls.startswith('SpectrumLin') and cls != 'SpectrumNoWiggle': return random_terms(rng, cls, n)
    kw = dict(k=np.sort(10**rng.uniform(-4, 1, n)), pk=rng.normal(0, 1e3, n))
    o = getattr(pyregpt, cls)(**kw)
    return o


def history(seed, n, length):
    """Job: random histories of container operations."""
    rep = Report()
    rng = np.random.default_rng(seed)
    for i in range(n):
        cls = str(rng.choice(sorted(FIELDS)))
        nk = int(rng.integers(1, 9))
        o = build(rng, cls, nk)
        m = {x: np.array(o[x]) for x in o.fields}
        rep.true('iteration', list(o) == [f for f in FIELDS[cls] if f in m], '{}: {}'.format(cls, list(o)))
        trace = [cls]
        for j in range(length):
            n_ = len(m['k'])
            op = str(rng.choice(['select', 'assign', 'setcol', 'copy', 'deepcopy', 'pad', 'nan', 'rescale', 'unrescale', 'dict', 'list', 'pop', 'sizes', 'missing', 'str']))
            trace.append(op)
            label = '{} {}'.format(cls, op)
            if n_ == 0: break
            if op == 'select':
                s = index(rng, n_)
                new = o[s]
                mm = {x: m[x][s] for x in m}
                rep.true(label, type(new) is type(o), 'gives a {}'.format(type(new)))
                same(rep, label, new, mm)
                same(rep, label + ' origin', o, m)
                if len(mm['k']) and rng.random() < 0.5: o, m = new, {x: np.array(v) for x, v in mm.items()}
            elif op == 'assign':
                o = o.deepcopy()
                s = index(rng, n_)
                v = float(rng.normal())
                if all(m[x].ndim == 1 for x in m) and rng.random() < 0.4: v = rng.normal(0, 1, np.shape(m['k'][s]))  # one value per row
                o[s] = v
                for x in m: m[x] = np.array(m[x]); m[x][s] = v
                same(rep, label, o, m)
                m['k'] = np.sort(10**rng.uniform(-4, 1, n_))
                o['k'] = m['k'].copy()
                if all(m[x].ndim == 1 for x in m) and rng.random() < 0.5:
                    # as many values as there are not rows
                    s = slice(0, int(rng.integers(1, n_ + 1)))
                    try: o[s] = rng.normal(0, 1, s.stop + 1)
                    except ValueError: pass
                    else: rep.true(label + ': wrong length', False, 'assigning {} values to {} rows does not raise'.format(s.stop + 1, s.stop))
                    same(rep, label + ': wrong length', o, m)
            elif op == 'setcol':
                x = str(rng.choice(list(m)))
                if x != 'k':
                    v = rng.normal(0, 1, m[x].shape)
                    o = o.deepcopy()
                    o[x] = v.copy()
                    m[x] = v
                    same(rep, label, o, m)
            elif op == 'copy':
                o.tag_rv = tag = object()
                new = o.copy()
                rep.true(label, type(new) is type(o), 'gives a {}'.format(type(new)))
                rep.true(label + ': attributes', getattr(new, 'tag_rv', None) is tag, 'an attribute is lost')
                same(rep, label, new, m)
                o = new
            elif op == 'deepcopy':
                new = o.deepcopy()
                rep.true(label, type(new) is type(o), 'gives a {}'.format(type(new)))
                same(rep, label, new, m)
                for x in m: rep.true(label + ': shares memory', not np.shares_memory(new[x], o[x]), 'column {} is shared'.format(x))
                new.rescale(1.7)
                for x in m: new[x][...] = 1.
                same(rep, label + ' origin', o, m)
                o = o.deepcopy()
            elif op == 'pad' and set(m) == set(FIELDS[cls]) and n_ > 0 and n_ < 200 and np.all(np.diff(m['k']) > 0) and m['k'][0] > 0:
                a, b = int(rng.integers(0, 4)), int(rng.integers(0, 4))
                mid = m['k'] if rng.random() < 0.5 else np.sort(rng.uniform(m['k'][0], m['k'][-1], int(rng.integers(0, 4))))
                kn = np.concatenate([m['k'][0] * np.sort(rng.uniform(0.1, 0.9, a)), mid, m['k'][-1] * np.sort(rng.uniform(1.1, 3, b))])
                mode = str(rng.choice(['constant', 'edge']))
                fill = float(rng.choice([0., rng.normal()]))
                o = o.deepcopy()
                lin = cls in ('SpectrumLin', 'SpectrumNoWiggle')
                kw = dict(mode=mode, constant_values=fill) if rng.random() < 0.8 else {}
                if not kw: mode, fill = 'constant', 0.
                if lin:
                    pkn = rng.normal(0, 1, len(kn))
                    given = rng.random() < 0.5
                    o.pad_k(kn, **dict(kw, **({'pk': pkn} if given else {})))
                else:
                    # linear spectrum and dispersion come from the library
                    sk, sp, kind = gen.spectrum(rng, k=gen.table(rng, n=30))
                    o.set_pk_lin(sk, sp)
                    interpol, uv = str(rng.choice(['poly', 'lin'])), float(rng.choice([0.5, rng.uniform(0.05, 2.)]))
                    if interpol == 'lin' or rng.random() < 0.5: kw['interpol'] = interpol
                    if uv != 0.5: kw['uvcutoff'] = uv
                    o.pad_k(kn, **kw)
                new = {}
                for x in m:
                    top = np.full((a,) + m[x].shape[1:], fill) if mode == 'constant' else np.repeat(m[x][:1], a, axis=0)
                    bot = np.full((b,) + m[x].shape[1:], fill) if mode == 'constant' else np.repeat(m[x][-1:], b, axis=0)
                    new[x] = np.concatenate([top, m[x], bot])
                new['k'] = np.concatenate([kn[:a], m['k'], kn[len(kn) - b:]])
                if lin and given: new['pk'][:a], new['pk'][len(new['pk']) - b:] = pkn[:a], pkn[len(kn) - b:]
                if not lin:
                    s = model.Spec(sk, sp)
                    add = np.concatenate([np.arange(a), np.arange(len(new['k']) - b, len(new['k']))]).astype(int)  # rows added
                    ka = new['k'][add]
                    ref = s.find(ka, interpol).astype('f8')
                    rep.close(label + ': pk_lin', o['pk_lin'][add], ref, 1e-7 * np.abs(ref))
                    ref2 = s.sigmad2(ka, uv).astype('f8')
                    rep.close(label + ': sigmad2', o['sigmad2'][add], ref2, 1e-8 * ref2 + 1e-8 * ref2.max(initial=0.) * (np.abs(ka * uv / sk[0] - 1) < 1e-3) + 1e-13 * s.pk.max() * ka)
                    for x in ('pk_lin', 'sigmad2'): new[x][add] = o[x][add]
                m = new
                same(rep, label, o, m)
                rep.count('padded_' + cls)
            elif op == 'nan' and set(m) == set(FIELDS[cls]):
                o = o.deepcopy()
                x = str(rng.choice([x for x in m if x != 'k']))
                v = np.array(m[x])
                v[rng.random(v.shape) < 0.4] = np.nan
                if v.size: v.flat[0] = np.inf
                o[x] = v.copy()
                o.nan_to_zero()
                m[x] = np.where(np.isnan(v), 0., v)
                same(rep, label, o, m)
                m[x] = np.where(np.isfinite(m[x]), m[x], 1.)
                o[x] = m[x].copy()
            elif op in ('rescale', 'unrescale'):
                s = float(rng.uniform(0.2, 3))
                o = o.deepcopy()
                old = {x: np.array(v) for x, v in m.items()}
                o.rescale(s)
                for x in m: rep.close('{} by {}: {}'.format(label, s, x), o[x], old[x] * s**(2 * power(cls, x)), 1e-12 * np.abs(old[x]) * s**(2 * power(cls, x)), key=label)
                if op == 'unrescale':
                    o.rescale(1. / s)
                    for x in m: rep.close('{} back: {}'.format(label, x), o[x], old[x], 1e-12 * np.abs(old[x]), key=label)
                m = {x: np.array(o[x]) for x in m}
            elif op == 'dict':
                d = o.as_dict()
                rep.true(label, set(d) == set(m) and all(np.array_equal(d[x], m[x], equal_nan=True) for x in m), 'as_dict gives {}'.format(sorted(d)))
                f = [str(x) for x in rng.permutation(list(m))[:2]]
                d = o.as_dict(fields=f)
                rep.true(label + ' of fields', list(d) == f and all(np.array_equal(d[x], m[x], equal_nan=True) for x in f), 'as_dict({}) gives {}'.format(f, sorted(d)), key=label)
            elif op == 'list':
                l = o.tolist()
                rep.true(label, len(l) == len(m) and all(np.array_equal(a, m[x], equal_nan=True) for a, x in zip(l, [f for f in FIELDS[cls] if f in m])), 'tolist differs')
            elif op == 'pop' and len(m) > 2 and rng.random() < 0.3:
                x = str(rng.choice([x for x in m if x != 'k']))
                o = o.deepcopy()
                v = o.pop(x)
                rep.true(label, np.array_equal(v, m[x], equal_nan=True), 'pop({}) gives {}'.format(x, v))
                del m[x]
                same(rep, label, o, m)
            elif op == 'sizes':
                rep.true(label, len(o) == n_ and o.size == n_ and np.array_equal(o.k, m['k']), 'len {} size {} for {} wavenumbers'.format(len(o), o.size, n_))
            elif op == 'missing':
                rep.true(label, 'rv_none' not in o and all(x in o for x in m), '"in" is wrong')
                try:
                    o['rv_none']
                    rep.fail(label, 'a missing column is given')
                except KeyError: pass
            elif op == 'str': rep.true(label, isinstance(str(o), str) and len(str(o)) > 0, 'no text')
            rep.count('operations')
        rep.sig.append(tuple(trace))
    return rep


def calculated(cls, seed):
    """Job: copies of calculated terms, and the same calculation on the copy."""
    rep = Report()
    rng = np.random.default_rng(seed)
    k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=40))
    o = jobs.new(cls)
    for p in gen.small_precision(rng, gen.NEEDS[cls], 4, k): o.set_precision(**p)
    interpol, uv = str(rng.choice(['poly', 'lin'])), float(rng.uniform(0.1, 1.))
    o.set_precision('all_pklin', interpol=interpol)
    o.set_running_uvcutoff(uvcutoff=uv)
    o.set_pk_lin(k, pk)
    kout = np.sort(gen.wavenumbers(rng, k, 5))
    o.set_terms(kout)
    o.run_terms(nthreads=2)
    m = {x: np.array(o[x]) for x in o}
    rep.true('set_terms', list(o) == FIELDS[cls], '{}: columns {}'.format(cls, list(o)))
    for how in ('copy', 'deepcopy'):
        new = getattr(o, how)()
        same(rep, '{} {} of calculated terms'.format(cls, how), new, m)
        rep.true(how + ': linear spectrum', np.array_equal(new.spectrum_lin['pk'], pk) and np.array_equal(new.spectrum_lin['k'], k), 'the linear spectrum differs')
        if how == 'deepcopy':
            rep.true('deepcopy: linear spectrum', not np.shares_memory(new.spectrum_lin['pk'], o.spectrum_lin['pk']), 'shared')
            new.spectrum_lin['pk'][:] = 1.
            for x in new: new[x][...] = -1.
            rep.true('deepcopy: origin', np.array_equal(o.spectrum_lin['pk'], pk), 'the linear spectrum of the origin is modified')
            same(rep, 'deepcopy: origin', o, m)
    new = o.deepcopy()
    new.run_terms(nthreads=1)
    same(rep, '{} run on a deepcopy'.format(cls), new, m)
    same(rep, '{} origin of the deepcopy run'.format(cls), o, m)
    # a selection is a set of terms as any other
    sel = o[1:4]
    same(rep, '{} selection'.format(cls), sel, {x: m[x][1:4] for x in m})
    # padding
    kn = np.concatenate([[kout[0] / 2], kout, [kout[-1] * 1.5, kout[-1] * 2]])
    pad = o.deepcopy()
    kw = dict(interpol=interpol, uvcutoff=uv) if seed % 3 else {}
    pad.pad_k(kn, **kw)
    s = model.Spec(k, pk)
    rep.true('pad_k: k', np.array_equal(pad['k'], kn), 'k {}'.format(pad['k']))
    add = [0, -2, -1]
    ref = s.find(kn, kw.get('interpol', 'poly')).astype('f8')[add]
    rep.close('pad_k: pk_lin', pad['pk_lin'][add], ref, 1e-7 * np.abs(ref))
    ref = s.sigmad2(kn, kw.get('uvcutoff', 0.5)).astype('f8')[add]
    rep.close('pad_k: sigmad2', pad['sigmad2'][add], ref, 1e-8 * ref + 1e-13 * pk.max() * kn[add])
    for x in m:
        if x in ('pk_lin', 'sigmad2'): rep.true('pad_k: ' + x, np.array_equal(pad[x][1:-2], m[x]), 'rows of {} that existed are changed'.format(x))
        if x in ('k', 'pk_lin', 'sigmad2'): continue
        rep.true('pad_k: ' + x, np.array_equal(pad[x][1:-2], m[x]) and np.all(pad[x][[0, -2, -1]] == 0), 'padded column {} differs'.format(x))
    # lengths before and after: the terms padded can be calculated again
    again = o.deepcopy()
    again.pad_k(kn)
    again.set_terms(again['k'])
    again.run_terms(nthreads=2)
    if cls != 'A2Loop' and cls != 'B2Loop' or True:
        for x in m:
            if x in ('k',): continue
            a, b = np.asarray(again[x])[1:-2], m[x]
            rep.close('calculated again on padded wavenumbers: ' + x, a, b, 1e-9 * np.abs(b))
    rep.sig = [(cls, seed)]
    return rep


def unrun(cls, seed):
    """Job: terms whose wavenumbers are set but that are not calculated yet are containers as any other, and can be calculated after they have been edited."""
    rep = Report()
    rng = np.random.default_rng(seed)
    k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=40))
    o = jobs.new(cls)
    for p in gen.small_precision(rng, gen.NEEDS[cls], 4, k): o.set_precision(**p)
    o.set_pk_lin(k, pk)
    n = int(rng.integers(1, 7))
    kout = np.sort(gen.wavenumbers(rng, k, n))
    o.set_terms(kout)
    shape = lambda x: {'A1Loop': (5,), 'A2Loop': (5,), 'B1Loop': (9,), 'B2Loop': (9,)}.get(cls, ()) if x == 'pk' else ()
    m = {x: kout if x == 'k' else np.zeros((n,) + shape(x)) for x in FIELDS[cls]}
    label = cls + ' not calculated'
    same(rep, label, o, m)
    for turn in range(4):
        s = index(rng, n)
        same(rep, label + ': selection', o[s], {x: m[x][s] for x in m})
    same(rep, label + ': deepcopy', o.deepcopy(), m)
    o.nan_to_zero()
    o.rescale(2.)
    same(rep, label + ': rescale', o, m)
    if len(kout) > 1:
        a, b = o.deepcopy(), o.deepcopy()
        keep = rng.random(n) < 0.6
        kn = np.concatenate([[kout[0] / 3.], kout, [kout[-1] * 1.2]])
        a.pad_k(kn)
        a.run_terms(nthreads=2)
        o.run_terms(nthreads=2)
        for x in m: rep.close(label + ': padded then calculated: ' + x, np.asarray(a[x])[1:-1], o[x], 1e-9 * np.abs(o[x]))
        if keep.any():
            sel = b[keep]
            sel.set_spectrum_lin(o.spectrum_lin)
            sel.run_terms(nthreads=2)
            for x in m: rep.close(label + ': selected then calculated: ' + x, sel[x], o[x][keep], 1e-9 * np.abs(o[x][keep]))
            rep.count('selections_calculated')
    rep.sig = [(cls, seed, 'unrun')]
    return rep


def run(ctx):
    rng = ctx.rng
    cases = [dict(seed=int(rng.integers(1 << 30)), n=ctx.n(150, 1500), length=14) for i in range(24)]
    collect(ctx, ctx.run('plain', 'history', cases), cases, 'history')
    cases = [dict(cls=c, seed=int(rng.integers(1 << 30))) for c in gen.CLASSES for i in range(ctx.n(12, 80))]
    collect(ctx, ctx.run('plain', 'calculated', cases), cases, 'calculated')
    cases = [dict(cls=c, seed=int(rng.integers(1 << 30))) for c in gen.CLASSES for i in range(ctx.n(12, 80))]
    collect(ctx, ctx.run('plain', 'unrun', cases), cases, 'unrun')
    ctx.rule = ('random histories of container operations (selection by slices, index arrays and masks, assignment, column replacement, copies, padding, removal of NaNs, rescaling, conversion) on random terms of all classes, run in parallel on a model (dictionary of arrays) '
                'and compared column by column after each operation; copies, padding and selection of calculated terms and of terms not calculated yet; one distinct case = one sequence of operations')
