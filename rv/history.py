"""Random histories of public calls: generation, execution on the real package, and the model of the state they leave."""
import gc
import numpy as np
from . import gen, model

SETTINGS = model.Q + model.MC + model.MU + model.PKLIN
GROUPS = list(model.GROUPS)
HEAVY = {'Spectrum2Loop': 1, 'A2Loop': 1}


def small_ops(rng, k=None, nmax=10):
    """Settings that make every calculation cheap."""
    return [('set_precision', d) for d in gen.small_precision(rng, model.Q + model.MC + model.MU, nmax, k)]


def dump(cfg):
    """Calls that bring a fresh process to the settings of cfg."""
    ops = []
    for name in model.Q + model.MC + model.MU + model.PKLIN:
        p = cfg[name]
        d = dict(calculation=name, interpol=p['interpol'])
        if name not in model.MC + model.PKLIN: d['n'] = p['n']
        if 'min' in p: d.update(min=p['min'], max=p['max'])
        ops.append(('set_precision', d))
    for name in model.UV: ops.append(('set_running_uvcutoff', dict(calculation=name, uvcutoff=cfg.uv[name])))
    return ops


def cutoff(rng):
    return float(rng.choice([rng.uniform(0.05, 2.)] * 6 + [0., 0., 1., 10**rng.uniform(-6, 3)]))


def random_setting(rng, k=None, nmax=10, resets=False, groups=True):
    """One call that changes settings; with resets=False the calculations stay cheap."""
    c = rng.random()
    if c < 0.2: return ('set_running_uvcutoff', dict(calculation=str(rng.choice(model.UV + ['all'] if groups else model.UV)), uvcutoff=cutoff(rng)))
    if c < 0.35: return ('set_precision', dict(calculation=str(rng.choice(model.PKLIN + ['all_pklin'] if groups else model.PKLIN)), interpol=str(rng.choice(['poly', 'lin', 'test']))))
    name = str(rng.choice(GROUPS if groups and rng.random() < 0.4 else SETTINGS[:len(model.Q + model.MC + model.MU)]))
    if name == 'all_pklin': return ('set_precision', dict(calculation=name, interpol=str(rng.choice(['poly', 'lin']))))
    d = dict(calculation=name)
    mu = name in model.MU or name == 'all_mu'
    what = rng.random(3) < 0.6
    if resets and rng.random() < 0.15: return ('set_precision', d)
    if not what.any() and not resets: what[2] = True
    if (mu or name in model.MC) and not resets and not what[2]: what[2] = True  # another argument would be ignored and the call would be a reset
    if what[0]: d['n'] = int(rng.integers(2, nmax + 1))
    if what[1]: d['min'], d['max'] = gen.qrange(rng, k) if k is not None else (1e-3, 5.)
    if what[2]: d['interpol'] = str(rng.choice(['poly', 'lin']))
    return ('set_precision', d)


def apply_cfg(cfg, op):
    name, kw = op
    if name in ('set_precision', 'set_running_uvcutoff', 'clear'): getattr(cfg, name)(**kw)


# ------------------------------------------------------------------ forms of input arrays
FORMS = ['plain', 'f4', 'strided', 'reversed_view', 'readonly', 'list', 'bigendian', 'fortran2d', 'longdouble', 'tuple', 'column', 'offset']


def form(x, kind):
    """The same values, as another type of array. (f4 is only used for values representable as such.)"""
    x = np.array(x, dtype='f8')
    if kind == 'f4': return x.astype('f4')
    if kind == 'strided':
        b = np.full(3 * len(x), -7.)
        b[1::3] = x
        return b[1::3]
    if kind == 'reversed_view': return x[::-1].copy()[::-1]
    if kind == 'readonly':
        x.flags.writeable = False
        return x
    if kind == 'list': return x.tolist()
    if kind == 'tuple': return tuple(x.tolist())
    if kind == 'bigendian': return x.astype('>f8')
    if kind == 'longdouble': return x.astype(np.longdouble)
    if kind == 'fortran2d' and len(x) % 2 == 0 and len(x): return np.asfortranarray(x.reshape(2, -1))
    if kind == 'column':
        b = np.full((len(x), 3), -7.)
        b[:, 1] = x
        return b[:, 1]
    if kind == 'offset':
        raw = np.zeros(8 * len(x) + 4, dtype='u1')
        v = raw[4:].view('f8') if len(x) else np.zeros(0)
        v[:] = x
        return v
    return x


BAD = ['setting_name', 'setting_n', 'setting_min', 'setting_max', 'setting_mode', 'cutoff_name', 'cutoff_value', 'fields', 'threads', 'find', 'sigmad2', 'lengths', 'table', 'terms', 'nodes', 'verbosity', 'column', 'poly', 'table_empty', 'table_point', 'table_column', 'terms_missing', 'terms_long', 'terms_text', 'class', 'pad']


def bad_calls(o, how, name):
    """The call(s) with arguments that cannot be served, and what the user does next to go on."""
    calc = name if 'pk_lin' not in name and name != 'all_pklin' else 'gamma1_1loop_q'
    if how == 'setting_name': return lambda: o.set_precision('no_such_calculation_q', n=5), None
    if how == 'setting_n': return lambda: o.set_precision(calc, n='many', min=0.1, max='x', interpol='lin'), None
    if how in ('setting_min', 'setting_max'):
        q = name if 'mu' not in name and 'pk' not in name else 'all'
        d = dict(min='x', max=1.) if how == 'setting_min' else dict(min=0.1, max='x')
        return lambda: o.set_precision(q, n=5, interpol='lin' if len(name) % 2 else 'poly', **d), None
    if how == 'setting_mode': return lambda: o.set_precision(name, n=5, interpol=3), None
    if how == 'cutoff_name': return lambda: o.set_running_uvcutoff('no_such_calculation', uvcutoff=0.1), None
    if how == 'cutoff_value': return lambda: o.set_running_uvcutoff('all', uvcutoff='x'), None
    if how == 'fields': return lambda: o.run_terms(a=3, b='delta'), None
    if how == 'threads': return lambda: o.run_terms(nthreads='all'), None
    if how == 'find': return lambda: o.find_pk_lin('k'), None
    if how == 'sigmad2': return lambda: o.calc_running_sigmad2([0.1], uvcutoff='x'), None
    if how == 'terms': return lambda: o.set_terms('abc'), None
    if how == 'nodes': return lambda: o.nodes_weights_gauss_legendre('x', 1., 5), None
    if how == 'verbosity': return lambda: o.set_verbosity(3), None
    if how == 'column': return lambda: o['no_such_column'], None
    if how == 'poly': return lambda: o.interpol_poly(0.5, [0., 1.], [0.]), None
    if how == 'pad': return lambda: o.pad_k('abc'), None
    if how == 'class': return lambda: o.run_terms(spectrum=None, sigma=1.), None
    if how.startswith('terms_'):
        column = o.FIELDS[sum(map(ord, name)) % len(o.FIELDS)]
        if column not in o: return o.run_terms, None  # no terms yet
        keep = o[column]

        def call():
            if how == 'terms_missing': o.pop(column)
            elif how == 'terms_long': o[column] = np.append(keep, 0.)
            else: o[column] = ['a'] * max(len(keep), 1)
            o.run_terms()

        return call, lambda: o.__setitem__(column, keep)
    lin = o.spectrum_lin
    if how == 'table': return lambda: o.set_pk_lin(['a', 'b'], [1., 2.]), None
    empty = type(lin)(k=lin['k'])
    ask = {'lengths': lambda: o.set_pk_lin([0.1, 0.2, 0.3], [1., 2.]), 'table_empty': lambda: o.set_pk_lin([], []), 'table_point': lambda: o.set_pk_lin(0.1, 2.), 'table_column': lambda: o.set_spectrum_lin(empty)}[how]

    def call():
        # the spectrum stays until another is given: everything that needs it raises as well
        later = [ask, lambda: o.run_terms(nthreads=2), lambda: o.find_pk_lin([0.1]), lambda: o.calc_running_sigmad2([0.1]), lambda: o.run_terms(nthreads=2), ask]
        for f in later:
            try: f()
            except Exception: continue
            return
        raise ValueError('all of them raise')

    return call, lambda: o.set_spectrum_lin(lin)


def round_f4(x):
    return np.asarray(x, dtype='f4').astype('f8')


# ------------------------------------------------------------------ generation
def generate(rng, nops, nspec=3, nobj=4, nmax=10, classes=gen.CLASSES, nk=6, spectra=None, verb=False, native=True, resets=False, forms=False, clear=False, where='hostile', threads=6, drop=True, edit=True, bad=True, near=0.4):
    """A list of operations on objects 0..nobj-1, each valid on the unchanged code."""
    if spectra is None:
        spectra = [gen.spectrum(rng)[:2] for i in range(nspec)]
        if rng.random() < near:
            # spectra that are hardly different
            k, pk = spectra[0]
            spectra.append((k, pk * (1 + 10**rng.uniform(-9, -3))))
            j = int(rng.integers(len(k)))
            spectra.append((k, np.where(np.arange(len(k)) == j, pk * (1 + 10**rng.uniform(-6, -1)), pk)))
            spectra.append((k * (1 + 10**rng.uniform(-9, -3)), pk))
    ops = [('make', dict(i=0, cls='PyRegPT', verbosity='quiet'))]
    ops += [('setting', dict(i=0, op=o)) for o in small_ops(rng, spectra[0][0], nmax)]
    objs = {0: dict(cls='PyRegPT', spec=None, st=None)}
    nxt = 1
    while len(ops) < nops:
        c = rng.random()
        live = [i for i in objs if objs[i]['cls'] != 'PyRegPT']
        if not live or (c < 0.12 and len(live) < nobj):
            cls = str(rng.choice(classes))
            if cls in HEAVY and rng.random() < 0.4: cls = str(rng.choice(classes))
            ops.append(('make', dict(i=nxt, cls=cls, verbosity=None)))
            objs[nxt] = dict(cls=cls, spec=None, st=dict(terms=False, ran=False))
            ops.append(('spec', dict(i=nxt, s=int(rng.integers(len(spectra))), kind=str(rng.choice(FORMS)) if forms else 'plain', how=str(rng.choice(['set_pk_lin', 'set_spectrum_lin'])))))
            objs[nxt]['spec'] = ops[-1][1]['s']
            nxt += 1
            continue
        i = int(rng.choice(live))
        o = objs[i]
        if c < 0.20:
            ops.append(('spec', dict(i=i, s=int(rng.integers(len(spectra))), kind=str(rng.choice(FORMS)) if forms else 'plain', how=str(rng.choice(['set_pk_lin', 'set_spectrum_lin'])))))
            o['spec'] = ops[-1][1]['s']
        elif c < 0.225 and edit: ops.append(('inplace', dict(i=i, x=float(rng.uniform(0.3, 3.)), y=float(rng.uniform(-0.5, 0.5)))))
        elif c < 0.35: ops.append(('setting', dict(i=int(rng.choice(list(objs))), op=random_setting(rng, spectra[0][0], nmax, resets))))
        elif c < 0.48 or not o['st']['terms']:
            n = int(rng.choice([0, 1, 2, 3, nk, nk + 3])) if rng.random() < 0.6 else int(rng.integers(1, nk + 1))
            k = gen.wavenumbers(rng, spectra[o['spec']][0], n, where)
            if n > 1 and rng.random() < 0.2: k[-1] = k[0]
            ops.append(('terms', dict(i=i, k=k, kind=str(rng.choice(FORMS)) if forms else 'plain')))
            o['st'].update(terms=True, ran=False)
        elif c < 0.78:
            ops.append(('run', dict(i=i, args=dict(a=str(rng.choice(['delta', 'theta'])), b=str(rng.choice(['delta', 'theta']))) if o['cls'].startswith('Spectrum') else {}, nthreads=int(rng.integers(1, threads + 1)))))
            o['st']['ran'] = True
        elif c < 0.82 and drop and len(live) > 1:
            ops.append(('drop', dict(i=i)))
            del objs[i]
        elif c < 0.85:
            ops.append(('dup', dict(i=i, j=nxt, how=str(rng.choice(['copy', 'deepcopy'])))))
            objs[nxt] = dict(o, st=o['st'] if ops[-1][1]['how'] == 'copy' else dict(o['st']))  # a copy shares its columns
            nxt += 1
        elif c < 0.91 and native:
            how = str(rng.choice(['find', 'sigmad2', 'nodes', 'poly', 'lin']))
            ops.append(('native', dict(i=i, how=how, k=gen.wavenumbers(rng, spectra[o['spec']][0], int(rng.integers(0, 20)), 'hostile'), n=int(rng.integers(1, 30)), interpol=str(rng.choice(['poly', 'lin'])), uv=float(rng.uniform(0.1, 2.)))))
        elif c < 0.94 and edit and o['st']['ran']: ops.append(('edit', dict(i=i, how=str(rng.choice(['pad', 'rescale', 'nan', 'select', 'pk'])), x=float(rng.uniform(0.5, 2.)))))
        elif c < 0.96 and verb: ops.append(('verbosity', dict(i=i, mode=str(rng.choice(['quiet', 'info', 'debug'])))))
        elif c < 0.97 and clear:
            ops.append(('clear', dict(i=i)))
            ops += [('setting', dict(i=i, op=x)) for x in small_ops(rng, spectra[0][0], nmax)]
        elif c < 0.985 and bad: ops.append(('bad', dict(i=i, how=str(rng.choice(BAD)), name=str(rng.choice(SETTINGS + GROUPS)))))
        elif edit and o['st']['terms']:
            ops.append(('setk', dict(i=i, how=str(rng.choice(['inplace', 'assign'])), k=gen.wavenumbers(rng, spectra[o['spec']][0], 40, where))))
    return dict(spectra=spectra, ops=ops)


# ------------------------------------------------------------------ execution
class Player(object):
    """Runs a history on the real package; calls on_run(player, i, object) after each calculation."""

    def __init__(self, spectra, on_run=None, on_op=None, scribble=False):
        import pyregpt
        self.pkg, self.spectra, self.on_run, self.on_op, self.scribble = pyregpt, spectra, on_run, on_op, scribble
        self.objs, self.spec, self.k, self.given, self.tables, self.cfg = {}, {}, {}, [], {}, model.Cfg()
        self.ncalc = self.nops = 0

    def give(self, x, kind):
        a = form(x, kind)
        if isinstance(a, np.ndarray):
            self.given.append((a, a.copy()))
            if len(self.given) > 60: del self.given[:20]
        return a

    def set_k(self, i, k):
        c = self.objs[i].columns  # shared by copies
        self.k[id(c)] = (c, k)

    def get_k(self, i):
        return self.k.get(id(self.objs[i].columns), (None, None))[1]

    def intact(self):
        return all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in self.given)

    def play(self, ops):
        for name, kw in ops:
            self.nops += 1
            getattr(self, 'op_' + name)(**kw)
            if self.on_op is not None: self.on_op(self, name, kw)

    def op_make(self, i, cls, verbosity):
        self.objs[i] = getattr(self.pkg, cls)()
        if verbosity: self.objs[i].set_verbosity(verbosity)

    def op_setting(self, i, op):
        getattr(self.objs[i], op[0])(**op[1])
        apply_cfg(self.cfg, op)

    def op_clear(self, i):
        self.objs[i].clear()
        self.cfg.clear()
        if self.quiet_after_clear: self.objs[i].set_verbosity('quiet')

    quiet_after_clear = True

    def op_spec(self, i, s, kind, how):
        k, pk = self.spectra[s]
        if kind == 'f4': kind = 'plain'
        if how == 'set_pk_lin': self.objs[i].set_pk_lin(self.give(k, kind), self.give(pk, kind))
        else:
            lin = self.pkg.SpectrumLin()
            one = kind if kind in ('plain', 'strided', 'reversed_view', 'readonly', 'column', 'bigendian', 'longdouble', 'offset') else 'plain'
            lin['k'], lin['pk'] = self.give(k, one), self.give(pk, one)
            self.objs[i].set_spectrum_lin(lin)
        self.spec[i] = (s, how)
        lin = self.objs[i].spectrum_lin
        self.tables[id(lin)] = (lin, np.array(k, dtype='f8'), np.array(pk, dtype='f8'))

    def table(self, i):
        return self.tables[id(self.objs[i].spectrum_lin)][1:]

    def op_inplace(self, i, x, y):
        # the user changes the spectrum of this instance in place (shared with its shallow copies)
        lin = self.objs[i].spectrum_lin
        a = lin['pk']
        if not a.flags.writeable: return
        _, k, pk = self.tables[id(lin)]
        new = pk * x * (k / k[0])**y
        self.given = [g for g in self.given if not np.shares_memory(g[0], a)]
        a[...] = new
        self.tables[id(lin)] = (lin, k, np.array(a, dtype='f8'))

    def op_terms(self, i, k, kind):
        if kind == 'f4': k = round_f4(k)
        self.objs[i].set_terms(self.give(k, kind))
        self.set_k(i, np.array(k, dtype='f8'))

    def op_run(self, i, args, nthreads):
        self.objs[i].run_terms(nthreads=nthreads, **args)
        self.ncalc += 1
        if self.on_run is not None: self.on_run(self, i, args, nthreads)

    def op_drop(self, i):
        del self.objs[i]
        gc.collect()
        if self.scribble: self.junk = [np.full(n, np.nan) for n in (1, 2, 3, 5, 10, 30, 90, 200, 400)]

    def op_dup(self, i, j, how):
        self.objs[j] = getattr(self.objs[i], how)()
        if i not in self.spec: return
        self.spec[j] = self.spec[i]
        self.tables[id(self.objs[j].spectrum_lin)] = (self.objs[j].spectrum_lin,) + tuple(self.table(i))
        if how == 'deepcopy' and self.get_k(i) is not None: self.set_k(j, self.get_k(i))

    def op_native(self, i, how, k, n, interpol, uv):
        o = self.objs[i]
        if how == 'find': out = o.find_pk_lin(k, interpol=interpol)
        elif how == 'sigmad2': out = o.calc_running_sigmad2(k, uvcutoff=uv)
        elif how == 'nodes': out = o.nodes_weights_gauss_legendre(-1., uv, n)
        else:
            x = np.linspace(0., 1., n + 1)
            out = o.interpol_poly(uv, x[:6], np.cos(x[:6])) if how == 'poly' else o.interpol_lin(uv, x, np.cos(x))
        return out

    def op_edit(self, i, how, x):
        o = self.objs[i]
        if how == 'pad':
            k = np.sort(self.get_k(i))
            if len(k) and np.array_equal(np.asarray(o['k']), k) and np.all(np.diff(k) > 0):
                o.pad_k(np.concatenate([[k[0] * 0.5], k, [k[-1] * 2.]]))
                self.set_k(i, np.concatenate([[k[0] * 0.5], k, [k[-1] * 2.]]))
        elif how == 'rescale': o.rescale(x)
        elif how == 'nan': o.nan_to_zero()
        elif how == 'select': self.sel = o[::2]
        elif how == 'pk': self.val = o.pk() if hasattr(o, 'pk') else o.pk_b22_damp()

    def op_verbosity(self, i, mode):
        self.objs[i].set_verbosity(mode)

    def op_bad(self, i, how, name):
        call, then = bad_calls(self.objs[i], how, name)
        try: call()
        except Exception: self.nraised += 1
        if then is not None: then()

    def op_look(self, i, how):
        # calls that only look at an instance, whatever its state
        o = self.objs[i]
        look = dict(str=lambda: str(o), len=lambda: o.size, list=o.tolist, dict=o.as_dict, iter=lambda: [name in o for name in o], fields=lambda: list(o.fields))[how]
        try: self.seen = look()
        except KeyError: self.seen = None  # no terms yet

    nraised = 0

    def op_setk(self, i, how, k):
        # the user changes the wavenumbers of terms that exist
        o = self.objs[i]
        n = o.size
        if n == 0 or self.get_k(i) is None or len(k) < n: return
        k = np.array(k[:n], dtype='f8')
        if how == 'assign': o['k'] = k.copy()
        elif o['k'].flags.writeable: o['k'][...] = k
        else: return
        self.set_k(i, k)
