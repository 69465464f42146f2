"""The native entry points of the library, called directly (arrays owned by this module)."""
import ctypes
import numpy as np
from . import gen

GUARD = -7.123e123
DP = ctypes.POINTER(ctypes.c_double)
SETTERS = ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_I_q', 'B_q']
MU = ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']
MC = ['gamma3_tree_q', 'A_2loop_II_III_q']
NCOL = {'spectrum_1loop': [1] * 5, 'spectrum_2loop': [1] * 10, 'bias_1loop': [1] * 10, 'A_1loop': [1, 1, 5], 'A_2loop': [1, 1, 5], 'B': [1, 1, 9]}


def p(x):
    return x.ctypes.data_as(DP)


class Native(object):

    def __init__(self, lib=None):
        if lib is None:
            import pyregpt
            lib = pyregpt.PyRegPT().regpt
        self.lib = lib
        self.keep = {}
        self.arenas, self.used, self.over = {}, {}, []

    def arena(self, name, values, room=64):
        """The values at the beginning of an array that is used again and again; the rest of it holds GUARD."""
        values = np.asarray(values, dtype='f8')
        a = self.arenas.get(name)
        if a is None or len(a) < len(values): a = self.arenas[name] = np.empty((max(room, len(values)),) + values.shape[1:])
        a[:len(values)] = values
        a[len(values):] = GUARD
        self.used[name] = len(values)
        return a[:len(values)]

    def beyond(self):
        """Arrays that were written beyond the points asked for."""
        bad, self.over = self.over, []
        for name, n in self.used.items():
            if not np.all(self.arenas[name][n:] == GUARD): bad.append('{} of {} points'.format(name, n))
        return bad

    def verbosity(self, mode):
        self.lib.set_verbosity(ctypes.c_char_p(mode.encode()))

    def spectrum(self, k, pk, again=False):
        self.keep['lin'] = (np.array(k, dtype='f8'), np.array(pk, dtype='f8'))
        if again: self.keep['lin'] = (self.arena('lin k', k, 200), self.arena('lin pk', pk, 200))
        k, pk = self.keep['lin']
        self.lib.set_pk_lin(p(k), p(pk), ctypes.c_size_t(len(k)))

    def q(self, name, n, lo, hi, interpol):
        getattr(self.lib, 'set_precision_' + name)(ctypes.c_size_t(n), ctypes.c_double(lo), ctypes.c_double(hi), ctypes.c_char_p(interpol.encode()))

    def mu(self, name, n):
        getattr(self.lib, 'set_precision_' + name)(ctypes.c_size_t(n), ctypes.c_char_p(b''))

    def mc(self, name, lo, hi, interpol):
        getattr(self.lib, 'set_precision_' + name)(ctypes.c_double(lo), ctypes.c_double(hi), ctypes.c_char_p(interpol.encode()))

    def small(self, rng, nmax=8, k=None):
        lo, hi = gen.qrange(rng, k) if k is not None else (-1., -1.)
        for n in SETTERS: self.q(n, int(rng.integers(2, nmax + 1)), lo, hi, str(rng.choice(['poly', 'lin'])))
        for n in MU: self.mu(n, int(rng.integers(1, nmax + 1)))
        for n in MC: self.mc(n, lo, hi, str(rng.choice(['poly', 'lin'])))

    def terms(self, name, k, fill=np.nan, again=False):
        """Arrays of the terms `name`, registered in the library; with again=True, those of the last time."""
        k = np.array(k, dtype='f8')
        cols = [np.full((len(k), c) if c > 1 else len(k), fill) for c in NCOL[name]]
        if again:
            k = self.arena(name + ' k', k)
            cols = [self.arena('{} column {}'.format(name, i), c) for i, c in enumerate(cols)]
        self.keep[name] = (k, cols)
        getattr(self.lib, 'set_terms_' + name)(ctypes.c_size_t(len(k)), p(k), *[p(c) for c in cols])
        return cols

    def run(self, name, nthreads, a='delta', b='delta'):
        args = [ctypes.c_char_p(x.encode()) for x in (a, b)] if name.startswith('spectrum') else []
        getattr(self.lib, 'run_terms_' + name)(*args, ctypes.c_size_t(nthreads))

    def assembled(self, name):
        """pk of the terms that are registered (spectrum_1loop(pk) and spectrum_2loop(pk))."""
        k, cols = self.keep[name]
        pk = np.full(len(k) + 8, GUARD)
        getattr(self.lib, name)(p(pk))
        if not np.all(pk[len(k):] == GUARD): self.over.append('{} of {} points'.format(name, len(k)))
        return pk[:len(k)]

    def one_call(self, k, a, b, nthreads, again=False):
        k = np.array(k, dtype='f8')
        pk = np.full(len(k), np.nan)
        if again: k, pk = self.arena('one k', k), self.arena('one pk', pk)
        self.keep['one'] = (k, pk)
        self.lib.set_spectrum_1loop(ctypes.c_size_t(len(k)), p(k), p(pk))
        self.lib.run_spectrum_1loop(ctypes.c_char_p(a.encode()), ctypes.c_char_p(b.encode()), ctypes.c_size_t(nthreads))
        return pk

    def rerun(self, a, b, nthreads):
        """The spectrum at the wavenumbers given last, again."""
        k, pk = self.keep['one']
        pk[...] = np.nan
        self.lib.run_spectrum_1loop(ctypes.c_char_p(a.encode()), ctypes.c_char_p(b.encode()), ctypes.c_size_t(nthreads))
        return pk

    def b_spectra(self, dt=None, tt=None):
        """Input spectra of the B terms, (k, pk) each; without any, none are registered."""
        self.keep['dt'], self.keep['tt'] = [None if x is None else (np.array(x[0], dtype='f8'), np.array(x[1], dtype='f8')) for x in (dt, tt)]
        for a, n in (('delta', 'dt'), ('theta', 'tt')):
            x = self.keep[n]
            if x is None:
                e = np.zeros(1)
                self.lib.set_spectra_B(ctypes.c_char_p(a.encode()), ctypes.c_char_p(b'theta'), ctypes.c_size_t(0), p(e), p(e))
            else: self.lib.set_spectra_B(ctypes.c_char_p(a.encode()), ctypes.c_char_p(b'theta'), ctypes.c_size_t(len(x[0])), p(x[0]), p(x[1]))


def sequence(nat, rng, nops, threads=5, verb=False, on_op=None, nspec=3, tables=None):
    """Random calls of native entry points, each with what it needs set before. on_op(name, call) performs the call."""
    on_op = on_op or (lambda name, call: call())
    specs = tables or [gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(3, 60))))[:2] for i in range(nspec)]
    cur = specs[0]
    nat.spectrum(*cur)
    nat.small(rng, k=cur[0])
    nat.b_spectra()
    n = 0
    while n < nops:
        c = rng.random()
        n += 1
        kk = gen.wavenumbers(rng, cur[0], int(rng.choice([0, 1, 2, 5])), 'hostile')
        th = int(rng.integers(1, threads + 1))
        a, b = [str(x) for x in rng.choice(['delta', 'theta'], 2)]
        if c < 0.12:
            cur = specs[int(rng.integers(len(specs)))]
            on_op('set_pk_lin', lambda: nat.spectrum(*cur))
        elif c < 0.2: on_op('set_precision', lambda: nat.small(rng, k=cur[0]))
        elif c < 0.6:
            name = str(rng.choice(list(NCOL)))
            if name in ('A_2loop', 'spectrum_2loop') and rng.random() < 0.6: name = 'B'
            if name not in nat.keep or rng.random() < 0.6: on_op('set_terms', lambda: nat.terms(name, kk))
            on_op('run_terms_' + name, lambda: nat.run(name, th, a, b))
        elif c < 0.7:
            name = str(rng.choice(['spectrum_1loop', 'spectrum_2loop']))
            if name in nat.keep: on_op(name, lambda: nat.assembled(name))
        elif c < 0.82 or 'one' not in nat.keep: on_op('run_spectrum_1loop', lambda: nat.one_call(kk, a, b, th))
        elif c < 0.9: on_op('run_spectrum_1loop again', lambda: nat.rerun(a, b, th))
        elif c < 0.95:
            if rng.random() < 0.5: on_op('set_spectra_B', lambda: nat.b_spectra())
            else: on_op('set_spectra_B', lambda: nat.b_spectra(cur, (cur[0], cur[1] * float(rng.uniform(0.5, 2.)))))
        elif verb: on_op('set_verbosity', lambda: nat.verbosity(str(rng.choice(['quiet', 'info', 'debug']))))


class Recorder(Native):
    """The same calls, written down as a program for rv/native/driver.c."""

    def __init__(self):
        self.keep, self.out = {}, []

    def say(self, *args):
        words = []
        for a in args:
            if isinstance(a, (list, tuple, np.ndarray)): words += [float(x).hex() for x in a]
            elif isinstance(a, float): words.append(a.hex())
            else: words.append(str(a) if a != '' else '-')
        self.out.append(' '.join(words))

    def verbosity(self, mode): self.say('verbosity', mode)

    def spectrum(self, k, pk): self.say('spec', len(k), k, pk)

    def q(self, name, n, lo, hi, interpol): self.say('q', name, n, float(lo), float(hi), interpol)

    def mu(self, name, n): self.say('mu', name, n)

    def mc(self, name, lo, hi, interpol): self.say('mc', name, float(lo), float(hi), interpol)

    def terms(self, name, k, fill=None):
        self.keep[name] = True
        self.say('terms', name, len(k), k)

    def run(self, name, nthreads, a='delta', b='delta'): self.say('run', name, nthreads, a, b)

    def assembled(self, name): self.say('assembled', name)

    def one_call(self, k, a, b, nthreads):
        self.keep['one'] = True
        self.say('one', len(k), k, a, b, nthreads)

    def rerun(self, a, b, nthreads): self.say('rerun', a, b, nthreads)

    def b_spectra(self, dt=None, tt=None):
        for a, x in (('delta', dt), ('theta', tt)):
            if x is None: self.say('bspec', a, 0)
            else: self.say('bspec', a, len(x[0]), x[0], x[1])

    def functions(self, rng, k):
        kk = gen.wavenumbers(rng, k, int(rng.integers(0, 20)), 'hostile')
        self.say('find', len(kk), kk, int(rng.integers(0, 2)))
        self.say('sigmad2', len(kk), kk, float(rng.uniform(0.1, 2.)))
        self.say('nodes', -1., float(rng.uniform(0., 3.)), int(rng.integers(1, 40)))
        n = int(rng.integers(1, 7))
        self.say('poly', float(rng.uniform()), n, np.linspace(0., 1., n), rng.normal(size=n))
