"""Functions run in worker processes on the real package."""
import ctypes
import numpy as np


def lib():
    import pyregpt
    p = pyregpt.PyRegPT() if hasattr(pyregpt, 'PyRegPT') else None
    return p.regpt


def new(cls, quiet=True):
    import pyregpt
    o = getattr(pyregpt, cls)()
    if quiet: o.set_verbosity('quiet')
    return o


def apply_ops(o, ops):
    for op in ops:
        name, kw = op
        getattr(o, name)(**kw)


def columns(o):
    return {key: np.array(o[key]) for key in o}


def calc(k, pk, cls, kout, ops=(), args={}, nthreads=2, hook=None, verbosity='quiet', before=None, instance=False):
    """One calculation, possibly after another one with other inputs and settings, made with the same instance if same is set."""
    o = None
    if before is not None:
        o = calc(hook=dict(points=np.full((3, 5), 0.3)), instance=True, **{n: x for n, x in before.items() if n != 'same'})
        if not before.get('same') or before['cls'] != cls: o = None
    again = o is not None and np.array_equal(o.spectrum_lin['k'], k) and np.array_equal(o.spectrum_lin['pk'], pk)
    if o is None: o = new(cls, quiet=False)
    o.set_verbosity(verbosity)
    apply_ops(o, ops)
    if not again: o.set_pk_lin(k, pk)
    h = install(o, hook)
    o.set_terms(np.array(kout))
    o.run_terms(nthreads=nthreads, **args)
    if instance: return o
    out = columns(o)
    if h is not None: out['hook'] = h.log
    return out


# ------------------------------------------------------------------ the Monte Carlo integrator
class CALL(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in 'ndim ncomp nvec flags seed mineval maxeval nnew nmin'.split()] + \
        [(n, ctypes.c_double) for n in 'epsrel epsabs flatness'.split()] + [('userdata', ctypes.c_void_p), ('integrand', ctypes.c_void_p)]


DP, IP = ctypes.POINTER(ctypes.c_double), ctypes.POINTER(ctypes.c_int)
INTEGRAND = ctypes.CFUNCTYPE(ctypes.c_int, IP, DP, IP, DP, ctypes.c_void_p)
HOOK = ctypes.CFUNCTYPE(None, ctypes.POINTER(CALL), DP)


class Hook(object):
    """Probes the integrand at given points (in [0,1]^5) during each call of the integrator, and returns a given integral."""

    def __init__(self, points, ret=None):
        self.points, self.ret, self.log = np.asarray(points, dtype='f8'), ret, []
        self.c = HOOK(self)

    def __call__(self, call, integral):
        c = call.contents
        f = INTEGRAND(c.integrand)
        vals = np.full((len(self.points), c.ncomp), np.nan)
        nd, nc = ctypes.c_int(c.ndim), ctypes.c_int(c.ncomp)
        for i, x in enumerate(self.points):
            x = np.ascontiguousarray(x[:c.ndim])
            y = np.full(c.ncomp, np.nan)
            f(ctypes.byref(nd), x.ctypes.data_as(DP), ctypes.byref(nc), y.ctypes.data_as(DP), c.userdata)
            vals[i] = y
        j = len(self.log)
        ret = np.mean(vals, axis=0) if self.ret is None else np.resize(np.asarray(self.ret, dtype='f8') * (1 + j), c.ncomp)
        for i in range(c.ncomp): integral[i] = ret[i]
        self.log.append({'ndim': c.ndim, 'ncomp': c.ncomp, 'epsrel': c.epsrel, 'epsabs': c.epsabs, 'mineval': c.mineval, 'maxeval': c.maxeval,
                         'values': vals, 'returned': ret, 'nvec': c.nvec, 'flags': c.flags})


_hooks = []


def install(o, hook):
    if hook is None: return None
    h = Hook(**hook)
    _hooks.append(h)  # the library keeps a pointer to it
    o.regpt.rv_suave_set_hook.argtypes = (HOOK,)
    o.regpt.rv_suave_set_hook(h.c)
    return h


def suave_points(o, n):
    ctypes.c_long.in_dll(o.regpt, 'rv_suave_points').value = int(n)


def counter(o, name):
    return ctypes.c_long.in_dll(o.regpt, name).value
