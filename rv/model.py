"""Executable reference model: what every calculation should return, written from the published formulas, independent of the C code
(vectorised numpy, in double and in extended precision; the difference of the two measures how well conditioned each value is)."""
import ctypes
import os
import subprocess
import hashlib
import numpy as np
from . import build

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')
D, TH = 'delta', 'theta'


# ------------------------------------------------------------------ settings
Q = ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_I_q', 'B_q']
MC = ['gamma3_tree_q', 'A_2loop_II_III_q']
MU = ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']
PKLIN = ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']
UV = ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']
GROUPS = {
    'spectrum_1loop_q': ['gamma1_1loop_q', 'gamma2_tree_q'],
    'spectrum_2loop_q': ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q'],
    'gamma2_1loop_q': ['gamma2d_1loop_q', 'gamma2t_1loop_q'],
    'A_2loop_q': ['A_2loop_I_q', 'A_2loop_II_III_q'],
    'all_q': Q + MC,
    'all_mu': MU,
    'all': Q + MC + MU,
    'all_pklin': PKLIN,
}
_N = {'gamma1_1loop_q': 600, 'gamma1_2loop_q': 500, 'gamma2_tree_q': 200, 'gamma2d_1loop_q': 100, 'gamma2t_1loop_q': 100, 'bias_1loop_q': 2000,
      'A_1loop_q': 2000, 'A_2loop_I_q': 300, 'B_q': 600, 'gamma2_tree_mu': 10, 'bias_1loop_mu': 20, 'A_1loop_mu': 20, 'A_2loop_I_mu': 10, 'B_mu': 10}


def default(name):
    if name in PKLIN: return {'interpol': 'poly'}
    if name in MU: return {'n': _N[name], 'interpol': 'poly'}
    rng = (-1., -1.) if name in ('bias_1loop_q', 'A_1loop_q') else (5e-4, 10.)
    return {'n': _N.get(name, 0), 'min': rng[0], 'max': rng[1], 'interpol': 'poly'}


class Cfg(object):
    """Model of the precision settings of the library."""

    def __init__(self):
        self.p = {name: default(name) for name in Q + MC + MU + PKLIN}
        self.uv = {name: 0.5 for name in UV}

    def copy(self):
        new = Cfg()
        new.p = {k: dict(v) for k, v in self.p.items()}
        new.uv = dict(self.uv)
        return new

    def set_precision(self, calculation='all_q', n=0, min=1., max=-1., interpol='test'):
        for name in GROUPS.get(calculation, [calculation]):
            p = self.p[name]
            change = False
            if name in PKLIN:
                if interpol in ('poly', 'lin'): p['interpol'] = interpol
                continue
            if n > 0 and name not in MC:
                p['n'] = n
                change = True
            if name not in MU and max >= min:
                p['min'], p['max'] = min, max
                change = True
            if interpol in ('poly', 'lin'):
                p['interpol'] = interpol
                change = True
            if not change: self.p[name] = default(name)

    def set_running_uvcutoff(self, calculation='all', uvcutoff=0.5):
        for name in UV if calculation == 'all' else [calculation]: self.uv[name] = uvcutoff

    def clear(self):
        self.__init__()

    def __getitem__(self, name):
        return self.p[name]


# ------------------------------------------------------------------ linear spectrum
def neville(x, tx, ty):
    """Polynomial through the points on the last axis of tx, ty, at x."""
    n = tx.shape[-1]
    p = [ty[..., i] for i in range(n)]
    for j in range(1, n):
        p = [((x - tx[..., i + j]) * p[i] + (tx[..., i] - x) * p[i + 1]) / (tx[..., i] - tx[..., i + j]) for i in range(n - j)]
    return p[0]


class Spec(object):

    def __init__(self, k, pk):
        self.k = np.ascontiguousarray(k, dtype='f8')
        self.pk = np.ascontiguousarray(pk, dtype='f8')
        self.n = len(self.k)

    def slopes(self, T, i):
        k, p = self.k.astype(T), self.pk.astype(T)
        if np.any(p[i + 1] <= 0) or np.any(p[i - 1] <= 0): return None
        return np.mean(np.log(p[i + 1] / p[i - 1]) / np.log(k[i + 1] / k[i - 1]))

    def find(self, k, mode='poly', T=LD):
        k = np.asarray(k, dtype=T)
        sh = k.shape
        k = k.ravel()
        K, P = self.k.astype(T), self.pk.astype(T)
        out = np.zeros(k.shape, dtype=T)
        lo, hi = k < K[0], k > K[-1]
        mid = ~(lo | hi)
        if lo.any():
            ne = self.slopes(T, np.arange(1, min(15, self.n - 1)))
            out[lo] = 0. if ne is None else P[1] * (k[lo] / K[1])**ne
        if hi.any():
            ne = self.slopes(T, np.arange(max(1, self.n - 1 - 15), self.n - 1))
            out[hi] = 0. if ne is None else P[-1] * (k[hi] / K[-1])**ne
        if mid.any():
            x = k[mid]
            ind = np.searchsorted(K, x, side='right') - 1
            if mode == 'lin':
                j = np.minimum(ind, self.n - 2)
                out[mid] = P[j] + (x - K[j]) / (K[j + 1] - K[j]) * (P[j + 1] - P[j])
            else:
                a, b = np.maximum(ind - 2, 0), np.minimum(ind + 2, self.n - 1)
                y = np.zeros(x.shape, dtype=T)
                for w in np.unique(b - a):
                    m = (b - a) == w
                    idx = a[m][:, None] + np.arange(w + 1)
                    y[m] = neville(x[m], K[idx], P[idx])
                out[mid] = y
        return out.reshape(sh)

    def sigmad2(self, k, uv=0.5, T=LD):
        k = np.asarray(k, dtype=T)
        sh = k.shape
        x = k.ravel() * T(uv)
        K, P = self.k.astype(T), self.pk.astype(T)
        cum = np.concatenate([[T(0)], np.cumsum((P[1:] + P[:-1]) * (K[1:] - K[:-1]))])
        out = np.zeros(x.shape, dtype=T)
        m = x >= K[0]
        xm = np.minimum(x[m], K[-1])
        i = np.clip(np.searchsorted(K, xm, side='right') - 1, 0, self.n - 2)
        y = P[i] + (xm - K[i]) / (K[i + 1] - K[i]) * (P[i + 1] - P[i])
        out[m] = (cum[i] + (y + P[i]) * (xm - K[i])) / (12 * PI.astype(T)**2)
        return out.reshape(sh)


# ------------------------------------------------------------------ quadrature
_gl = {}


def gauss_legendre(n, T=LD):
    if n not in _gl:
        i = np.arange(n, dtype=LD)
        z = np.cos(PI * (i + LD(0.75)) / (n + LD(0.5)))
        for it in range(100):
            p1, p2 = np.ones(n, dtype=LD), np.zeros(n, dtype=LD)
            for j in range(n): p1, p2 = ((2 * j + 1) * z * p1 - j * p2) / (j + 1), p1
            pp = n * (z * p1 - p2) / (z * z - 1)
            dz = p1 / pp
            z = z - dz
            if np.max(np.abs(dz)) < 1e-18: break
        p1, p2 = np.ones(n, dtype=LD), np.zeros(n, dtype=LD)
        for j in range(n): p1, p2 = ((2 * j + 1) * z * p1 - j * p2) / (j + 1), p1
        pp = n * (z * p1 - p2) / (z * z - 1)
        w = 2 / ((1 - z * z) * pp * pp)
        _gl[n] = (-z, w)
    z, w = _gl[n]
    return z.astype(T), w.astype(T)


class Grid(object):
    """Nodes of the integral over ln q."""

    def __init__(self, spec, p, T):
        lo, hi = p['min'], p['max']
        if lo <= 0 or hi <= 0: lo, hi = spec.k[0], spec.k[-1]
        a, b = np.log(T(lo)), np.log(T(hi))
        z, w = gauss_legendre(p['n'], T)
        self.q = np.exp((a + b) / 2 + (b - a) / 2 * z)
        self.w = w * (b - a) / 2
        self.pk = spec.find(self.q, p['interpol'], T)


_marginal = False


def _border(f):
    global _marginal
    _marginal = True
    try:
        with np.errstate(all='ignore'): return f(np.float64)
    finally:
        _marginal = False


def mu_nodes(x, xmin, xmax, nmu, half, T):
    """Angles for each x = q/k such that |k-q|/k is in [xmin, xmax]; half: only half of the symmetric domain q <-> k-q. Returns mask, mu, w."""
    mumin = np.maximum(T(-1), (1 + x * x - xmax * xmax) / 2 / x)
    mumax = np.minimum(T(1), (1 + x * x - xmin * xmin) / 2 / x)
    ok = ~((mumin >= 1) | (mumax <= -1) | (mumax <= mumin))
    if half: mumax = np.where(x >= 0.5, T(0.5) / x, mumax)
    if _marginal:
        # angular domains that are empty or not according to rounding: their contribution is added to the tolerance
        d = T(1e-14) * np.maximum(x, 1 / x)
        ok = (np.abs(mumax - mumin) < d) | (np.abs(mumin - 1) < d)
        m = np.minimum(mumin, T(1))
        mumin, mumax = m - d, m + d
    z, w = gauss_legendre(nmu, T)
    jac = (mumax - mumin) / 2
    return ok, _j((z + 1) * jac[:, None] + mumin[:, None], T), w * jac[:, None]


class Val(object):
    """Value in extended precision, scale of the terms summed (for a tolerance), and noise of the double evaluation."""

    def __init__(self, v, scale, noise):
        self.v, self.scale, self.noise = float(v), float(scale), float(noise)

    def tol(self, rtol=1e-9, k=50.):
        return rtol * self.scale + k * self.noise


_jitter = None


def _j(v, T):
    """v with other rounding, while the noise of the double evaluation is measured."""
    if _jitter is None or T is not np.float64: return v
    return v * (1 + _jitter.uniform(-2.5e-16, 2.5e-16, np.shape(v)))


def _doubles(f, n=3):
    """Evaluations of f in double precision: as it is, and with the arguments of kernels which may cancel rounded otherwise."""
    global _jitter
    out = [f(np.float64)]
    for i in range(n):
        _jitter = np.random.default_rng(i)
        try:
            with np.errstate(all='ignore'): out.append(f(np.float64))
        finally:
            _jitter = None
    return out


def both(f, factor=1.):
    """f(T) -> array of terms (any shape, leading axis components if comp): summed."""
    a = np.asarray(np.atleast_1d(f(LD)), dtype=LD)
    n = max(np.sum(np.abs(b.astype(LD) - a)) if a.shape == b.shape else abs(np.sum(b) - np.sum(a)) for b in map(np.atleast_1d, _doubles(f)))
    return Val(np.sum(a) * factor, np.sum(np.abs(a)) * abs(factor), n * abs(factor))


def both_c(f, factor=1.):
    """As both, f(T) returning a list of components."""
    a, b, c = f(LD), _doubles(f), _border(f)
    out = []
    for i, (x, z) in enumerate(zip(a, c)):
        z = np.abs(np.asarray(z, dtype='f8'))
        noise = [np.sum(np.abs(np.asarray(y[i]).astype(LD) - x)) if np.shape(x) == np.shape(y[i]) else abs(np.sum(y[i]) - np.sum(x)) for y in b]
        noise = max([noise[0]] + [v for v in noise[1:] if np.isfinite(v)])
        out.append(Val(np.sum(x) * factor, np.sum(np.abs(x)) * abs(factor), (noise + np.sum(z[np.isfinite(z)])) * abs(factor)))
    return out


# ------------------------------------------------------------------ second and third order kernels
def F2(a, p2, q2, pq):
    T = np.asarray(p2).dtype.type
    if a == D: return T(5) / 7 + pq * (1 / p2 + 1 / q2) / 2 + pq * pq / p2 / q2 * 2 / 7
    return T(3) / 7 + pq * (1 / p2 + 1 / q2) / 2 + pq * pq / p2 / q2 * 4 / 7


def F2k(a, k1, k2, k3):
    return F2(a, k1 * k1, k2 * k2, (k3 * k3 - k1 * k1 - k2 * k2) / 2)


def dot(u, v):
    return (u * v).sum(-1)


def F3sym(a, p, q, r):
    """Symmetrised third-order kernels from the standard recursion (Goroff et al. 1986)."""
    def one(p, q, r):
        s = q + r
        k2 = dot(p + s, p + s)
        pp, ss, ps = dot(p, p), dot(s, s), dot(p, s)
        F2d, F2t = F2(D, dot(q, q), dot(r, r), dot(q, r)), F2(TH, dot(q, q), dot(r, r), dot(q, r))
        al1, al2, be = 1 + ps / pp, 1 + ps / ss, k2 * ps / (2 * pp * ss)
        # p | (q,r) and (q,r) | p
        if a == D: return (7 * al1 * F2d + 2 * be * F2t + F2t * (7 * al2 + 2 * be)) / 18
        return (3 * al1 * F2d + 6 * be * F2t + F2t * (3 * al2 + 6 * be)) / 18
    return (one(p, q, r) + one(q, r, p) + one(r, p, q)) / 3


# ------------------------------------------------------------------ one-loop propagators
def kernel_1loop(a, x):
    """Angular average of the third-order kernel: exact expression, and its expansions where it is ill-conditioned (as published: |x-1|<0.01, x>10)."""
    T = x.dtype.type
    x = _j(x, T)
    d = x - 1
    x2 = x * x
    y = np.where(np.abs(d) < 0.01, T(2), x)
    y2 = y * y
    L = np.log(np.abs((y - 1) / (1 + y)))
    if a == D:
        near = -T(11) / 126 + d / 126 - T(29) / 252 * d * d
        far = -T(61) / 630 + T(2) / 105 / x2 - T(10) / 1323 / x2 / x2
        ex = (6 / y2 - 79 + 50 * y2 - 21 * y2 * y2 + T(0.75) * (1 / y - y)**3 * (2 + 7 * y2) * 2 * L) / 504
    else:
        near = -T(3) / 14 - T(5) / 42 * d + d * d / 84
        far = -T(3) / 10 + T(26) / 245 / x2 - T(38) / 2205 / x2 / x2
        ex = (6 / y2 - 41 + 2 * y2 - 3 * y2 * y2 + T(0.75) * (1 / y - y)**3 * (2 + y2) * 2 * L) / 168
    return x * np.where(np.abs(d) < 0.01, near, np.where(x > 10, far, ex))


def gamma1_1loop_terms(a, k, g, T):
    """k array (n,) -> (n, nq) terms"""
    k = np.asarray(k, dtype=T)
    return kernel_1loop(a, g.q / k[..., None]) * g.pk * g.w * k[..., None]**3 / (2 * PI.astype(T)**2)


# ------------------------------------------------------------------ two-loop propagators (Taruya et al. 2012, fitted kernels)
def _beta(a, y):
    T = y.dtype.type
    y = _j(y, T)
    d = 1 - y
    yy = np.where((np.abs(d) < 0.05) | (y < 0.01), T(0.5), y)
    y2 = yy * yy
    y4, y8 = y2**2, y2**4
    y10, y12 = y8 * y2, y8 * y4
    L = np.log(yy)
    if a == D:
        near = T(120424) / 3009825 + 2792 * d**2 / 429975 + 2792 * d**3 / 429975 + 392606 * d**4 / T('9.9324225e7')
        small = T(22382) / 429975 - 57052 * y * y / 429975
        ex = 2 * (1 + y2) * (-11191 + 118054 * y2 - 18215 * y4 + 18215 * y8 - 118054 * y10 + 11191 * y12 + 60 * y4 * (3467 - 790 * y2 + 3467 * y4) * 2 * L) / (429975 * (y2 - 1)**7)
    else:
        near = T(594232) / 33108075 + 91912 * d**2 / 33108075 + 91912 * d**3 / 33108075 + 1818458 * d**4 / T(1092566475)
        small = T(9886) / 429975 - 254356 * y * y / 4729725
        ex = 2 * (1 + y2) * (-54373 + 562162 * y2 - 408245 * y4 + 408245 * y8 - 562162 * y10 + 54373 * y12 + 60 * y4 * (14561 - 10690 * y2 + 14561 * y4) * 2 * L) / (T('4.729725e6') * (y2 - 1)**7)
    return np.where(np.abs(d) < 0.05, near, np.where(y < 0.01, small, ex))


def alpha_2loop(a, q1, q2):
    T = q1.dtype.type
    y = np.abs((q1 - q2) / (q1 + q2))
    r2 = q1 * q1 + q2 * q2
    r = np.sqrt(r2)
    s = q1 * q2 / r
    t = s * np.sqrt(T(2))
    if a == D:
        c = T('0.02088557981734545') / (T('35.09866396385646') * s**4 + T('4.133811416743832') * s**2 + 1) - T('0.076100391588544') * s**3 / (T('77.79670692480381') * s**6 + 1)
        d = -T('0.022168478217299517') / (T('7.030631093970638') * r**4 + T('2.457866449142683') * r**2 + 1) + T('0.009267495321465601') * r**2 / (T('4.11633699497035') * r**10 + 1)
        e = T('0.3191221482038663') * t**4 / (T('1.3549058352752525') * t**4 + 1) + T('1.2805575495849764') / (T('18.192939946270577') * t**4 + T('3.98817716852858') * t**2 + 1) + T('0.764469131436698')
    else:
        c = -T('0.008217140060512867') / (T('42.14072830553836') * s**4 + T('1.367564560397748') * s**2 + 1) + T('0.01099093588476197') * s**3 / (T('28.490424851390667') * s**8 + 1)
        d = T('0.008023147297149955') / (T('2.238261369090066') * r**5 + 1) - T('0.006173880966928251') * r**2 / (T('0.4711737436482179') * r**5 + 1)
        e = T('1.528058751211026') * (T('2.4414566000839355') * t**4 + T('1.8616263354608626') * t**2) / (T('2.4414566000839355') * t**4 + 1) \
            + T('2.5227965281961247') / (T('0.0028106312591877226') * t**4 + T('1.0332351481570086') * t**2 + 1) - T('0.528058751211026')
    return (_beta(a, y) - c - d) * e


def gamma1_2loop_terms(a, k, g, T):
    x = g.q / T(k)
    x1, x2 = x[:, None], x[None, :]
    u = g.w * g.pk * g.q**3
    return -alpha_2loop(a, x1 + 0 * x2, x2 + 0 * x1) / (x1 * x1 + x2 * x2) * u[:, None] * u[None, :] / (4 * PI.astype(T)**4)


# ------------------------------------------------------------------ golden one-loop second-order kernels
_lib = {}


def golden(T):
    if T not in _lib:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ref')
        h = hashlib.sha256(b''.join(open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d)) if f[-2:] in ('.c', 'nc'))).hexdigest()[:12]
        name = 'gold{}-{}.so'.format('64' if T is np.float64 else 'ld', h)
        fn = os.path.join(build.BUILD, name)
        if not os.path.exists(fn):
            os.makedirs(build.BUILD, exist_ok=True)
            tmp = '{}.tmp{}'.format(fn, os.getpid())
            subprocess.run(['gcc', '-O2', '-w', '-fopenmp', '-fPIC', '-shared'] + ([] if T is np.float64 else ['-DRT=long double'])
                           + [os.path.join(d, 'gamma2ref.c'), '-o', tmp, '-lm'], check=True)
            os.rename(tmp, fn)
        _lib[T] = ctypes.CDLL(fn)
    return _lib[T]


_dp = ctypes.POINTER(ctypes.c_double)


def kernel_gamma2_1loop(a, k1, k2, k3, q, T):
    """a field; arrays of the same shape (double)"""
    k1, k2, k3, q = [_j(v, T) for v in np.broadcast_arrays(*[np.asarray(v, dtype='f8') for v in (k1, k2, k3, q)])]
    sh = k1.shape
    arr = [np.ascontiguousarray(v).ravel() for v in (k1, k2, k3, q)]
    out = np.zeros(len(arr[0]))
    golden(T).rv_gamma2(0 if a == D else 1, ctypes.c_long(len(out)), *[v.ctypes.data_as(_dp) for v in arr], out.ctypes.data_as(_dp))
    return out.reshape(sh)


def regime_gamma2(k1, k2, k3, q):
    k1, k2, k3, q = [np.ascontiguousarray(v, dtype='f8').ravel() for v in np.broadcast_arrays(k1, k2, k3, q)]
    out = np.zeros(len(k1), dtype='i4')
    golden(np.float64).rv_gamma2_regime(ctypes.c_long(len(out)), *[v.ctypes.data_as(_dp) for v in (k1, k2, k3, q)], out.ctypes.data_as(ctypes.POINTER(ctypes.c_int)))
    return out


def gamma2_1loop(a, k1, k2, k3, g, T):
    """Sum over the nodes of g; k's of any (same) shape."""
    k1, k2, k3 = [np.asarray(v, dtype='f8') for v in (k1, k2, k3)]
    ker = kernel_gamma2_1loop(a, k1[..., None], k2[..., None], k3[..., None], g.q.astype('f8'), T)
    return (ker.astype(T) * (g.w * g.q**3 * g.pk)).sum(-1) / (8 * PI.astype(T)**3)


# ------------------------------------------------------------------ terms
def _common(spec, cfg, k, interp_name, uv_name):
    out = {}
    out['pk_lin'] = [Val(v, abs(v), abs(float(spec.find(kk, cfg[interp_name]['interpol'], np.float64)) - v)) for kk, v in zip(k, spec.find(k, cfg[interp_name]['interpol']))]
    out['sigmad2'] = [Val(v, abs(v), 0.) for v in spec.sigmad2(k, cfg.uv[uv_name])]
    return out


def gamma2_tree_terms(spec, cfg, k, a, b, T, g, loop=False):
    x = g.q / T(k)
    ok, mu, w = mu_nodes(x, x[0], x[-1], cfg['gamma2_tree_mu']['n'], True, T)
    x, mu, w = x[ok], mu[ok], w[ok]
    q, pq = g.q[ok], g.pk[ok]
    kq = T(k) * np.sqrt(1 + x[:, None]**2 - 2 * mu * x[:, None])
    pkq = spec.find(kq, cfg['gamma2_tree_mu']['interpol'], T)
    wt = 2 * pq[:, None] * pkq * w * (x**3 * g.w[ok])[:, None] * T(k)**3 / (2 * PI.astype(T)**2)
    qq = q[:, None] + 0 * kq
    kk = T(k) + 0 * kq
    ta = F2k(a, kq, qq, kk)
    tb = ta if a == b else F2k(b, kq, qq, kk)
    if not loop: return [wt * ta * tb]
    gd, gt = Grid(spec, cfg['gamma2d_1loop_q'], T), Grid(spec, cfg['gamma2t_1loop_q'], T)
    la = gamma2_1loop(a, kq, qq, kk, gd if a == D else gt, T)
    lb = la if a == b else gamma2_1loop(b, kq, qq, kk, gd if b == D else gt, T)
    return [wt * ta * tb, wt * (ta * lb + la * tb), wt * la * lb]


def spectrum_1loop(spec, cfg, k, a=D, b=D):
    out = _common(spec, cfg, k, 'spectrum_1loop_pk_lin', 'spectrum_1loop')
    G = {T: (Grid(spec, cfg['gamma1_1loop_q'], T), Grid(spec, cfg['gamma2_tree_q'], T)) for T in (LD, np.float64)}
    out['gamma1a_1loop'] = [both(lambda T: gamma1_1loop_terms(a, [kk], G[T][0], T)) for kk in k]
    out['gamma1b_1loop'] = [both(lambda T: gamma1_1loop_terms(b, [kk], G[T][0], T)) for kk in k]
    out['pk_gamma2_tree_tree'] = [both_c(lambda T: gamma2_tree_terms(spec, cfg, kk, a, b, T, G[T][1]))[0] for kk in k]
    return out


def spectrum_2loop(spec, cfg, k, a=D, b=D):
    """Without pk_gamma3_tree."""
    out = _common(spec, cfg, k, 'spectrum_2loop_pk_lin', 'spectrum_2loop')
    G = {T: (Grid(spec, cfg['gamma1_1loop_q'], T), Grid(spec, cfg['gamma2_tree_q'], T), Grid(spec, cfg['gamma1_2loop_q'], T)) for T in (LD, np.float64)}
    for f, s in ((a, 'a'), (b, 'b')):
        out['gamma1{}_1loop'.format(s)] = [both(lambda T: gamma1_1loop_terms(f, [kk], G[T][0], T)) for kk in k]
        two = []
        for kk, one in zip(k, out['gamma1{}_1loop'.format(s)]):
            v = both(lambda T: gamma1_2loop_terms(f, kk, G[T][2], T))
            two.append(Val(v.v + one.v**2 / 2, v.scale + one.v**2 / 2 + abs(one.v) * one.scale, v.noise + abs(one.v) * one.noise + 25 * one.noise**2))
        out['gamma1{}_2loop'.format(s)] = two
    names = ['pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop']
    for n in names: out[n] = []
    for kk in k:
        for n, v in zip(names, both_c(lambda T: gamma2_tree_terms(spec, cfg, kk, a, b, T, G[T][1], True))): out[n].append(v)
    return out


def gamma3_integrand(spec, cfg, k, a, b, xx, T=LD):
    """xx (n,5) points of the unit hypercube -> (n,) values; also the distance of each point to the boundary of the domain."""
    p = cfg['gamma3_tree_q']
    lo, hi = p['min'], p['max']
    if lo <= 0 or hi <= 0: lo, hi = spec.k[0], spec.k[-1]
    pi = PI.astype(T)
    lo_, hi_ = np.log(T(lo)), np.log(T(hi))
    xx = np.asarray(xx, dtype=T)
    pm, qm = np.exp(lo_ + (hi_ - lo_) * xx[:, 0]), np.exp(lo_ + (hi_ - lo_) * xx[:, 3])
    t1, ph, t2 = pi * xx[:, 1], 2 * pi * xx[:, 2], pi * xx[:, 4]
    P = pm[:, None] * np.stack([np.sin(t1) * np.cos(ph), np.sin(t1) * np.sin(ph), np.cos(t1)], -1)
    Qv = qm[:, None] * np.stack([np.sin(t2), 0 * t2, np.cos(t2)], -1)
    kv = np.array([0, 0, k], dtype=T)
    KP = kv - P
    R = KP - Qv
    r = np.sqrt(dot(R, R))
    s = dot(Qv, KP) / dot(KP, KP)
    inside = (r >= lo) & (r <= hi) & (s <= 0.5)
    margin = np.minimum(np.minimum(np.abs(r / lo - 1), np.abs(r / hi - 1)), np.abs(s - 0.5))
    m = p['interpol']
    f = 2 * F3sym(a, P, Qv, R) * F3sym(b, P, Qv, R) * spec.find(pm, m, T) * spec.find(qm, m, T) * spec.find(r, m, T)
    f = f * (pm * qm)**3 * ((hi_ - lo_) * 2 * pi * pi)**2 * np.sin(t1) * np.sin(t2)
    return np.where(inside, f, 0), margin


GAMMA3_NORM = 6. / (2 * np.pi)**6


# ------------------------------------------------------------------ A terms
def A_1loop_kernels(x, mu):
    """Taruya et al. 2010, eq. A3: kernels of A, tilde A (with 1/(1+x^2-2 x mu)^2 apart)"""
    A = [-x**3 / 7 * (mu + 6 * mu**3 + x**2 * mu * (-3 + 10 * mu**2) + x * (-3 + mu**2 - 12 * mu**4)),
         x**4 / 14 * (mu**2 - 1) * (-1 + 7 * x * mu - 6 * mu**2),
         x**3 / 14 * (x**2 * mu * (13 - 41 * mu**2) - 4 * (mu + 6 * mu**3) + x * (5 + 9 * mu**2 + 42 * mu**4)),
         x**4 / 14 * (mu**2 - 1) * (-1 + 7 * x * mu - 6 * mu**2),
         x**3 / 14 * (1 - 7 * x * mu + 6 * mu**2) * (-2 * mu + x * (-1 + 3 * mu**2))]
    tA = [(mu + x - 2 * x * mu**2) * (3 * x + 7 * mu - 10 * x * mu**2) / 7,
          x / 14 * (mu**2 - 1) * (3 * x + 7 * mu - 10 * x * mu**2),
          (28 * mu**2 + x * mu * (25 - 81 * mu**2) + x**2 * (1 - 27 * mu**2 + 54 * mu**4)) / 14,
          x / 14 * (1 - mu**2) * (x - 7 * mu + 6 * x * mu**2),
          (x - 7 * mu + 6 * x * mu**2) * (-2 * mu - x + 3 * x * mu**2) / 14]
    return A, tA


def A_1loop_a(x):
    T = x.dtype.type
    x = _j(x, T)
    lo, hi = x < 1e-4, x > 1e2
    y = np.where(lo | hi, T(2), x)
    at1 = np.abs(y - 1) <= 3e-14
    yl = np.where(at1, T(2), y)
    L = np.where(at1, T(0), np.log(np.abs((yl + 1) / (yl - 1))))
    c = lambda a, b: T(a) / T(b)
    small = [c(8, 735) * x**8 + c(24, 245) * x**6 - c(24, 35) * x**4 + c(8, 7) * x**2 - c(2, 3),
             -c(16, 8085) * x**8 - c(16, 735) * x**6 + c(48, 245) * x**4 - c(16, 35) * x**2,
             c(32, 1617) * x**8 + c(128, 735) * x**6 - c(288, 245) * x**4 + c(64, 35) * x**2 - c(4, 3), None,
             c(24, 2695) * x**8 + c(8, 105) * x**6 - c(24, 49) * x**4 + c(24, 35) * x**2 - c(2, 3)]
    big = [c(2, 105) - c(24, 245) / x**2 - c(8, 735) / x**4 - c(8, 2695) / x**6 - c(8, 7007) / x**8,
           -c(16, 35) + c(48, 245) / x**2 - c(16, 735) / x**4 - c(16, 8085) / x**6 - c(16, 35035) / x**8,
           -c(44, 105) - c(32, 735) / x**4 - c(64, 8085) / x**6 - c(96, 35035) / x**8, None,
           -c(46, 105) + c(24, 245) / x**2 - c(8, 245) / x**4 - c(8, 1617) / x**6 - c(8, 5005) / x**8]
    y2 = y * y
    ex = [-(2 * y * (19 - 24 * y2 + 9 * y2**2) - 9 * (y2 - 1)**3 * L) / (84 * y),
          (2 * y * (y2 + 1) * (3 - 14 * y2 + 3 * y2**2) - 3 * (y2 - 1)**4 * L) / (112 * y**3),
          (2 * y * (9 - 185 * y2 + 159 * y2**2 - 63 * y2**3) + 9 * (y2 - 1)**3 * (7 * y2 + 1) * L) / (336 * y**3), None,
          (2 * y * (9 - 109 * y2 + 63 * y2**2 - 27 * y2**3) + 9 * (y2 - 1)**3 * (3 * y2 + 1) * L) / (336 * y**3)]
    out = [None if e is None else np.where(lo, s, np.where(hi, b, e)) for s, b, e in zip(small, big, ex)]
    out[3] = out[1]
    return out


def A_1loop(spec, cfg, k):
    out = _common(spec, cfg, k, 'A_1loop_pk_lin', 'A_1loop')
    G = {T: Grid(spec, cfg['A_1loop_q'], T) for T in (LD, np.float64)}

    def terms(kk, T):
        g = G[T]
        x = g.q / T(kk)
        ok, mu, w = mu_nodes(x, x[0], x[-1], cfg['A_1loop_mu']['n'], False, T)
        x, mu, w, pq, wq = x[ok], mu[ok], w[ok], g.pk[ok], g.w[ok]
        pk = spec.find(T(kk), cfg['A_1loop_q']['interpol'], T)
        X = x[:, None]
        xmu = 1 + X**2 - 2 * mu * X
        pkq = spec.find(T(kk) * np.sqrt(xmu), cfg['A_1loop_mu']['interpol'], T) / xmu**2
        A, tA = A_1loop_kernels(X, mu)
        a = A_1loop_a(x)
        fac = T(kk)**3 / (4 * PI.astype(T)**2)
        res = []
        for i in range(5):
            t1 = (A[i] * pk + tA[i] * pq[:, None]) * pkq * w
            res.append(np.concatenate([t1, (a[i] * pk * pq)[:, None]], axis=1) * (x * wq)[:, None] * fac)
        return res
    out['pk'] = [both_c(lambda T: terms(kk, T)) for kk in k]
    return out


def projection_A(x, mu):
    xmu = 1 + x * x - 2 * mu * x
    A = [x * mu, -x * x * (3 * x * mu - 2) * (mu * mu - 1) / xmu / 2, x * (2 * mu + x * (2 - 6 * mu * mu) + x * x * mu * (-3 + 5 * mu * mu)) / xmu / 2]
    tA = [-x * x * (x * mu - 1) / xmu, x * x * (3 * x * mu - 1) * (mu * mu - 1) / xmu / 2, x * x * (-1 + 3 * x * mu + 3 * mu * mu - 5 * x * mu**3) / xmu / 2]
    return A + A, tA + tA


def bispectrum_I(spec, cfg, k, p, kp, T, G):
    """Regularised one-loop bispectra (no one-loop 222, 321 parts) of the triangle (k,p,kp), for A then tilde A: [211,221,212,222]*2."""
    g1, gd, gt = G
    uv, m = cfg.uv['bispectrum_1loop'], cfg['bispectrum_1loop_pk_lin']['interpol']
    S = [spec.sigmad2(v, uv, T) for v in (k, p, kp)]
    e = (k * k * S[0] + p * p * S[1] + kp * kp * S[2]) / 2
    ef = np.exp(-e)
    if T is np.float64 and _jitter is None: ef = np.where(e > 1e2, 0., ef)  # may be dropped: enters the tolerance through the difference with the extended evaluation
    pk, pp, pkp = [spec.find(v, m, T) for v in (k, p, kp)]
    kk = float(np.asarray(k).flat[0]) if np.size(k) else 0.

    def g1reg(v, s, cond):
        o = []
        for a in (D, TH):
            one = gamma1_1loop_terms(a, v.ravel(), g1, T).sum(-1).reshape(v.shape)
            o.append(np.where(cond, 1 + v * v * s / 2 + one, T(1)))
        return o
    G1k = g1reg(k, S[0], k >= 1e-2)
    G1p = g1reg(p, S[1], (p >= 1e-2) & (k >= 1e-2))
    G1kp = g1reg(kp, S[2], (kp >= 3e-2) & (k >= 1e-2))

    def g2reg(a, u, v, w, s):
        o = F2k(a, u, v, w)
        if kk >= 1e-2:
            m3 = np.maximum(np.maximum(k, p), kp) >= 1e-2
            o = np.where(m3, o * (1 + w * w * s / 2) + gamma2_1loop(a, u, v, w, gd if a == D else gt, T), o)
        return o
    kp_k = {a: g2reg(a, kp, k, p, S[1]) for a in (D, TH)}
    p_k = {a: g2reg(a, p, k, kp, S[2]) for a in (D, TH)}
    p_kp = {a: g2reg(a, p, kp, k, S[0]) for a in (D, TH)}
    gk, gp, gkp = [dict(zip((D, TH), v)) for v in (G1k, G1p, G1kp)]

    def B(f1, f2, f3, first, second):
        # first: field of the leg p (A) or kp (tilde A); B_{theta b c}(1,2,k)
        (g1_, P1, o1), (g2_, P2, o2) = first, second
        # <1 2>, <1 k>, <2 k> contractions: second order leg is respectively k, 2, 1
        return 2 * ef * (o1[f1] * g2_[f2] * gk[f3] * P2 * pk + o2[f2] * g1_[f1] * gk[f3] * P1 * pk + p_kp[f3] * g1_[f1] * g2_[f2] * P1 * P2)
    out = []
    lp, lkp = (gp, pp, kp_k), (gkp, pkp, p_k)
    for first, second in ((lp, lkp), (lkp, lp)):
        for f2, f3 in ((D, D), (TH, D), (D, TH), (TH, TH)): out.append(B(TH, f2, f3, first, second))
    return out


def combine_A(c):
    return [c[0] + c[6], c[1] + c[7], c[2] + c[8] + c[3] + c[9], c[4] + c[10], c[5] + c[11]]


def A_2loop_I(spec, cfg, k):
    """Deterministic part of the two-loop A."""
    out = _common(spec, cfg, k, 'A_2loop_pk_lin', 'A_2loop')
    names = ['gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q']
    G = {T: (Grid(spec, cfg['A_2loop_I_q'], T), [Grid(spec, cfg[n], T) for n in names]) for T in (LD, np.float64)}

    def terms(kk, T):
        g, gg = G[T]
        x = g.q / T(kk)
        ok, mu, w = mu_nodes(x, x[0], x[-1], cfg['A_2loop_I_mu']['n'], True, T)
        x, mu, w = x[ok][:, None], mu[ok], w[ok]
        kp = T(kk) * np.sqrt(1 + x * x - 2 * mu * x)
        K_, P_ = T(kk) + 0 * kp, g.q[ok][:, None] + 0 * kp
        b = bispectrum_I(spec, cfg, K_, P_, kp, T, gg)
        A, tA = projection_A(x, mu)
        wt = x * w * g.w[ok][:, None] * T(kk)**3 / (2 * PI.astype(T)**2)
        idx = [0, 1, 1, 2, 3, 3]
        c = [A[i] * b[idx[i]] * wt for i in range(6)] + [tA[i] * b[4 + idx[i]] * wt for i in range(6)]
        # keep the contributions apart (stacked) so that scales see cancellations between them
        return [np.stack(v) for v in ([c[0], c[6]], [c[1], c[7]], [c[2], c[8], c[3], c[9]], [c[4], c[10]], [c[5], c[11]])]
    out['pk'] = [both_c(lambda T: terms(kk, T)) for kk in k]
    return out


def bispectrum_II_III(spec, mode, k1, k2, k3, q, f1, f2, f3, T):
    """222 and 321 one-loop bispectra integrands (tree kernels), symmetrised over q <-> -q keeping the region where q is the smallest leg."""
    ks, fs = [k1, k2, k3], [f1, f2, f3]
    absq = np.sqrt(dot(q, q))
    F2v = lambda a, u, v: F2(a, dot(u, u), dot(v, v), dot(u, v))
    P = lambda v: spec.find(np.sqrt(dot(v, v)), mode, T)
    Pq = spec.find(absq, mode, T)
    b222, b321 = 0, 0
    margin = np.full(absq.shape, np.inf)
    n = lambda v: np.sqrt(dot(v, v))
    for i in range(3):
        for j in range(3):
            if i == j: continue
            # leg i gives (k_i - q, q), leg j gives (k_j + q, -q), third leg their sum
            l = 3 - i - j
            u, v = ks[i] - q, ks[j] + q
            sel = (n(u) > absq) & (n(v) > absq)
            margin = np.minimum(margin, np.minimum(np.abs(n(u) / absq - 1), np.abs(n(v) / absq - 1)).astype('f8'))
            b222 = b222 + np.where(sel, F2v(fs[i], u, q) * F2v(fs[j], v, -q) * F2v(fs[l], u, v) * P(u) * Pq * P(v), 0)
    for i in range(3):
        # leg i at second order (k_i -+ q, +-q), one of the others at third order, the last linear
        for sgn in (1, -1):
            u, s = ks[i] - sgn * q, sgn * q
            sel = n(u) > absq
            for j in range(3):
                if j == i: continue
                l = 3 - i - j
                # leg j third order: k_l, u, s
                b321 = b321 + np.where(sel, F3sym(fs[j], ks[l], u, s) * F2v(fs[i], u, s) * P(u) * Pq * P(ks[l]), 0)
    return 4 * b222 / (2 * PI.astype(T))**3, 6 * b321 / (2 * PI.astype(T))**3, margin


def A_II_III_integrand(spec, cfg, k, xx, T=LD):
    """(n,5) -> (12, n), margin"""
    pr = cfg['A_2loop_II_III_q']
    lo, hi = pr['min'], pr['max']
    if lo <= 0 or hi <= 0: lo, hi = spec.k[0], spec.k[-1]
    pi = PI.astype(T)
    l0, l1 = np.log(T(lo)), np.log(T(hi))
    xx = np.asarray(xx, dtype=T)
    p = np.exp(l0 + (l1 - l0) * xx[:, 0])
    x = p / T(k)
    mu = -1 + 2 * xx[:, 1]
    q = np.exp(l0 + (l1 - l0) * xx[:, 2])
    th, ph = pi * xx[:, 3], 2 * pi * xx[:, 4]
    Pv = p[:, None] * np.stack([np.sqrt(np.maximum(1 - mu * mu, 0)), 0 * mu, mu], -1)
    Qv = q[:, None] * np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], -1)
    kv = np.array([0, 0, k], dtype=T)
    KP = kv - Pv
    okk = np.zeros_like(Pv) - kv
    kp = np.sqrt(dot(KP, KP))
    uv, m = cfg.uv['bispectrum_1loop'], cfg['bispectrum_1loop_pk_lin']['interpol']
    e = (T(k)**2 * spec.sigmad2(T(k), uv, T) + p * p * spec.sigmad2(p, uv, T) + kp * kp * spec.sigmad2(kp, uv, T)) / 2
    inside = (mu <= 0.5 / x) & (e < 100)
    margin = np.minimum(np.abs(mu * x - 0.5), np.abs(e / 100 - 1)).astype('f8')
    fac = np.exp(-e) * x * q**3 * np.sin(th) * ((l1 - l0) * 2 * pi)**2
    b = []
    for first, second in ((Pv, KP), (KP, Pv)):
        for f2, f3 in ((D, D), (TH, D), (D, TH), (TH, TH)):
            b2, b3, mg = bispectrum_II_III(spec, m, first, second, okk, Qv, TH, f2, f3, T)
            margin = np.minimum(margin, mg)
            b.append(b2 + b3)
    A, tA = projection_A(x, mu)
    idx = [0, 1, 1, 2, 3, 3]
    f = [A[i] * b[idx[i]] * fac for i in range(6)] + [tA[i] * b[4 + idx[i]] * fac for i in range(6)]
    return np.array([np.where(inside, v, 0) for v in f]), margin


# ------------------------------------------------------------------ B terms
def B_kernels(x, mu):
    """Taruya et al. 2010, appendix B: 12 kernels, (fields of |k-q|, q), power of 1/(1+x^2-2 mu x) beyond the first."""
    m2, m4 = mu * mu, mu**4
    K = [x**2 * (m2 - 1) / 2, 3 * x**2 * (m2 - 1)**2 / 8, 3 * x**4 * (m2 - 1)**2 / 8, 5 * x**4 * (m2 - 1)**3 / 16,
         x * (x + 2 * mu - 3 * x * m2) / 2, -3 * x * (m2 - 1) * (-x - 2 * mu + 5 * x * m2) / 4,
         3 * x**2 * (m2 - 1) * (-2 + x**2 + 6 * x * mu - 5 * x**2 * m2) / 4,
         -3 * x**2 * (m2 - 1)**2 * (6 - 5 * x**2 - 30 * x * mu + 35 * x**2 * m2) / 16,
         x * (4 * mu * (3 - 5 * m2) + x * (3 - 30 * m2 + 35 * m4)) / 8,
         x * (-8 * mu + x * (-12 + 36 * m2 + 12 * x * mu * (3 - 5 * m2) + x**2 * (3 - 30 * m2 + 35 * m4))) / 8,
         3 * x * (m2 - 1) * (-8 * mu + x * (-12 + 60 * m2 + 20 * x * mu * (3 - 7 * m2) + 5 * x**2 * (1 - 14 * m2 + 21 * m4))) / 16,
         x * (8 * mu * (-3 + 5 * m2) - 6 * x * (3 - 30 * m2 + 35 * m4) + 6 * x**2 * mu * (15 - 70 * m2 + 63 * m4) + x**3 * (5 - 21 * m2 * (5 - 15 * m2 + 11 * m4))) / 16]
    fields = ['dd', 'dt', 'td', 'tt', 'dd', 'dt', 'td', 'tt', 'dt', 'td', 'tt', 'tt']  # (kq, q): d -> delta-theta, t -> theta-theta
    return K, fields


B_COMB = [[(0, 1)], [(1, -1), (2, -1)], [(3, 1)], [(4, 1)], [(5, -1), (6, -1)], [(7, 1)], [(8, -1), (9, -1)], [(10, 1)], [(11, 1)]]


def B_terms(spec, cfg, k, pk_dt=None, pk_tt=None):
    """pk_dt, pk_tt: Spec; linear if not given."""
    out = _common(spec, cfg, k, 'B_pk_lin', 'B')
    sd, st = pk_dt or spec, pk_tt or spec
    G = {T: Grid(spec, cfg['B_q'], T) for T in (LD, np.float64)}
    m = cfg['B_mu']['interpol']

    def terms(kk, T):
        g = G[T]
        x = g.q / T(kk)
        ok, mu, w = mu_nodes(x, x[0], x[-1], cfg['B_mu']['n'], True, T)
        X, mu, w, q = x[ok][:, None], mu[ok], w[ok], g.q[ok]
        xmu = 1 + X**2 - 2 * mu * X
        kq = T(kk) * np.sqrt(xmu)
        P = {'d': (sd.find(kq, m, T), sd.find(q, m, T)[:, None]), 't': (st.find(kq, m, T), st.find(q, m, T)[:, None])}
        K, fields = B_kernels(X, mu)
        wt = w * X * g.w[ok][:, None] * T(kk)**3 / (2 * PI.astype(T)**2) / xmu
        c = [Ki * P[f[0]][0] * P[f[1]][1] * wt / (xmu if f[0] == 't' else 1) for Ki, f in zip(K, fields)]
        return [np.stack([s * c[i] for i, s in comb]) for comb in B_COMB]
    out['pk'] = [both_c(lambda T: terms(kk, T)) for kk in k]
    return out


# ------------------------------------------------------------------ bias terms
def bias_1loop(spec, cfg, k):
    out = _common(spec, cfg, k, 'bias_1loop_pk_lin', 'bias_1loop')
    G = {T: Grid(spec, cfg['bias_1loop_q'], T) for T in (LD, np.float64)}
    names = ['pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
    for n in names: out[n] = []

    def terms(kk, T):
        g = G[T]
        x = g.q / T(kk)
        res = []
        for half in (True, False):
            ok, mu, w = mu_nodes(x, x[0], x[-1], cfg['bias_1loop_mu']['n'], half, T)
            X, mu, w = x[ok][:, None], mu[ok], w[ok]
            q, pq = g.q[ok][:, None], g.pk[ok][:, None]
            kq = T(kk) * np.sqrt(1 + X**2 - 2 * mu * X)
            pkq = spec.find(kq, cfg['bias_1loop_mu']['interpol'], T)
            c = (T(kk)**2 - kq**2 - q**2) / (2 * q * kq)
            S2 = c * c - T(1) / 3
            wt = w * X**3 * g.w[ok][:, None] * T(kk)**3 / (4 * PI.astype(T)**2)
            if half:
                f = {a: F2(a, q * q + 0 * kq, kq * kq, c * q * kq) for a in (D, TH)}
                res += [2 * wt * pq * pkq * f[D], 2 * wt * pq * pkq * f[D] * S2, 2 * wt * pq * pkq * f[TH], 2 * wt * pq * pkq * f[TH] * S2]
            else:
                res += [np.stack([wt * pq * pkq / 2, -wt * pq * pq / 2]), np.stack([wt * pq * pkq * S2 / 2, -wt * pq * pq / 3]),
                        np.stack([wt * pq * pkq * S2 * S2 / 2, -wt * pq * pq * 2 / 9]),
                        np.stack([wt * pq * (mu * mu - 1) * S2 * 2 / 7 * 105 / 16, wt * pq * 105 / 16 * 8 / 63])]
        return res
    for kk in k:
        for n, v in zip(names, both_c(lambda T: terms(kk, T))): out[n].append(v)
    return out


# ------------------------------------------------------------------ assembled spectra
def pk_1loop(t, Dg=1., sigmad2=None):
    f = 0.5 * (t['k'] * Dg)**2 * (t['sigmad2'] if sigmad2 is None else sigmad2)
    g = [Dg * np.exp(-f) * (1 + f + Dg**2 * t[n]) for n in ('gamma1a_1loop', 'gamma1b_1loop')]
    return g[0] * g[1] * t['pk_lin'] + Dg**4 * np.exp(-2 * f) * t['pk_gamma2_tree_tree']


def pk_2loop(t, Dg=1., sigmad2=None):
    f = 0.5 * (t['k'] * Dg)**2 * (t['sigmad2'] if sigmad2 is None else sigmad2)
    g = [Dg * np.exp(-f) * (1 + f + f**2 / 2 + Dg**2 * t['gamma1{}_1loop'.format(s)] * (1 + f) + Dg**4 * t['gamma1{}_2loop'.format(s)]) for s in 'ab']
    return g[0] * g[1] * t['pk_lin'] + np.exp(-2 * f) * (Dg**4 * (t['pk_gamma2_tree_tree'] * (1 + f)**2 + Dg**2 * t['pk_gamma2_tree_1loop'] * (1 + f) + Dg**4 * t['pk_gamma2_1loop_1loop'])
                                                         + Dg**6 * t['pk_gamma3_tree'])
