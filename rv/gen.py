"""Random inputs: linear spectra, wavenumbers, settings."""
import numpy as np
from . import model


def eh(k, h=0.68, om=0.14, ob=0.022, ns=0.96, wiggle=0.):
    """Smooth cold dark matter shape (BBKS-like), with optional oscillations."""
    q = k / (om / h)
    T = np.log(1 + 2.34 * q) / (2.34 * q) * (1 + 3.89 * q + (16.1 * q)**2 + (5.46 * q)**3 + (6.71 * q)**4)**-0.25
    p = k**ns * T**2
    if wiggle: p = p * (1 + wiggle * np.sin(k * 105.) * np.exp(-(k * 8.)**1.4))
    return p


def table(rng, n=None, lo=None, hi=None, jitter=None):
    n = n or int(rng.integers(20, 400))
    lo = lo or 10**rng.uniform(-4.5, -3.3)
    hi = hi or 10**rng.uniform(0.6, 1.5)
    t = np.linspace(0, 1, n)
    if jitter is None: jitter = rng.choice([0., 0.3, 0.8])
    if n > 2: t[1:-1] += rng.uniform(-0.45, 0.45, n - 2) * jitter / (n - 1)
    k = lo * (hi / lo)**t
    k[0], k[-1] = lo, hi
    return k


def spectrum(rng, kind=None, k=None, amp=None):
    """Positive linear spectrum (k, pk)."""
    kind = kind or rng.choice(['cdm', 'cdm', 'wiggle', 'power', 'broken', 'noisy'])
    if k is None: k = table(rng)
    if kind == 'cdm': p = eh(k, h=rng.uniform(0.5, 0.9), om=rng.uniform(0.05, 0.3), ns=rng.uniform(0.8, 1.1))
    elif kind == 'wiggle': p = eh(k, om=rng.uniform(0.1, 0.2), wiggle=rng.uniform(0.02, 0.3))
    elif kind == 'power': p = k**rng.uniform(-2.8, 1.)
    elif kind == 'broken':
        kb = 10**rng.uniform(-2.5, 0)
        p = (k / kb)**rng.uniform(0, 1.5) / (1 + (k / kb)**rng.uniform(2, 4))
    else: p = eh(k) * np.exp(rng.normal(0, 0.2, len(k)))
    # normalise: amplitude of the dispersion around the one of our Universe
    amp = amp or 10**rng.uniform(-1, 0.7)
    k0 = np.clip(0.1, k[0], k[-1])
    p = p / np.exp(np.interp(np.log(k0), np.log(k), np.log(p))) * 6000. * amp
    return k, p, kind


def wavenumbers(rng, k, n, where='in'):
    """n wavenumbers: log-uniform inside of the table, at its points, near its edges, outside of it."""
    lo, hi = np.log(k[0]), np.log(k[-1])
    if where == 'in': return np.exp(rng.uniform(np.log(max(k[0], 1e-3)), np.log(min(k[-1], 2.)), n))
    out = np.exp(rng.uniform(lo, hi, n))
    c = rng.integers(0, 6, n)
    out = np.where(c == 0, rng.choice(k, n), out)
    out = np.where(c == 1, rng.choice([k[0], k[-1], k[1], k[-2]], n), out)
    out = np.where(c == 2, np.exp(rng.uniform(lo - 3, lo, n)), out)
    out = np.where(c == 3, np.exp(rng.uniform(hi, hi + 3, n)), out)
    out = np.where(c == 4, rng.choice(k, n) * (1 + rng.choice([1e-15, -1e-15, 1e-9, -1e-9], n)), out)
    return out


def qrange(rng, k):
    """Integration range inside, around or outside of the table, or the one of the table (a bound that is not positive)."""
    c = rng.integers(0, 5)
    if c == 0: return [(-1., -1.), (0., 0.), (-1., 2.), (0., 5.), (-2., 0.)][rng.integers(0, 5)] if rng.random() < 0.6 else (-1., -1.)
    if c == 1: return 5e-4, 10.
    lo = 10**rng.uniform(-4, -2)
    hi = 10**rng.uniform(-0.3, 1.5)
    return float(lo), float(hi)


CLASSES = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop']
NEEDS = {'Spectrum1Loop': ['gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu'],
         'Spectrum2Loop': ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_tree_mu', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q'],
         'Bias1Loop': ['bias_1loop_q', 'bias_1loop_mu'], 'A1Loop': ['A_1loop_q', 'A_1loop_mu'],
         'A2Loop': ['A_2loop_I_q', 'A_2loop_I_mu', 'A_2loop_II_III_q', 'gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'],
         'B1Loop': ['B_q', 'B_mu'], 'B2Loop': ['B_q', 'B_mu', 'gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu']}


def large_precision(rng, names, name=None, top=None):
    """Settings with many nodes for one calculation, few for the others."""
    out = small_precision(rng, names, 4)
    name = name or str(rng.choice([n for n in names if n not in model.MC]))
    top = top or (400 if 'mu' in name else 500 if name == 'gamma1_2loop_q' else 4000)
    return [dict(d, n=int(np.exp(rng.uniform(np.log(top / 10.), np.log(top))))) if d['calculation'] == name else d for d in out]


def small_precision(rng, names, nmax=40, k=None, interpol=True, same_range=False):
    """Settings [(calculation, n, min, max, interpol)] with few nodes."""
    out = []
    rg = qrange(rng, k) if k is not None else None
    for name in names:
        d = dict(calculation=name, interpol=str(rng.choice(['poly', 'lin'])) if interpol else 'poly')
        if name not in model.MC: d['n'] = int(rng.integers(2, max(3, nmax if 'mu' not in name else min(nmax, 20))))
        if name not in model.MU and k is not None:
            r = rg if same_range else qrange(rng, k)
            d['min'], d['max'] = r
        out.append(d)
    return out
