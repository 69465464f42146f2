"""Angular average of the fourth-order kernel from the recursion relations of perturbation theory: independent of the closed forms of the library."""
import itertools
import numpy as np
from .model import dot


def kernels(V):
    """Symmetrised kernels of the vectors V; V[0] = -V[1], whose pair carries no momentum."""
    cache = {}

    def zero(idx):
        return set(idx) == {0, 1}

    def sym(idx):
        idx = tuple(sorted(idx))
        if idx in cache: return cache[idx]
        m = len(idx)
        if m == 1: r = (np.ones(V[0].shape[:-1]),) * 2
        elif zero(idx): r = (np.zeros(V[0].shape[:-1]),) * 2
        else:
            F, G = 0, 0
            for j in range(1, m):
                F_, G_, n = 0, 0, 0
                for sub in itertools.combinations(idx, j):
                    rest = tuple(i for i in idx if i not in sub)
                    n += 1
                    if zero(sub) or zero(rest): continue
                    Fs, Gs = sym(sub)
                    Fr, Gr = sym(rest)
                    k1, k2 = sum(V[i] for i in sub), sum(V[i] for i in rest)
                    kk, k11, k22, d = dot(k1 + k2, k1 + k2), dot(k1, k1), dot(k2, k2), dot(k1, k2)
                    al, be = 1 + d / k11, kk * d / (2 * k11 * k22)
                    F_ = F_ + Gs * ((2 * m + 1) * al * Fr + 2 * be * Gr)
                    G_ = G_ + Gs * (3 * al * Fr + 2 * m * be * Gr)
                F, G = F + F_ / n, G + G_ / n
            den = (2 * m + 3) * (m - 1)
            r = (F / den, G / den)
        cache[idx] = r
        return r
    return sym


def gamma2(k1, k2, k3, q, nmu=200, nph=64):
    """6 times the integral of F4(q, -q, k1, k2) over the directions of q, for the two fields; |k1 + k2| = k3."""
    c = np.clip((k3 * k3 - k1 * k1 - k2 * k2) / (2 * k1 * k2), -1, 1)
    mu, w = np.polynomial.legendre.leggauss(nmu)
    ph = (np.arange(nph) + .5) * 2 * np.pi / nph
    s = np.sqrt(1 - mu**2)
    qv = q * np.stack([s[:, None] * np.cos(ph), s[:, None] * np.sin(ph), mu[:, None] + 0 * ph], -1)
    v1, v2 = np.zeros_like(qv), np.zeros_like(qv)
    v1[..., 2] = k1
    v2[..., 2], v2[..., 0] = k2 * c, k2 * np.sqrt(max(0, 1 - c * c))
    F, G = kernels([qv, -qv, v1, v2])((0, 1, 2, 3))
    wt = w[:, None] * 2 * np.pi / nph
    return 6 * (F * wt).sum(), 6 * (G * wt).sum()
