"""Gauss-Legendre nodes and weights."""
import numpy as np
from .. import jobs, model
from ..oracle import Report, collect

LD = np.longdouble


def job(ns, intervals):
    rep = Report()
    o = jobs.new('PyRegPT')
    for n, (a, b) in zip(ns, intervals):
        x, w = o.nodes_weights_gauss_legendre(a, b, n)
        L, m = b - a, max(abs(a), abs(b))
        rep.true('shape', x.shape == (n,) and w.shape == (n,), '{} {}'.format(x.shape, w.shape))
        rep.true('inside', np.all(x > a) and np.all(x < b), 'n={} [{}, {}]: nodes out of the interval'.format(n, a, b))
        rep.true('ascending', np.all(np.diff(x) > 0), 'n={}: nodes not ascending'.format(n))
        rep.true('positive', np.all(w > 0), 'n={}: weights not positive'.format(n))
        eps = 1e-13 * L + 4e-16 * m
        rep.close('symmetric nodes: n={}'.format(n), x + x[::-1], a + b, 10 * eps, key='symmetry')
        rep.close('symmetric weights: n={}'.format(n), w, w[::-1], 1e-9 * w, key='symmetry')
        rep.close('sum of weights: n={}'.format(n), np.sum(w), L, 1e-9 * L, key='sum')
        # exactness: all Legendre polynomials up to degree 2n-1
        t = (x.astype(LD) - LD(a)) / LD(L) * 2 - 1
        ww = w.astype(LD) / LD(L) * 2
        p1, p2 = np.ones(n, dtype=LD), np.zeros(n, dtype=LD)
        worst, deg = 0., 0
        for j in range(1, 2 * n):
            p1, p2 = ((2 * j - 1) * t * p1 - (j - 1) * p2) / j, p1
            s = abs(float(np.sum(ww * p1)))
            if s > worst: worst, deg = s, j
        # rounding of the nodes (relative to the interval) is amplified by the slope of the polynomials
        tol = 1e-10 * max(1, n / 100.) + 4e-16 * n * m / L * 20
        rep.close('exactness: n={}, degree {} on [{}, {}]'.format(n, deg, a, b), worst, 0., tol, key='exactness')
        z, wz = model.gauss_legendre(n)
        rep.close('nodes: n={}'.format(n), t.astype('f8'), z.astype('f8'), 1e-12 + 4e-15 * m / L, key='nodes')
        # the derivative of the polynomial is that of the last step but one of the iteration, which stops when steps are below 3e-14
        rep.close('weights: n={}'.format(n), ww.astype('f8'), wz.astype('f8'), wz.astype('f8') * (2e-9 + 2e-13 / (1 - z.astype('f8')**2)), key='weights')
        rep.sig.append((n, a, b))
        rep.count('polynomials_integrated', 2 * n)
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    top = ctx.n(260, 1200)
    ns = list(range(1, top)) + [int(v) for v in rng.integers(top, ctx.n(2600, 6000), ctx.n(24, 150))] + [300, 500, 600, 1000, 2000, 3000, 4096, 5001]
    iv = []
    for n in ns:
        c = rng.integers(0, 5)
        a = float(rng.choice([-1., rng.uniform(-10, 10), np.log(10**rng.uniform(-5, -2)), 0., 1e3 * rng.normal()]))
        iv.append((-1., 1.) if c == 0 else (a, a + float(10**rng.uniform(-2, 2))))
    for i in range(ctx.n(600, 6000)):
        n = int(rng.integers(1, 60))
        w = float(10**rng.uniform(-12, 12))
        a = w * float(rng.choice([-0.5, 0., rng.uniform(-1, 1), rng.normal() * 10**rng.uniform(0, 7 if n <= 10 else 4)]))
        ns.append(n)
        iv.append((a, a + w))
    for i in range(64): cases.append(dict(ns=ns[i::64], intervals=iv[i::64]))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    ctx.cov['node_counts'] = len(set(ns))
    ctx.rule = 'every number of nodes from 1 to {} and random ones beyond, on random intervals; all Legendre polynomials up to degree 2n-1 integrated; one distinct case = one (n, interval)'.format(top - 1)
