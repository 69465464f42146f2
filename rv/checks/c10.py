"""One-loop spectrum terms against their integrals."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms

job = terms.compare


def average_F3(a, x, n=200):
    """Angular average of the symmetrised third-order kernel F_a(k, q, -q) at q = x k, by quadrature (no closed form)."""
    mu, w = model.gauss_legendre(n, np.longdouble)
    out = []
    for xx in x:
        T = np.longdouble
        q = T(xx) * np.stack([np.sqrt(1 - mu * mu), 0 * mu, mu], -1)
        k = np.zeros_like(q)
        k[:, 2] = 1
        # the (q,-q) pair has no total momentum: approach by a tiny offset is not needed, its kernel vanishes; keep the two other orders
        out.append(float(np.sum(w * F3_kqmq(a, k, q)) / 2))
    return np.array(out)


def F3_kqmq(a, k, q):
    """Limit of F3sym(k, q, -q): the term where q and -q couple first vanishes (their kernel is zero), as well as beta for zero total momentum."""
    def one(p, q, r):
        s = q + r
        kk = model.dot(p + s, p + s)
        pp, ss, ps = model.dot(p, p), model.dot(s, s), model.dot(p, s)
        F2d, F2t = [model.F2(f, model.dot(q, q), model.dot(r, r), model.dot(q, r)) for f in (model.D, model.TH)]
        al1, al2, be = 1 + ps / pp, 1 + ps / ss, kk * ps / (2 * pp * ss)
        if a == model.D: return (7 * al1 * F2d + 2 * be * F2t + F2t * (7 * al2 + 2 * be)) / 18
        return (3 * al1 * F2d + 6 * be * F2t + F2t * (3 * al2 + 6 * be)) / 18
    return (one(q, k, -q) + one(-q, k, q)) / 3


def pointwise(k, pk, q, kout, a, b, nthreads):
    """Job: a single node at q, so that each column gives the kernel at one point; against the closed form and against the angular average of F3."""
    rep = Report()
    L = 1e-3
    ops = [('set_precision', dict(calculation='gamma1_1loop_q', n=1, min=q * np.exp(-L / 2), max=q * np.exp(L / 2), interpol='poly')),
           ('set_precision', dict(calculation='gamma2_tree_q', n=2, min=q / 2, max=2 * q, interpol='poly'))]
    got = jobs.calc(k, pk, 'Spectrum1Loop', kout, ops, dict(a=a, b=b), nthreads)
    cfg, spec = terms.config(ops), model.Spec(k, pk)
    rep.columns(got, model.spectrum_1loop(spec, cfg, kout, a, b))
    terms.coverage(rep, 'Spectrum1Loop', cfg, spec, kout)
    g = model.Grid(spec, cfg['gamma1_1loop_q'], np.float64)
    x = g.q[0] / kout
    for f, name in ((a, 'gamma1a_1loop'), (b, 'gamma1b_1loop')):
        # q^3 P(q) 4 pi / (2 pi)^3 3 <F3>
        ref = average_F3(f, x) * 3 * g.q[0]**3 * g.pk[0] * g.w[0] / (2 * np.pi**2)
        rel = np.where(np.abs(x - 1) < 0.0101, 3e-5, np.where(x > 9.9, 2e-5, 2e-6))
        rep.close('F3_average:' + name, got[name], ref, rel * np.abs(ref) + 1e-7 * g.q[0]**3 * g.pk[0] * g.w[0] / (2 * np.pi**2))
    rep.sig = [(a, b, q, float(kk)) for kk in kout]
    return rep


def run(ctx):
    rng = ctx.rng
    cases = [terms.case(rng, 'Spectrum1Loop', nk=4, nmax=40, where=['in', 'in', 'hostile'][i % 3], before=0.3) for i in range(ctx.n(160, 2500))]
    cases += [terms.case(rng, 'Spectrum1Loop', nk=2, default=True) for i in range(ctx.n(6, 40))]
    cases += [terms.large(rng, 'Spectrum1Loop') for i in range(ctx.n(24, 240))]
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    cases = []
    for i in range(ctx.n(12, 100)):
        k, pk, kind = gen.spectrum(rng)
        q = float(10**rng.uniform(-2, 0.3))
        x = np.concatenate([10**rng.uniform(-2, 0.9, 14), 1 + rng.uniform(-0.012, 0.012, 12), 1 + 10**rng.uniform(-6, -2, 6), 10**rng.uniform(0.95, 2, 12), [1., 0.9899, 0.9901, 1.0099, 1.0101, 9.999, 10.001, 0.5, 2.]])
        cases.append(dict(k=k, pk=pk, q=q, kout=q / rng.permutation(x), nthreads=2, **terms.fields(rng)))
    collect(ctx, ctx.run('plain', 'pointwise', cases), cases, 'pointwise')
    ctx.rule = ('random positive spectra (cold dark matter, oscillating, power laws, noisy tables), field pairs, node counts, ranges and interpolation modes; wavenumbers inside, at points, at edges and outside of the '
                'table; each column compared with the reference quadrature in extended precision, and single-node runs with the kernel in each of its regimes and with the angular average of F3; one distinct case = one (spectrum, settings, fields, k)')
    ctx.assumptions = ['reference model rv/model.py', 'Gauss-Legendre order and range of each setting as documented (property C17)']
