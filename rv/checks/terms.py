"""Shared by the checks of the perturbation-theory integrals: cases and the job comparing the real terms with the reference model."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report

MODEL = {'Spectrum1Loop': model.spectrum_1loop, 'Spectrum2Loop': model.spectrum_2loop, 'Bias1Loop': model.bias_1loop, 'A1Loop': model.A_1loop,
         'A2Loop': model.A_2loop_I, 'B1Loop': model.B_terms}
UVNAME = {'Spectrum1Loop': 'spectrum_1loop', 'Spectrum2Loop': 'spectrum_2loop', 'Bias1Loop': 'bias_1loop', 'A1Loop': 'A_1loop', 'A2Loop': 'A_2loop', 'B1Loop': 'B', 'B2Loop': 'B'}
PKNAME = {c: n + '_pk_lin' for c, n in UVNAME.items()}


def config(ops):
    cfg = model.Cfg()
    for name, kw in ops: getattr(cfg, name)(**kw)
    return cfg


def fields(rng):
    return dict(a=str(rng.choice(['delta', 'theta'])), b=str(rng.choice(['delta', 'theta'])))


def case(rng, cls, nk=3, nmax=40, where='in', default=False, table=None, extra=(), before=0., narrow=0.12):
    first = case(rng, cls if rng.random() < 0.6 else str(rng.choice(gen.CLASSES)), nk, min(nmax, 8), where) if rng.random() < before else None
    k, pk, kind = gen.spectrum(rng, k=table)
    ops = []
    if not default:
        ops = [('set_precision', d) for d in gen.small_precision(rng, gen.NEEDS[cls], nmax, k)]
    if rng.random() < 0.4: ops.append(('set_running_uvcutoff', dict(calculation=UVNAME[cls], uvcutoff=float(rng.uniform(0.1, 1.5)))))
    if rng.random() < 0.4: ops.append(('set_precision', dict(calculation=PKNAME[cls], interpol=str(rng.choice(['poly', 'lin'])))))
    if cls == 'A2Loop' and rng.random() < 0.4: ops.append(('set_precision', dict(calculation='bispectrum_1loop_pk_lin', interpol=str(rng.choice(['poly', 'lin'])))))
    if cls == 'A2Loop' and rng.random() < 0.4: ops.append(('set_running_uvcutoff', dict(calculation='bispectrum_1loop', uvcutoff=float(rng.uniform(0.1, 1.5)))))
    args = fields(rng) if cls.startswith('Spectrum') else {}
    kout = gen.wavenumbers(rng, k, nk, where)
    if rng.random() < narrow: close_nodes(rng, ops, kout)
    out = dict(k=k, pk=pk, cls=cls, kout=kout, ops=ops + list(extra), args=args, nthreads=int(rng.integers(1, 4)))
    if first is not None:
        if rng.random() < 0.5: first.update(k=k, pk=pk)  # the same spectrum, by the same instance half of the time
        if rng.random() < 0.3: first.update(kout=kout)
        out['before'] = dict(first, same=bool(rng.random() < 0.6))
    return out


def close_nodes(rng, ops, kout, at=(1., 1., 1., 0.5, 2., 10., 1e-2, 1e2, 1e-4), widths=(-6, -0.5)):
    """Brings all nodes close to a wavenumber, or to a multiple of it at which the kernels change of expression."""
    kk = float(rng.choice(kout) * rng.choice(at))
    w = 10**rng.uniform(widths[0], widths[1], 2) if rng.random() < 0.5 else 10**rng.uniform(*widths) * np.ones(2)
    for name, d in ops:
        if 'min' in d and d['calculation'] not in model.MC: d['min'], d['max'] = kk * float(np.exp(-w[0])), kk * float(np.exp(w[1]))


def large(rng, cls, what=None):
    """A case with many nodes, a large table or many wavenumbers."""
    what = what or str(rng.choice(['nodes', 'nodes', 'table', 'wavenumbers']))
    c = case(rng, cls, nk=int(rng.integers(40, 130)) if what == 'wavenumbers' else 2, nmax=5, where=str(rng.choice(['in', 'hostile'])), table=gen.table(rng, n=int(10**rng.uniform(3.2, 4.5)), jitter=0.3) if what == 'table' else None)
    if what == 'nodes': c['ops'] = [('set_precision', d) for d in gen.large_precision(rng, gen.NEEDS[cls])]
    if what == 'wavenumbers': c['nthreads'] = int(rng.integers(1, 40))
    return c


def compare(k, pk, cls, kout, ops, args, nthreads, zero_mc=True, skip=(), before=None):
    """Job: terms of the library against the model."""
    rep = Report()
    got = jobs.calc(k, pk, cls, kout, ops, args, nthreads, hook=dict(points=np.zeros((0, 5)), ret=[0.]) if zero_mc else None, before=before)
    cfg, spec = config((before['ops'] if before else []) + ops), model.Spec(k, pk)
    if before: rep.count('jobs_after_another_calculation' + ('_of_the_instance' if before['same'] and before['cls'] == cls else ''))
    ref = MODEL[cls](spec, cfg, kout, **args)
    for n in skip: ref.pop(n, None)
    rep.true('k', np.array_equal(got['k'], np.asarray(kout, dtype='f8')), 'the column k is not the wavenumbers given')
    rep.columns(got, ref)
    coverage(rep, cls, cfg, spec, kout)
    rep.sig = [(cls, sorted(args.items()), float(kk), repr(ops), float(pk[0])) for kk in kout]
    return rep


def coverage(rep, cls, cfg, spec, kout):
    for kk in kout:
        if cls in ('Spectrum1Loop', 'Spectrum2Loop'):
            x = model.Grid(spec, cfg['gamma1_1loop_q'], np.float64).q / kk
            rep.count('nodes_gamma1_exact', np.sum((np.abs(x - 1) >= 0.01) & (x <= 10)))
            rep.count('nodes_gamma1_near_1', np.sum(np.abs(x - 1) < 0.01))
            rep.count('nodes_gamma1_large', np.sum(x > 10))
        names = {'Bias1Loop': ('bias_1loop_q', 'bias_1loop_mu'), 'A1Loop': ('A_1loop_q', 'A_1loop_mu'), 'A2Loop': ('A_2loop_I_q', 'A_2loop_I_mu'),
                 'B1Loop': ('B_q', 'B_mu')}.get(cls, ('gamma2_tree_q', 'gamma2_tree_mu'))
        x = model.Grid(spec, cfg[names[0]], np.float64).q / kk
        ok, mu, w = model.mu_nodes(x, x[0], x[-1], cfg[names[1]]['n'], True, np.float64)
        rep.count('triangles', mu[ok].size)
        rep.count('q_without_triangle', np.sum(~ok))
        rep.count('q_cut_by_symmetry', np.sum(ok & (x >= 0.5)))
        if cls == 'A1Loop':
            rep.count('nodes_a_small', np.sum(x < 1e-4))
            rep.count('nodes_a_large', np.sum(x > 1e2))
        if cls == 'Spectrum2Loop':
            q = (model.Grid(spec, cfg['gamma2_tree_q'], np.float64).q)[ok][:, None] + 0 * mu[ok]
            kq = kk * np.sqrt(1 + (q / kk)**2 - 2 * mu[ok] * q / kk)
            for f in 'dt':
                ql = model.Grid(spec, cfg['gamma2{}_1loop_q'.format(f)], np.float64).q
                r = model.regime_gamma2(kq[..., None], q[..., None], kk, ql)
                for i, n in enumerate(['degenerate_q', 'lowk', 'highk', 'k1_eq_k2', 'elongated', 'collapsed', 'exact']): rep.count('gamma2_regime_' + n, np.sum(r == i))
            g = model.Grid(spec, cfg['gamma1_2loop_q'], np.float64).q
            y = np.abs((g[:, None] - g) / (g[:, None] + g))
            rep.count('gamma1_2loop_beta_near1', np.sum(np.abs(1 - y) < 0.05))
            rep.count('gamma1_2loop_beta_small', np.sum(y < 0.01))
            rep.count('gamma1_2loop_beta_exact', np.sum((np.abs(1 - y) >= 0.05) & (y >= 0.01)))
