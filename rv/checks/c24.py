"""Field symmetry, positivity of auto terms, Cauchy-Schwarz."""
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import terms

D, T = 'delta', 'theta'


def geo(x, y):
    """Geometric mean of the magnitudes."""
    return np.sqrt(np.abs(x)) * np.sqrt(np.abs(y))


def job(k, pk, cls, kout, ops, points, lin):
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)

    def calc(a, b):
        x = jobs.new(cls)
        x.set_pk_lin(k, pk)
        x.set_terms(np.array(kout))
        x.run_terms(a, b, nthreads=2)
        return dict(jobs.columns(x), pk=x.pk(), pk2=x.pk(0.7, 3.), pklin=x.pk_lin() if hasattr(x, 'pk_lin') else x['pk_lin'])

    t = {(a, b): calc(a, b) for a in (D, T) for b in (D, T)}
    two = cls == 'Spectrum2Loop'
    squares = ['pk_gamma2_tree_tree'] + (['pk_gamma2_1loop_1loop', 'pk_gamma3_tree'] if two else [])
    small = {}
    for n in t[D, D]:
        if n.startswith('gamma1a'): small[n] = 1e-12 * (np.abs(t[D, D][n]) + np.abs(t[T, T][n]))
        elif n in squares: small[n] = 1e-11 * geo(t[D, D][n], t[T, T][n])
    if two:
        small['pk_gamma2_tree_1loop'] = 2e-11 * sum(geo(t[x, x]['pk_gamma2_tree_tree'], t[y, y]['pk_gamma2_1loop_1loop']) for x, y in ((D, T), (T, D)))
    st, ts = t[D, T], t[T, D]

    def near(label, x, y, tol, key):
        both = (x == y) | (np.isnan(x) & np.isnan(y))
        rep.close(label, np.where(both, 0., x), np.where(both, 0., y), np.where(np.isfinite(tol), tol, 0.), key)

    for n in st:
        if n in ('pk', 'pk2'):
            e = np.exp(-0.5 * kout**2 * st['sigmad2']) if n == 'pk' else np.exp(-0.5 * 0.49 * kout**2 * 3.)
            near('{} {} of (theta, delta) against (delta, theta)'.format(cls, n), ts[n], st[n], 1e-9 * (np.abs(st[n]) + geo(t[D, D][n], t[T, T][n]) + 1e-3 * e**2 * np.abs(st['pk_lin'])), 'symmetry_pk')
        elif n.startswith('gamma1'):
            m = n.replace('gamma1a', 'gamma1x').replace('gamma1b', 'gamma1a').replace('gamma1x', 'gamma1b')
            tol = small[n.replace('gamma1b', 'gamma1a')]
            near('{} {} of (theta, delta) against {} of (delta, theta)'.format(cls, n, m), ts[n], st[m], tol, 'symmetry_' + n)
            # the propagator of a field is the same whatever the other field
            near('{} {} of (delta, theta) against the one of its field alone'.format(cls, n), st[n], t[D, D][n] if 'gamma1a' in n else t[T, T][n], tol, 'symmetry_' + n)
            near('{} {} of the auto spectra'.format(cls, n), t[D, D][n], t[D, D][m], tol, 'symmetry_' + n)
            near('{} {} of the auto spectra'.format(cls, n), t[T, T][n], t[T, T][m], tol, 'symmetry_' + n)
        else:
            near('{} {} of (theta, delta) against (delta, theta)'.format(cls, n), ts[n], st[n], small.get(n, 1e-12 * np.abs(st[n])), 'symmetry_' + n)
    for n in ('pk_lin', 'sigmad2', 'pklin'):
        for x in t: near('{} {} of {}'.format(cls, n, x), t[x][n], st[n], 0 * st[n], 'fields_' + n)
    if lin:  # the interpolated spectrum is positive everywhere
        for n in squares:
            for x in (D, T): rep.true('positive', np.all(t[x, x][n] >= 0), '{} {} of ({}, {}) is {} at k={}'.format(cls, n, x, x, t[x, x][n].min(), kout[np.argmin(t[x, x][n])]), key='positive_' + n)
            lhs, rhs = np.abs(st[n]), geo(t[D, D][n], t[T, T][n])
            ok = lhs <= rhs * (1 + 1e-9)
            rep.true('cauchy', np.all(ok), '{} {} of (delta, theta) is {} for {} at most, at k={}'.format(cls, n, lhs[~ok][:1], rhs[~ok][:1], kout[~ok][:1]), key='cauchy_' + n)
            with np.errstate(all='ignore'): rep.count('cross_terms_within_10_percent_of_the_bound', np.sum(lhs > 0.9 * rhs))
            rep.count('positive_values', 2 * lhs.size)
        if two:
            for x in (D, T):
                lhs, rhs = np.abs(t[x, x]['pk_gamma2_tree_1loop']), 2 * geo(t[x, x]['pk_gamma2_tree_tree'], t[x, x]['pk_gamma2_1loop_1loop'])
                ok = lhs <= rhs * (1 + 1e-9)
                rep.true('cauchy', np.all(ok), '{} pk_gamma2_tree_1loop of ({}, {}) is {} for {} at most, at k={}'.format(cls, x, x, lhs[~ok][:1], rhs[~ok][:1], kout[~ok][:1]), key='cauchy_tree_1loop')
            n = 'pk_gamma2_tree_1loop'
            rhs = sum(geo(t[x, x]['pk_gamma2_tree_tree'], t[y, y]['pk_gamma2_1loop_1loop']) for x, y in ((D, T), (T, D)))
            rep.true('cauchy', np.all(np.abs(st[n]) <= rhs * (1 + 1e-9)), '{} {} of (delta, theta) exceeds its bound'.format(cls, n), key='cauchy_tree_1loop')
        # the assembled auto spectra are sums of positive pieces at one loop
        if not two:
            for x in (D, T): rep.true('positive', np.all(t[x, x]['pk'] >= 0) and np.all(t[x, x]['pk2'] >= 0), '{} pk of ({}, {}) is negative'.format(cls, x, x), key='positive_pk')
            ok = np.abs(st['pk']) <= geo(t[D, D]['pk'], t[T, T]['pk']) * (1 + 1e-9) + 1e-300
            rep.true('cauchy', np.all(ok), '{} pk of (delta, theta) is {} for {} at most, at k={}'.format(cls, st['pk'][~ok][:1], geo(t[D, D]['pk'], t[T, T]['pk'])[~ok][:1], kout[~ok][:1]), key='cauchy_pk')
    rep.sig = [(cls, float(kk), repr(ops), float(pk[0])) for kk in kout]
    return rep


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(200, 3000)):
        cls = 'Spectrum2Loop' if i % 2 else 'Spectrum1Loop'
        k, pk, kind = gen.spectrum(rng)
        lin = i % 3 != 0
        ops = [('set_precision', d) for d in gen.small_precision(rng, model.Q + model.MC + model.MU, 30 if cls == 'Spectrum1Loop' else 8, k)]
        if lin: ops = [(n, dict(d, interpol='lin')) for n, d in ops] + [('set_precision', dict(calculation='all_pklin', interpol='lin'))]
        ops.append(('set_running_uvcutoff', dict(calculation='all', uvcutoff=float(rng.uniform(0.1, 1.5)))))
        cases.append(dict(k=k, pk=pk, cls=cls, kout=gen.wavenumbers(rng, k, 4 if cls == 'Spectrum2Loop' else 10, 'in' if i % 5 else 'hostile'), ops=ops, points=150, lin=lin))
    collect(ctx, ctx.run('plain', 'job', cases), cases, 'job')
    ctx.rule = ('the four pairs of fields of both spectra at random positive spectra, settings and wavenumbers; columns of (theta, delta) against those of (delta, theta) with propagators exchanged, propagators against those of their field alone; with linear interpolation '
                '(positive everywhere) signs of the auto terms and Cauchy-Schwarz bounds, which hold exactly for quadratures with positive weights; one distinct case = one k of one setting')
    ctx.assumptions = ['the two-loop spectrum is not a sum of squares, so only its terms are bounded']
