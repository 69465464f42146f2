"""Monte Carlo integrands and normalisations."""
import numpy as np
from .. import gen, jobs, model
from ..oracle import Report, collect
from . import terms


def ulp(rng, x, n=1e-15):
    return np.clip(x * (1 + rng.uniform(-n, n, x.shape)), 0, 1)


def integrand(k, pk, cls, kk, ops, args, points, seed, before=None):
    """Job: values of the integrand given to the integrator at each point, against the reference; value returned by the integrator against the column."""
    rep = Report()
    cfg, spec = terms.config((before['ops'] if before else []) + ops), model.Spec(k, pk)
    ret = 1.7
    got = jobs.calc(k, pk, cls, np.array([kk]), ops, args, 1, hook=dict(points=points, ret=[ret]), before=before)
    if before: rep.count('integrands_after_another_calculation')
    log = got['hook']
    if not rep.true('calls: integrator', len(log) == 1, 'called {} times for one wavenumber'.format(len(log))): return rep
    log = log[0]
    ncomp = 12 if cls == 'A2Loop' else 1
    if not rep.true('calls: dimensions', (log['ndim'], log['ncomp']) == (5, ncomp), 'integral of {} components in {} dimensions'.format(log['ncomp'], log['ndim'])): return rep
    f = (lambda x, T: model.A_II_III_integrand(spec, cfg, kk, x, T)) if cls == 'A2Loop' else (lambda x, T: [np.atleast_2d(v) if i == 0 else v for i, v in enumerate(model.gamma3_integrand(spec, cfg, kk, args['a'], args['b'], x, T))])
    with np.errstate(all='ignore'):
        ref, margin = f(points, model.LD)
        rng = np.random.default_rng(seed)
        noise = np.zeros(ref.shape)
        for i in range(4): noise = np.maximum(noise, np.abs(f(ulp(rng, points) if i else points, np.float64)[0] - ref).astype('f8'))
    ref = ref.astype('f8')
    vals = log['values'].T
    ok = margin > 1e-9
    size = np.abs(ref).max(axis=0)  # components of one point share their cancellations
    noise = noise.max(axis=0)
    err = np.abs(vals - ref)
    rep.true('integrand: finite', np.all(np.isfinite(vals)), 'not finite at {}'.format(points[~np.all(np.isfinite(vals), axis=0)][:1]))
    hard = 1e-4 * size + 1e3 * noise + 1e-290
    bad = ok & np.any(err > hard, axis=0)
    if bad.any():
        i = np.flatnonzero(bad)[0]
        rep.fail('integrand', 'integrand {} at {}: {} instead of {} ({} of {} points)'.format(cls, points[i].tolist(), vals[:, i], ref[:, i], bad.sum(), ok.sum()))
    soft = np.any(err[:, ok] > (1e-8 * size + 100 * noise + 1e-290)[ok], axis=0)
    rep.true('integrand: accuracy', soft.mean() < 0.05 if soft.size > 20 else True, '{} of {} points are off by more than 1e-8 and 100 times rounding'.format(soft.sum(), soft.size))
    rep.n += int(ok.sum())
    inside = np.any(ref != 0, axis=0)
    rep.count('points_inside_domain', inside.sum())
    rep.count('points_outside_domain', (~inside).sum())
    rep.count('points_at_the_border_not_judged', (~ok).sum())
    if ok.any(): rep.worst = float(np.nanmax(np.where(ok, err / hard, 0)))
    if cls != 'A2Loop':
        rep.close('normalisation: pk_gamma3_tree', got['pk_gamma3_tree'][0], ret * model.GAMMA3_NORM, 1e-9 * ret * model.GAMMA3_NORM)
    rep.sig = [(cls, kk, repr(ops), repr(args), float(pk[0]), i) for i in range(int(inside.sum()))]
    return rep


def integral(k, pk, kk, ops, a, b, n, seed):
    """Job: the column is the mean of the integrand over the sample times the normalisation, for any sample."""
    rep = Report()
    rng = np.random.default_rng(seed)
    pts = rng.uniform(size=(n, 5))
    got = jobs.calc(k, pk, 'Spectrum2Loop', np.array([kk]), ops, dict(a=a, b=b), 1, hook=dict(points=pts))
    v, m = model.gamma3_integrand(model.Spec(k, pk), terms.config(ops), kk, a, b, pts)
    want = float(np.mean(v)) * model.GAMMA3_NORM
    rep.close('integral: pk_gamma3_tree', got['pk_gamma3_tree'][0], want, 1e-5 * float(np.mean(np.abs(v))) * model.GAMMA3_NORM)
    rep.sig = [('mean', kk, a, b, repr(ops))]
    return rep


def together(k, pk, cls, kout, ops, args, nthreads, pts, ret):
    """Job: several wavenumbers in one go, each with its own integral; which integral belongs to which wavenumber is told by the values of the integrand at some points."""
    rep = Report()
    single = [jobs.calc(k, pk, cls, kout[i:i + 1], ops, args, 1, hook=dict(points=pts, ret=[0.])) for i in range(len(kout))]
    got = jobs.calc(k, pk, cls, kout, ops, args, nthreads, hook=dict(points=pts, ret=ret))
    log = got['hook']
    if not rep.true('together: calls', len(log) == len(kout) and all(len(s['hook']) == 1 for s in single), '{} integrals for {} wavenumbers'.format(len(log), len(kout))): return rep
    own = [s['hook'][0]['values'] for s in single]
    left = list(range(len(log)))
    column = 'pk' if cls == 'A2Loop' else 'pk_gamma3_tree'
    for i in range(len(kout)):
        scale = np.abs(own[i]).max()
        dist = [np.abs(log[j]['values'] - own[i]).max() for j in left]
        j = int(np.argmin(dist)) if left else -1
        if not rep.true('together: integrands', j >= 0 and dist[j] <= 1e-6 * scale + 1e-290, 'no integral of several has the integrand of k={} alone'.format(kout[i])): continue
        if sum(d <= 1e-6 * scale + 1e-290 for d in dist) > 1 and len(np.unique(kout)) == len(kout):  # not told apart
            rep.count('integrals_not_told_apart')
            continue
        r = log[left.pop(j)]['returned']
        a, b = single[i][column].ravel(), got[column].reshape(len(kout), -1)[i]
        if cls == 'A2Loop': want = np.array(model.combine_A(r)) * kout[i]**3 / (2 * np.pi**2)
        else: want = r * model.GAMMA3_NORM
        rep.close('together: Monte Carlo part of {}, wavenumber {} of {}'.format(cls, i, len(kout)), b - a, want, 1e-9 * (np.abs(want).max() + np.abs(a)), key='together.' + cls)
        rep.count('integrals_matched')
    rep.sig = [(cls, float(x), len(kout), repr(ops)) for x in kout]
    return rep


def several(rng, cls, n):
    cases = []
    for i in range(n):
        c = terms.case(rng, cls, nk=2, nmax=5)
        nk = int(rng.choice([2, 3, 5, 9]))
        kout = 10**rng.uniform(-2.5, 0.2, nk)
        if i % 3 == 0: kout = np.sort(kout)
        elif i % 3 == 1: kout[-1] = kout[0]
        cases.append(dict(k=c['k'], pk=c['pk'], cls=cls, kout=kout, ops=c['ops'], args=c['args'], nthreads=int(rng.choice([1, 1, 2, 4])), pts=rng.uniform(0.05, 0.95, (6, 5)), ret=rng.normal(0, 1e3, 12)))
    return cases


def points(rng, n):
    x = rng.uniform(size=(n, 5))
    # borders and special directions
    m = n // 5
    for i in range(m): x[i, rng.integers(0, 5)] = rng.choice([1e-6, 1 - 1e-6, 0.5, 0.25, 0.75, 1e-3])
    # equal coordinates: equal norms, equal angles
    for i in range(m, m + m // 2):
        j = rng.permutation(5)[:int(rng.integers(2, 5))]
        if rng.random() < 0.4: j = np.array([[0, 3], [1, 4]][rng.integers(0, 2)])
        x[i, j] = x[i, j[0]]
    return x


def own(rng, k, i):
    r = gen.qrange(rng, k)
    name = 'A_2loop_II_III_q' if i % 2 else 'gamma3_tree_q'
    return [('set_precision', dict(calculation=name, min=r[0], max=r[1], interpol=str(rng.choice(['poly', 'lin'])))),
            ('set_precision', dict(calculation='bispectrum_1loop_pk_lin', interpol=str(rng.choice(['poly', 'lin'])))),
            ('set_running_uvcutoff', dict(calculation='bispectrum_1loop', uvcutoff=float(rng.uniform(0.1, 1.5))))]


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(60, 1200)):
        cls = ['Spectrum2Loop', 'A2Loop'][i % 2]
        c = terms.case(rng, cls, nk=1, nmax=5, before=0.5)
        if 'before' in c: c['before']['ops'] += own(rng, c['k'], i)
        ops = c['ops'] + own(rng, c['k'], i)
        kk = float(10**rng.uniform(-2.7, 0.3))
        cases.append(dict(k=c['k'], pk=c['pk'], cls=cls, kk=kk, ops=ops, args=c['args'], points=points(rng, ctx.n(300, 500)), seed=int(rng.integers(1 << 30)), before=c.get('before')))
    collect(ctx, ctx.run('plain', 'integrand', cases), cases, 'integrand')
    cases = []
    for i in range(ctx.n(16, 100)):
        c = terms.case(rng, 'Spectrum2Loop', nk=1, nmax=5)
        cases.append(dict(k=c['k'], pk=c['pk'], kk=float(c['kout'][0]), ops=c['ops'], n=100, seed=int(rng.integers(1 << 30)), **terms.fields(rng)))
    collect(ctx, ctx.run('plain', 'integral', cases), cases, 'integral')
    cases = several(rng, 'Spectrum2Loop', ctx.n(24, 200))
    collect(ctx, ctx.run('plain', 'together', cases), cases, 'together')
    ctx.rule = ('the integrator linked into the library is replaced by a probe that evaluates the integrand handed to it at random and special points of the hypercube, for random spectra, wavenumbers, field pairs, ranges, interpolation modes; each value is '
                'compared with the perturbation-theory integrand; points closer than 1e-9 to the border of the domain are not judged; one distinct case = one point inside of the domain')
    ctx.assumptions = ['reference model rv/model.py (third-order kernels from the recursion relations)', 'the integrator itself (Cuba) is not in the repository']
