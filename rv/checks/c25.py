"""Homogeneity in the amplitude of the linear spectrum and in the unit of wavenumbers."""
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect

CLASSES = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'B1Loop']
POWER = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'gamma1a_1loop': 1, 'gamma1b_1loop': 1, 'gamma1a_2loop': 2, 'gamma1b_2loop': 2, 'pk_gamma2_tree_tree': 2, 'pk_gamma2_tree_1loop': 3,
         'pk_gamma2_1loop_1loop': 4, 'pk_gamma3_tree': 3, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1, 'pk': 2}
# power of the unit of length
LENGTH = {n: 3 if n.startswith('pk') else 0 for n in POWER}
LENGTH.update(k=-1, sigmad2=2)


def calc(cls, k, pk, kout, args):
    o = jobs.new(cls)
    o.set_pk_lin(k, pk)
    o.set_terms(np.array(kout))
    o.run_terms(nthreads=2, **args)
    return o


def scaled_ops(ops, c):
    out = []
    for n, d in ops:
        d = dict(d)
        for b in ('min', 'max'):
            if d.get(b, -1.) > 0: d[b] = d[b] * c
        out.append((n, d))
    return out


def near(rep, label, got, want, tol, key):
    with np.errstate(all='ignore'): same = (got == want) | (np.isnan(got) & np.isnan(want))
    rep.count('identical_bits', same.sum())
    rep.close(label, np.where(same, 0., got), np.where(same, 0., want), tol, key)


def rowmax(x):
    x = np.abs(x)
    return x if x.ndim == 1 else np.max(x, axis=-1, initial=0., keepdims=True) + 0 * x


def pieces(cls, c, D):
    """Magnitude of the pieces of pk(D)."""
    with np.errstate(all='ignore'):
        f = 0.5 * (c['k'] * D)**2 * c['sigmad2']
        e = np.exp(-f) * (1 + f)
        g = [1 + f + sum(np.abs(c[n]) * D**(2 * POWER[n]) for n in c if n.startswith('gamma1' + x)) for x in 'ab']
        return e**2 * (g[0] * g[1] * D**2 * np.abs(c['pk_lin']) + (1 + f)**2 * sum(np.abs(c[n]) * D**(2 * POWER[n]) for n in c if n.startswith('pk_gamma')))


def amplitude(k, pk, cls, kout, ops, args, s2, exact, points):
    """Job: spectrum times s2."""
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    one = calc(cls, k, pk, kout, args)
    o1 = one.deepcopy()
    two = calc(cls, k, pk * s2, kout, args)
    a, b = jobs.columns(o1), jobs.columns(two)
    wide = abs(np.log10(s2)) > 40  # then only what stays far from the ends of the range of double precision, with the bits that logarithms lose
    inside = [n for n in b if abs(POWER[n] * np.log10(s2)) < 220]
    noise = None
    rep.count('columns_wide', len(inside) if wide else 0)
    for n in inside:
        want = a[n] * s2**POWER[n]
        tol = (1e-9 if wide else 1e-12) * np.abs(want) if exact else 1e-6 * np.abs(want) + 1e-7 * rowmax(want)
        with np.errstate(all='ignore'): off = np.any(~(np.abs(b[n] - want) <= tol))
        if off and noise is None:
            # logarithms of the scaled spectrum may be rounded otherwise: what such a noise does to the columns
            noise = {m: 0. for m in a}
            for turn in range(4):
                c = jobs.columns(calc(cls, k, pk * (1. + 1e-11 * np.random.RandomState(turn).uniform(-1., 1., len(pk))), kout, args))
                for m in a: noise[m] = np.maximum(noise[m], np.abs(c[m] - a[m]))
            rep.count('conditioning_measured')
        if off: tol = tol + 3. * noise[n] * s2**POWER[n]
        near(rep, '{} {} of the spectrum times {}'.format(cls, n, s2), b[n], want, tol, cls + '.' + n)
    if cls.startswith('Spectrum') and len(inside) == len(b):
        s = np.sqrt(s2)
        for D in (1., 0.6):
            with np.errstate(all='ignore'):
                p, q = two.pk(D), o1.pk(s * D)
            near(rep, '{} pk({}) of the spectrum times {} against pk({})'.format(cls, D, s2, s * D), p, q, (1e-9 if wide else 1e-11 if exact else 1e-6) * pieces(cls, b, D), cls + '.pk()')
    rep.count('values_nonzero', sum(np.sum(b[n] != 0) for n in b))
    rep.sig = [(cls, float(kk), s2, repr(ops)) for kk in kout]
    return rep


def units(k, pk, cls, kout, ops, args, c, points):
    """Job: wavenumbers times c, spectrum over c^3."""
    rep = Report()
    o = jobs.new('PyRegPT')
    jobs.suave_points(o, points)
    jobs.apply_ops(o, ops)
    a = jobs.columns(calc(cls, k, pk, kout, args))
    # nodes move by rounding, and may then fall on the other side of a border (of a range, of a regime): a difference counts if it is there whatever the rounding
    best = None
    for turn in range(6):
        cc = c * (1 + 1e-7 * turn)
        jobs.apply_ops(o, scaled_ops(ops, cc))
        b = jobs.columns(calc(cls, k * cc, pk / cc**3, kout * cc, args))
        one = Report()
        for n in b:
            want = a[n] * cc**-LENGTH[n]
            border = ((kout * cc)**3 * b['pk_lin']**2).reshape((-1,) + (1,) * (want.ndim - 1)) # scale of a node at the border
            near(one, '{} {} with wavenumbers in units of {}'.format(cls, n, 1 / cc), b[n], want, (1e-3 if n.startswith('pk') and n != 'pk_lin' else 1e-5) * np.abs(want) + 1e-6 * rowmax(want) + (1e-8 * border if n.startswith('pk') and n != 'pk_lin' else 0.), cls + '.units.' + n)
        if best is None or len(one.bad) < len(best.bad): best = one
        if not one.bad: break
        rep.count('units_tried_again')
    rep.bad += best.bad
    rep.n += best.n
    rep.worst = max(rep.worst, best.worst)
    rep.sig = [(cls, float(kk), c, repr(ops)) for kk in kout]
    return rep


def run(ctx):
    rng = ctx.rng
    amp, uni = [], []
    for i in range(ctx.n(300, 4000)):
        cls = CLASSES[i % len(CLASSES)]
        k, pk, kind = gen.spectrum(rng)
        ops = [('set_precision', d) for d in gen.small_precision(rng, model.Q + model.MC + model.MU, 8 if cls == 'Spectrum2Loop' else 25, k)]
        for u in model.UV: ops.append(('set_running_uvcutoff', dict(calculation=u, uvcutoff=float(rng.uniform(0.1, 1.5)))))
        args = dict(a=str(rng.choice(['delta', 'theta'])), b=str(rng.choice(['delta', 'theta']))) if cls.startswith('Spectrum') else {}
        c = dict(k=k, pk=pk, cls=cls, kout=gen.wavenumbers(rng, k, 4, 'in'), ops=ops, args=args, points=60)
        exact = (i // len(CLASSES)) % 3 != 2
        s2 = 4.**int(rng.choice([-45, -30, -16, -8, -4, -3, -2, -1, 1, 2, 3, 4, 8, 16, 30])) if exact else float(10**rng.uniform(-6, 4))
        if exact and rng.random() < 0.2: s2 = 4.**int(rng.choice([-300, -180, -80, 80, 180, 300]))
        if exact and rng.random() < 0.3: c['kout'] = gen.wavenumbers(rng, k, 4, 'hostile')
        amp.append(dict(c, s2=s2, exact=exact))
        if i % 2: uni.append(dict(c, kout=gen.wavenumbers(rng, k, 4, 'in'), c=float(rng.choice([0.25, 0.5, 2., 4., 0.7, 1.6, 0.1, 10., 1e3, 1e-3]))))
    collect(ctx, ctx.run('plain', 'amplitude', amp), amp, 'amplitude')
    collect(ctx, ctx.run('plain', 'units', uni), uni, 'units')
    ctx.rule = ('linear spectra times powers of 4 from 4^-45 to 4^30, and 4^-300 to 4^300 for the columns which stay within 1e-220 to 1e220 (every operation then scales exactly: tolerance 1e-12) and times arbitrary factors (1e-6); wavenumbers, table and integration ranges times 1e-3 to 1e3 with the spectrum over the cube (1e-5, 1e-3 for integrals over q and angle, up to 6 times with other roundings); '
                'every column against its power, and pk(D) of the scaled spectrum against pk(sD); one distinct case = one k of one setting')
    ctx.assumptions = ['extrapolated slopes and regimes depend on ratios only; where the scaled calculation is rounded otherwise all the same, it may differ by what a noise of 1e-11 in the spectrum does']
