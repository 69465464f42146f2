"""Dispersions, no-wiggle spectrum, shot-noise damping."""
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from .c16 import random_terms

L = np.longdouble


def trapz(y, x):
    y, x = np.asarray(y, dtype=L), np.asarray(x, dtype=L)
    return np.sum((y[1:] + y[:-1]) / 2 * np.diff(x))


def window(x):
    """Fourier transform of the top hat, by its series where the closed form cancels."""
    x = np.asarray(x, dtype=L)
    small = 1 - x**2 / 10 + x**4 / 280 - x**6 / 15120 + x**8 / 1330560
    with np.errstate(all='ignore'): big = 3 * (np.sin(x) - x * np.cos(x)) / x**3
    return np.where(x < 0.3, small, big)


def eisenstein_hu(k, h, ob, om, T):
    """No-wiggle transfer function, equations 26 and 28 to 31 of Eisenstein and Hu 1998 (wavenumbers in h/Mpc)."""
    k = np.asarray(k, dtype=L)
    th = T / L(2.7)
    s = L(44.5) * np.log(L(9.83) / om) / np.sqrt(1 + 10 * L(ob)**L(0.75)) * h
    ag = 1 - L(0.328) * np.log(431 * L(om)) * ob / om + L(0.38) * np.log(L(22.3) * om) * (L(ob) / om)**2
    gamma = L(om) / h * (ag + (1 - ag) / (1 + (L(0.43) * k * s)**4))
    q = k * th**2 / gamma
    l0 = np.log(2 * np.exp(L(1)) + L(1.8) * q)
    c0 = L(14.2) + 731 / (1 + L(62.5) * q)
    return l0 / (l0 + c0 * q * q)


def job(seed, n):
    rep = Report()
    rng = np.random.default_rng(seed)
    import pyregpt
    for i in range(n):
        k, pk, kind = gen.spectrum(rng)
        if rng.random() < 0.4: k, pk, kind = gen.spectrum(rng, k=gen.table(rng, n=int(rng.integers(2, 60)), lo=10**rng.uniform(-4, 0), hi=10**rng.uniform(0.05, 1)))
        cls = str(rng.choice(['SpectrumLin', 'SpectrumLin', 'Spectrum1Loop', 'Spectrum2Loop', 'SpectrumNoWiggle']))
        if cls.endswith('Loop'):
            o = random_terms(rng, cls, len(k))
            o['k'] = k
            for c in o.fields:
                if c not in ('k', 'sigmad2', 'gamma1a_1loop', 'gamma1b_1loop', 'gamma1a_2loop', 'gamma1b_2loop'): o[c] = np.abs(o[c])
            o['sigmad2'] = np.abs(np.resize(o['sigmad2'], len(k)))
            o['gamma1b_1loop'] = np.array(o['gamma1a_1loop'])
            if '2' in cls: o['gamma1b_2loop'] = np.array(o['gamma1a_2loop'])
        else: o = getattr(pyregpt, cls)(k=k, pk=pk)
        D = float(rng.choice([1., rng.uniform(0.1, 2)]))
        kw = {} if D == 1. and rng.random() < 0.5 else dict(Dgrowth=D)
        p = np.asarray(o.pk(**kw), dtype=L)
        if not np.all(np.isfinite(p)): continue
        pi = L('3.14159265358979323846264338327950288')
        sv = np.sqrt(trapz(p, k) / (6 * pi**2))
        rep.close('sigmav', float(o.sigmav(**kw)), float(sv), 1e-11 * float(sv))
        r = np.concatenate([10**rng.uniform(-0.5, 1.8, 2), 10**rng.uniform(-3, -0.3, 1) / k[-1], 10**rng.uniform(-5, 4, 1), [8.]])
        got, ref, noise = [], [], []
        for rr in r:
            w = window(k * L(rr))
            ref.append(float(np.sqrt(trapz(p * w**2 * np.asarray(k, dtype=L)**2, k) / (2 * pi**2))))
            # the closed form of the window cancels for k r << 1, the phase is rounded for k r >> 1
            x = k * rr
            e = 4e-15 / np.where(x < 1, x**2, x)
            noise.append(float(trapz(np.abs(p) * (2 * np.abs(w) * e + e**2) * np.asarray(k, dtype=L)**2, k) / (2 * pi**2)) / ref[-1] / 2)
            got.append(float(o.sigmar(float(rr), **kw)))
        got8 = float(o.sigma8(**kw))
        noise = np.array(noise)
        rep.close('sigmar', got, ref, 1e-10 * np.abs(ref) + noise, key='sigmar')
        rep.count('radii_judged_to_1e-8', np.sum(noise < 1e-8 * np.abs(ref)))
        rep.close('sigma8', got8, ref[-1], 1e-10 * ref[-1] + noise[-1])
        # several radii or growth factors at once, one row each
        rr = r[:, None]
        rep.close('sigmar (column of radii)', o.sigmar(rr, **kw), got, 1e-12 * np.abs(ref) + noise, key='sigmar')
        Ds = rng.uniform(0.1, 2, (int(rng.integers(1, 4)), 1))
        with np.errstate(all='ignore'): each = np.array([[float(o.sigmav(Dgrowth=float(d))), float(o.sigmar(float(r[0]), Dgrowth=float(d)))] for d in Ds[:, 0]])
        if np.all(np.isfinite(each)):
            for j, v in enumerate((o.sigmav(Dgrowth=Ds), o.sigmar(float(r[0]), Dgrowth=Ds))):
                if rep.true('growth factors', np.shape(v) == (len(Ds),), '{} of {} growth factors has shape {}'.format(['sigmav', 'sigmar'][j], len(Ds), np.shape(v))):
                    rep.close('growth factors', v, each[:, j], 1e-12 * each[:, j] + (noise[0] * Ds[:, 0] if j else 0.))
        # scaling with the growth: linear spectra
        if not cls.endswith('Loop'):
            rep.close('growth: sigmav', float(o.sigmav(Dgrowth=D)), D * float(o.sigmav()), 1e-12 * D * float(sv) / min(D, 1.))
            rep.close('growth: sigma8', float(o.sigma8(Dgrowth=D)), D * float(o.sigma8()), 1e-11 * ref[-1] / min(D, 1.))
        rep.sig.append((cls, seed, i))
    return rep


def decreasing(seed, n):
    """Job: sigmar decreases with the radius for a well sampled smooth spectrum."""
    rep = Report()
    rng = np.random.default_rng(seed)
    import pyregpt
    for i in range(n):
        k = np.logspace(-4, 1, 3000)
        o = pyregpt.SpectrumLin(k=k, pk=gen.eh(k, h=rng.uniform(0.5, 0.9), om=rng.uniform(0.08, 0.25)) * 10**rng.uniform(3, 6))
        s = [float(o.sigmar(r)) for r in np.sort(10**rng.uniform(0.3, 2, 12))]
        rep.true('monotonic', np.all(np.diff(s) < 0), 'sigmar is not decreasing: {}'.format(s))
        rep.sig.append(('monotonic', seed, i))
    return rep


def nowiggle(seed, n):
    rep = Report()
    rng = np.random.default_rng(seed)
    import pyregpt
    for i in range(n):
        nk = int(rng.integers(1, 200))
        k = np.sort(10**rng.uniform(-4, 1, nk))
        p = dict(h=rng.uniform(0.5, 0.9), omega_b=rng.uniform(0.015, 0.03), omega_m=rng.uniform(0.08, 0.25), T_cmb=rng.uniform(2.6, 2.8))
        if rng.random() < 0.3: p = dict(h=rng.uniform(0.2, 1.5), omega_b=rng.uniform(0.001, 0.06), omega_m=rng.uniform(0.06, 0.6), T_cmb=rng.uniform(0.5, 10))
        p = {a: float(v) for a, v in p.items()}
        if rng.random() < 0.1: p.update(T_cmb=int(rng.integers(1, 6)), h=1)
        full = dict(h=0.676, omega_b=0.022, omega_m=0.21, T_cmb=2.7255)
        given = {a: v for a, v in p.items() if rng.random() < 0.7}
        full.update(given)
        if rng.random() < 0.4:
            given.pop('omega_m', None)
            given['Omega_m'] = float(rng.uniform(0.1, 1.))
            full['omega_m'] = given['Omega_m'] * full['h']**2
        if rng.random() < 0.4:
            given.pop('omega_b', None)
            given['Omega_b'] = float(rng.uniform(0.005, 0.09))
            full['omega_b'] = given['Omega_b'] * full['h']**2
        if full['omega_b'] > 0.5 * full['omega_m'] or full['omega_m'] > 2: continue  # not a matter content
        o = pyregpt.SpectrumNoWiggle()
        form = str(rng.choice(history.FORMS))
        if form == 'f4': form = 'plain'
        keep = history.form(k, form)
        o.set_terms(keep)
        rep.true('wavenumbers', np.array_equal(np.asarray(o['k'], dtype='f8'), k), 'column k is {} for wavenumbers given as {}'.format(o['k'][:4], form))
        T = eisenstein_hu(k, full['h'], full['omega_b'], full['omega_m'], full['T_cmb'])
        rep.close('transfer', o.transfer(**given), T.astype('f8'), 1e-11)
        ns = float(rng.choice([rng.uniform(0.8, 1.1), rng.uniform(-2, 3)]))
        nskw = {} if rng.random() < 0.2 else dict(n_s=ns)
        ns = nskw.get('n_s', 1.)
        shape = np.asarray(k, dtype=L)**L(ns) * T**2
        if rng.random() < 0.5:
            A = float(10**rng.uniform(2, 8))
            both = dict(pk=10**rng.uniform(2, 5, nk)) if rng.random() < 0.3 else {}  # the amplitude given is the one used
            o.run_terms(A=A, **both, **nskw, **given)
            ref = A * shape
        else:
            pk = 10**rng.uniform(2, 5, nk)
            how = rng.integers(0, 3)
            o.run_terms(pk=pk if how == 0 else pk.tolist() if how == 1 else pyregpt.SpectrumLin(k=k, pk=pk).pk(), **nskw, **given)
            ref = shape * pk[0] / shape[0]
        ref = ref.astype('f8')
        rep.close('nowiggle', o['pk'], ref, 1e-10 * ref)
        rep.close('nowiggle_pk', o.pk(0.7), ref * 0.49, 1e-10 * ref)
        rep.true('positive', np.all(np.asarray(o['pk']) > 0), 'not positive')
        rep.sig.append(('nowiggle', seed, i))
    return rep


def smooth(seed, n):
    """Job: the logarithmic slope of the no-wiggle spectrum falls without oscillation over scales of the acoustic peaks."""
    rep = Report()
    rng = np.random.default_rng(seed)
    import pyregpt
    for i in range(n):
        k = np.logspace(-3, 1, 800)
        o = pyregpt.SpectrumNoWiggle()
        o.set_terms(k)
        o.run_terms(A=1e6, n_s=0.96, h=float(rng.uniform(0.6, 0.75)), omega_m=float(rng.uniform(0.12, 0.16)), omega_b=float(rng.uniform(0.02, 0.024)))
        s = np.gradient(np.log(o['pk']), np.log(k))[5:-5]
        rep.true('smooth', np.all(np.diff(s) < 1e-9), 'the slope of the no-wiggle spectrum rises')
        rep.sig.append(('smooth', seed, i))
    return rep


def shotnoise(seed, n):
    rep = Report()
    rng = np.random.default_rng(seed)
    for i in range(n):
        o = random_terms(rng, 'Bias1Loop', int(rng.integers(1, 60)))
        m = len(o['k'])
        o['k'] = np.array(10**rng.uniform(-5, 2, m))
        kw = {}
        if rng.random() < 0.7: kw['kmin'] = float(10**rng.choice([rng.uniform(-4, -1), rng.uniform(-12, -0.6)]))
        if rng.random() < 0.7: kw['kmax'] = float(10**rng.choice([rng.uniform(-0.5, 1.5), rng.uniform(-0.5, 9)]))
        lo, hi = kw.get('kmin', 5e-4), kw.get('kmax', 10.)
        if rng.random() < 0.5: o['k'][:2] = [lo, hi][:m]
        k = np.array(o['k'])
        got = o.shotnoise(**kw)
        with np.errstate(all='ignore'): ref = np.where(k > hi, np.exp(-(k / hi - 1)**2), np.where(k < lo, np.exp(-(lo / k - 1)**2), 1.))
        with np.errstate(all='ignore'): arg = np.where(k > hi, k / hi, np.where(k < lo, lo / k, 1.)) - 1
        rep.close('shotnoise', got, ref, ref * (1e-13 + 1e-14 * arg * (arg + 1)) + 1e-300)
        j = np.argsort(k)
        rep.true('shotnoise monotonic', np.all(np.diff(np.asarray(got)[j][k[j] >= hi]) <= 0) and np.all(np.diff(np.asarray(got)[j][k[j] <= lo]) >= 0), 'not falling outside of the range')
        rep.true('shotnoise_k', np.array_equal(k, o['k']), 'the wavenumbers are modified')
        rep.sig.append(('shotnoise', seed, i))
        rep.count('shotnoise_outside', np.sum((k > hi) | (k < lo)))
    return rep


def run(ctx):
    rng = ctx.rng
    for func, n, m in (('job', 40, 16), ('decreasing', 10, 4), ('nowiggle', 120, 12), ('smooth', 10, 4), ('shotnoise', 100, 8)):
        cases = [dict(seed=int(rng.integers(1 << 30)), n=n) for i in range(ctx.n(2 * m, m * 20))]
        collect(ctx, ctx.run('plain', func, cases), cases, func)
    ctx.rule = ('random tables, radii, growth factors, cosmologies (each parameter given or left to its default, in both parametrisations) and ranges; values against the trapezoidal integrals and the published fitting formula in extended precision; '
                'monotonicity and smoothness on fine tables; one distinct case = one (object, arguments)')
    ctx.assumptions = ['equations of Eisenstein and Hu 1998 with wavenumbers in h/Mpc and the sound horizon as in equation 26']
