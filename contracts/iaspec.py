"""Contracts on onepower.ia (C15): alignment amplitudes, radial and angular alignment weights, Fourier profile, resampling."""
from __future__ import annotations
import math
import warnings
from fractions import Fraction as Fr
import numpy as np
from onv import shim, terms as T
from onv.core import Case
from onv.tensor import SymTensor, Unsupported, SymComplex
import onepower.ia as ia
from .pkctx import leafclass
from .hmispec import swap

NP = shim.NPX
A = 'onepower.ia.AlignmentAmplitudes.'
S = 'onepower.ia.SatelliteAlignment.'
DEP = ('constant', 'luminosity', 'halo_mass')


def case(name, fn, funcs, **kw):
    kw.setdefault('nnum', 4)
    return Case(name, 'C15', fn, funcs, [ia], **kw)


def have(E, obj, *names):
    """a private callee that was renamed away: nothing to say about it here"""
    for n in names:
        if not hasattr(obj, n):
            if E.sym:
                raise Unsupported(f'{n} not found')
            E.skip(f'{n} not found')
            return False
    return True


# ------------------------------------------------------------------ exact special values
def legendre(l):
    """coefficients of P_l, exactly, from the three-term recurrence"""
    p0, p1 = [Fr(1)], [Fr(0), Fr(1)]
    if l == 0:
        return p0
    for n in range(1, l):
        q = [Fr(0)] * (n + 2)
        for i, c in enumerate(p1):
            q[i + 1] += Fr(2 * n + 1, n + 1) * c
        for i, c in enumerate(p0):
            q[i] -= Fr(n, n + 1) * c
        p0, p1 = p1, q
    return p1


def cos2(j):
    """integral over a period of cos^j(x) cos(2x), divided by pi: 2 C(j, j/2+1) / 2^j for even j"""
    if j % 2 or j < 2:
        return Fr(0)
    return Fr(2 * math.comb(j, j // 2 + 1), 2 ** j)


def fell_spec(E, l, b, th):
    """sum over the powers of P_l(sin th sin t cos p + cos th cos t) of the p- and t-integrals; b symbolic"""
    g = lambda x: shim.uapp('gamma', x)
    tot = SymTensor.scalar(T.num(0))
    pi = NP.pi
    for m, c in enumerate(legendre(l)):
        if c == 0:
            continue
        for j in range(m + 1):
            w = cos2(j)
            n = m - j
            if w == 0 or n % 2:
                continue
            # integral of (1-x^2)^((j+b)/2) x^n over [-1,1] = Beta((n+1)/2, (j+b)/2+1)
            I = g((j + b) / 2 + 1) * g(Fr(n + 1, 2)) / g((j + b) / 2 + Fr(n + 3, 2))
            s, k = NP.sin(th), NP.cos(th)
            tot = tot + SymTensor.scalar(T.num(c * math.comb(m, j) * w)) * pi * (s ** j if j else 1) * (k ** n if n else 1) * I
    return tot


def xbinom(n, k):
    n, k = Fr(n), int(k)
    r = Fr(1)
    for i in range(k):
        r = r * (n - i) / (i + 1)
    return SymTensor.scalar(T.num(r))


def fell_quad(l, b, th, n=4000):
    """the defining double integral by quadrature (independent of the closed form)"""
    from scipy.special import eval_legendre, roots_gegenbauer
    # weight (1-x^2)^(b/2): Gauss-Gegenbauer with alpha = (b+1)/2
    x, w = roots_gegenbauer(80, (b + 1) / 2)
    p = (np.arange(256) + 0.5) * 2 * np.pi / 256
    cg = np.sin(th) * np.sqrt(1 - x ** 2)[:, None] * np.cos(p)[None, :] + np.cos(th) * x[:, None]
    return float((w[:, None] * eval_legendre(l, cg) * np.cos(2 * p)[None, :]).sum() * 2 * np.pi / 256)


def amps(E, who, dep, two=False, **over):
    """an AlignmentAmplitudes object on symbolic parameters"""
    E.dim('nz', 2, 4)
    z = E.grid('z_vec', 'nz', '+', 0.05, 1.5)
    kw = dict(z_vec=z, gamma_2h_amplitude=E.scalar('g2', gen=lambda r: r.uniform(-5, 6)), gamma_1h_amplitude=E.scalar('g1', gen=lambda r: r.uniform(-1, 1)),
              beta_cen=E.scalar('bc', gen=lambda r: r.uniform(-1, 2)), beta_sat=E.scalar('bs', gen=lambda r: r.uniform(-1, 2)),
              lpivot_cen=E.scalar('lpc', gen=lambda r: r.uniform(9, 11)), lpivot_sat=E.scalar('lps', gen=lambda r: r.uniform(9, 11)),
              mpivot_cen=E.scalar('mpc', gen=lambda r: r.uniform(12, 14)), mpivot_sat=E.scalar('mps', gen=lambda r: r.uniform(12, 14)))
    kw['central_ia_depends_on' if who == 'cen' else 'satellite_ia_depends_on'] = dep
    if two:
        kw['beta_two'] = E.scalar('b2', gen=lambda r: r.uniform(-1, 2))
    kw.update(over)
    V = {}
    if dep == 'luminosity':
        E.dim('nl', 3, 7)
        g = lambda r, s: np.cumsum(10 ** r.uniform(9, 10, s), axis=-1)
        for g_ in ('centrals', 'satellites'):
            V['lum_' + g_] = E.t('lum_' + g_, ('nz', 'nl'), '+', gen=g)
            V['lum_pdf_z_' + g_] = E.t('pdf_' + g_, ('nz', 'nl'), '0+')
    return leafclass(ia.AlignmentAmplitudes, V, 'AlignmentAmplitudes')(**kw) if V else ia.AlignmentAmplitudes(**kw)


def alignment_in_spectra(prop):
    """the alignment model of a spectrum object is built from its alignment parameters and the central haloes"""
    import onepower.pk as pk

    def fn(E):
        E.dim('nz', 1, 3)
        E.dim('nm', 2, 5)
        V = {'z_vec': E.grid('z_vec', 'nz', '+', 0.05, 2.0), 'mass': E.grid('mass', 'nm', '+', 1e11, 1e15, log=True)}
        for g in ('cen', 'sat'):
            for q in ('conc', 'r_s', 'rvir'):
                V[f'{q}_{g}'] = E.t(f'{q}_{g}', ('nz', 'nm'), '+')
        names = ('gamma_2h_amplitude', 'gamma_1h_amplitude', 'gamma_1h_slope', 'beta_cen', 'beta_sat')
        P = {n: E.scalar('p_' + n) for n in names}
        P.update({n: E.scalar('p_' + n, gen=lambda r: r.uniform(12, 14)) for n in ('mpivot_cen', 'mpivot_sat', 'lpivot_cen', 'lpivot_sat')})
        P.update(ell_max=4, truncate=True, central_ia_depends_on='constant', satellite_ia_depends_on='halo_mass')
        o = leafclass(pk.Spectra, V, 'Spectra')(align_params=P)
        if not have(E, o, 'alignment_class'):
            return
        a = o.alignment_class
        E.eq('redshifts', a.z_vec, E.s('z_vec'))
        E.eq('halo masses', a.mass_in, E.s('mass'))
        E.eq('concentration of central haloes', a.c_in, E.s('conc_cen'))
        E.eq('scale radius of central haloes', a.r_s_in, E.s('r_s_cen'))
        E.eq('virial radius of central haloes', a.rvir_in, E.s('rvir_cen')[0])
        for n in names:
            E.eq(n, getattr(a, n), E.s('p_' + n))
        for n in ('mpivot_cen', 'mpivot_sat', 'lpivot_cen', 'lpivot_sat'):
            E.eq(n, getattr(a, n), 10 ** E.s('p_' + n))
        for n in ('ell_max', 'truncate', 'central_ia_depends_on', 'satellite_ia_depends_on'):
            E.true(n, getattr(a, n) == P[n])
        for n in ('beta_cen', 'beta_sat'):
            E.eq(f'Spectra.{n}', getattr(o, n), E.s('p_' + n))
        for n in ('mpivot_cen', 'mpivot_sat'):
            E.eq(f'Spectra.{n}', getattr(o, n), 10 ** E.s('p_' + n))
        E.eq('Spectra.alignment_gi', o.alignment_gi, E.s('p_gamma_2h_amplitude') * (E.s('z_vec') * 0 + 1))
        for n in ('beta_cen', 'mpivot_sat'):
            o.update(align_params={**P, n: None})
            E.true(f'absent {n} stays absent', getattr(o, n) is None)
        E.frame()
    return Case('alignment model of a spectrum', prop, fn, ['onepower.pk.Spectra.' + f for f in ('alignment_class', 'beta_cen', 'beta_sat', 'mpivot_cen', 'mpivot_sat', 'alignment_gi')], [ia, pk], nnum=4)


def cases_C15():
    out = []

    # ---- amplitudes
    def amp(E, who, dep, two):
        o = amps(E, who, dep, two)
        got = o.alignment_gi if who == 'cen' else o.gamma_1h_amp
        one = E.s('z_vec') * 0 + 1
        a = E.s('g2') if who == 'cen' else E.s('g1')
        if dep in ('constant', 'halo_mass'):
            return E.eq('amplitude at every redshift', got, a * one)
        g = 'centrals' if who == 'cen' else 'satellites'
        L, p = E.s('lum_' + g), E.s('pdf_' + g)
        l0 = 10 ** (E.s('lpc') if who == 'cen' else E.s('lps'))
        b = E.s('bc') if who == 'cen' else E.s('bs')
        w = (L / l0) ** b
        if two:
            w = NP.where(L > l0, w, (L / l0) ** E.s('b2'))
        E.eq('luminosity-weighted amplitude', got, a * shim.sym_simpson(p * w, x=L, axis=-1))
        E.frame()
    for who, nm in (('cen', 'alignment_gi'), ('sat', 'gamma_1h_amp')):
        for dep in DEP:
            for two in ((False, True) if who == 'cen' and dep == 'luminosity' else (False,)):
                out.append(case(f'amplitude {who} {dep}{" double" if two else ""}', lambda E, w=who, d=dep, t=two: amp(E, w, d, t),
                                [A + nm, A + 'mean_l_l0_to_beta'] + ([A + 'broken_powerlaw'] if two else [])))

    def pivots(E):
        x = {n: E.scalar(n, gen=lambda r: r.uniform(9, 14)) for n in ('mpivot_cen', 'mpivot_sat', 'lpivot_cen', 'lpivot_sat')}
        for C in (ia.AlignmentAmplitudes, ia.SatelliteAlignment):
            o = C(**x)
            for n in x:
                E.eq(f'{C.__name__} {n} is 10 to the given value', getattr(o, n), 10 ** E.s(n))
            o = C(**{n: None for n in x})
            for n in x:
                E.true(f'{C.__name__} {n} absent stays absent', getattr(o, n) is None)
            o.update(**x)
            for n in x:
                E.eq(f'{C.__name__} {n} after update', getattr(o, n), 10 ** E.s(n))
    out.append(case('pivots', pivots, [A + p for p in ('mpivot_cen', 'mpivot_sat', 'lpivot_cen', 'lpivot_sat')]))

    # ---- every dependence needs its own pivot only
    def own_pivot(E, who, dep):
        arg, other = ('cen', 'sat') if who == 'cen' else ('sat', 'cen')
        pre = 'l' if dep == 'luminosity' else 'm'
        none = {f'{p}pivot_{w}': None for p in 'lm' for w in ('cen', 'sat')}
        mine = f'{pre}pivot_{arg}'
        read = lambda o: o.alignment_gi if who == 'cen' else o.gamma_1h_amp
        if dep != 'constant':
            del none[mine]
        o = amps(E, who, dep, **none)
        one = E.s('z_vec') * 0 + 1
        a = E.s('g2') if who == 'cen' else E.s('g1')
        if dep == 'luminosity':
            g = 'centrals' if who == 'cen' else 'satellites'
            L, p = E.s('lum_' + g), E.s('pdf_' + g)
            want = a * shim.sym_simpson(p * (L / 10 ** E.s('lpc' if who == 'cen' else 'lps')) ** E.s('bc' if who == 'cen' else 'bs'), x=L, axis=-1)
        else:
            want = a * one
        E.eq('only the own pivot is needed', read(o), want)
        if dep == 'constant':
            return
        bad = amps(E, who, dep, **{mine: None})
        E.raises('own pivot missing', Exception, lambda: read(bad))
    for who in ('cen', 'sat'):
        for dep in DEP:
            out.append(case(f'own pivot {who} {dep}', lambda E, w=who, d=dep: own_pivot(E, w, d), [A + ('alignment_gi' if who == 'cen' else 'gamma_1h_amp')]))

    def double_mass(E):
        o = amps(E, 'cen', 'halo_mass', True)
        E.raises('double power law in halo mass not implemented', Exception, lambda: o.alignment_gi)
        o = amps(E, 'cen', 'constant', True)
        E.eq('double power law irrelevant for a constant amplitude', o.alignment_gi, E.s('g2') * (E.s('z_vec') * 0 + 1))
    out.append(case('double power law', double_mass, [A + 'alignment_gi']))

    # ---- luminosity distribution from a file
    def lumpdf(E):
        if E.sym:
            raise Unsupported('histogram')
        rng = np.random.default_rng(E.seed)
        nz, n = int(rng.integers(2, 5)), int(rng.integers(20, 200))
        z = np.linspace(0.1, 0.1 + 0.1 * nz, nz)
        dz = 0.5 * (z[1] - z[0])
        if E.seed % 2:
            z[2:] += rng.uniform(0, 0.03)                  # uneven redshifts: each bin reaches up to the next one
        top = np.append(z[1:] - dz, z[-1] + dz)
        zg = rng.uniform(z[0] - 2 * dz, z[-1] + 2 * dz, n)
        zg[: nz] = z - dz                                  # galaxies on the lower edges belong to the bin
        if E.seed % 3 == 0:
            zg[np.abs(zg - z[-1]) <= dz * 1.001] = z[0]    # an empty redshift bin
        ll = rng.uniform(9, 11, n)
        data = {'z': zg, 'loglum': ll}

        class H:
            def __init__(self, d):
                self.data = d
        opened = []
        fake = type('F', (), {'open': staticmethod(lambda f, *a, **k: (opened.append(f), [None, H(data)])[1])})
        with swap(ia, fits=fake):
            for gal in ('centrals', 'satellites'):
                o = ia.AlignmentAmplitudes(z_vec=z, central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity', lpivot_cen=10., lpivot_sat=10.,
                                           z_loglum_file_centrals='centrals', z_loglum_file_satellites='satellites')
                L, p = getattr(o, 'lum_' + gal), getattr(o, 'lum_pdf_z_' + gal)
                E.true(f'{gal}: their own file is read', opened and set(opened) == {gal})
                opened.clear()
                for i in range(nz):
                    sel = 10 ** ll[(zg >= z[i] - dz) & (zg < top[i])]
                    if sel.size == 0:
                        E.true(f'{gal}: no galaxies, no weight', (p[i] == 0).all())
                        continue
                    w = np.diff(L[i]).mean()
                    E.true(f'{gal}: weights integrate to one', abs(p[i].sum() * w - 1) < 1e-6 or sel.size == 1)
                    E.true(f'{gal}: weights non-negative', (p[i] >= 0).all())
                    if sel.size > 1:
                        E.true(f'{gal}: luminosities are the centres of the bins', abs(L[i][0] - sel.min() - w / 2) < 0.1 * w and abs(sel.max() - L[i][-1] - w / 2) < 0.1 * w)
                        E.true(f'{gal}: bins of equal width', bool(np.allclose(np.diff(L[i]), w, rtol=1e-6)))
                    E.true(f'{gal}: grid spans the luminosities of the redshift bin', abs(L[i][0] - sel.min()) <= 2 * w and abs(L[i][-1] - sel.max()) <= 2 * w or sel.size == 1)
                    E.true(f'{gal}: mean luminosity of the redshift bin', abs((p[i] * L[i]).sum() * w / sel.mean() - 1) < 2 * w / sel.mean() + 1e-9)
                    for q in (0.25, 0.5, 0.75):
                        t = sel.min() + q * (sel.max() - sel.min())
                        if sel.size > 1 and np.abs(sel - t).min() > 2 * w:
                            E.true(f'{gal}: distribution of the redshift bin', abs(p[i][L[i] < t].sum() * w - (sel < t).mean()) < 1e-6)
    out.append(case('luminosity distribution', lumpdf, [A + 'compute_luminosity_pdf', A + '_initialize_luminosity_array'], nnum=6, bounded=True,
                    note='catalogues of up to 200 galaxies in up to 4 redshift bins'))

    # ---- radial weight
    def radial(E, trunc):
        E.dim('nr', 1, 6)
        o = ia.SatelliteAlignment()
        if not have(E, o, 'gamma_r_nfw_profile'):
            return
        r = E.t('r', ('nr',), '+', gen=lambda g, s: 10 ** g.uniform(-3, 1, s))
        rs, rv, rc = (E.scalar(n, '+', gen=lambda g, a=a: 10 ** g.uniform(*a)) for n, a in (('rs', (-2, 0)), ('rvir', (-1.3, .5)), ('rcore', (-2, -.5))))
        a, b = E.scalar('a', gen=lambda g: 10 ** g.uniform(-4, -.3) * g.choice([1, 1, -1])), E.scalar('b', gen=lambda g: g.uniform(-3, 1))
        got = o.gamma_r_nfw_profile(r, rs, rv, a, b, rcore=rc, truncate=trunc)
        R, Rs, Rv, Rc, Aa, B = (E.s(n) for n in ('r', 'rs', 'rvir', 'rcore', 'a', 'b'))
        x = NP.where(R < Rc, Rc, R)
        w = Aa * (x / Rv) ** B
        w = NP.where(w > 0.3, 0.3, w)
        nfw = 1 / (R / Rs * (1 + R / Rs) ** 2)
        if trunc:
            nfw = NP.where(R >= Rv, 0, nfw)
        E.eq('weight times NFW profile', got, w * nfw)
        h = (R / Rs * (1 + R / Rs) ** 2)
        if E.sym:
            E.ge('weight never above 0.3', 0.3 - got * h, 0)
        else:
            E.true('weight never above 0.3', bool((got * (r / rs * (1 + r / rs) ** 2) <= 0.3 * (1 + 1e-9)).all()))
        E.frame()
    for trunc in (False, True):
        out.append(case(f'radial weight truncate={trunc}', lambda E, t=trunc: radial(E, t), [S + 'gamma_r_nfw_profile'], nnum=6))

    def defaults(E):
        o = ia.SatelliteAlignment()
        if not have(E, o, 'gamma_r_nfw_profile'):
            return
        E.dim('nr', 1, 6)
        r = E.t('r', ('nr',), '+', gen=lambda g, s: 10 ** g.uniform(-3, 1, s))
        got = o.gamma_r_nfw_profile(r, 0.1, 1.2, E.scalar('a', '+', gen=lambda g: g.uniform(1e-4, .1)), -2.0)
        R = E.s('r')
        x = NP.where(R < 0.06, 0.06, R)
        w = E.s('a') * (x / 1.2) ** -2
        E.eq('core of 0.06, truncation at the virial radius by default', got, NP.where(w > 0.3, 0.3, w) * NP.where(R >= 1.2, 0, 1 / (R / 0.1 * (1 + R / 0.1) ** 2)))
    out.append(case('radial weight defaults', defaults, [S + 'gamma_r_nfw_profile']))

    # ---- angular integrals
    def angular(E, l):
        o = ia.SatelliteAlignment()
        if not have(E, o, 'calculate_f_ell'):
            return
        b = E.scalar('b', gen=lambda g: g.uniform(-1.9, 2.5))
        th = E.scalar('th', gen=lambda g: g.uniform(0.2, 2.9))
        ph = E.scalar('ph', gen=lambda g: g.uniform(0, 6))
        o.theta_k, o.phi_k = th, ph
        E.assume(T.not_(T.eq(T.scalar('b'), T.num(0))))
        E.assume(T.not_(T.eq(T.scalar('b'), T.num(-2))))
        if E.sym:
            with swap(ia, binom=xbinom, gamma=lambda x: shim.uapp('gamma', x)):
                got = SymComplex.of(o.calculate_f_ell(l, b))
        else:
            E.fun('gamma', lambda x: __import__('scipy.special', fromlist=['gamma']).gamma(x))
            got = complex(o.calculate_f_ell(l, b))
            q = fell_quad(l, b, th)
            sc = max(abs(fell_quad(2, b, th)), 1e-3)
            E.true('closed form equals the double integral', abs(abs(got) - abs(q)) < 1e-6 * sc and abs(got - q * np.exp(2j * ph)) < 1e-6 * sc, note=f'{got} {q}')
        if l >= 2:
            f = fell_spec(E, l, E.s('b'), E.s('th'))
            E.eq('real part of the closed form', got.real, f * NP.cos(2 * E.s('ph')), rtol=1e-6)
            E.eq('imaginary part of the closed form', got.imag, f * NP.sin(2 * E.s('ph')), rtol=1e-6)
        else:
            E.true('no contribution of monopole and dipole', (lambda v: v == 0)(got.real)) if not E.sym else E.eq('no contribution of monopole and dipole', got.real, SymTensor.scalar(T.num(0)))
    for l in range(12):
        out.append(case(f'angular integral ell={l}', lambda E, l=l: angular(E, l), [S + 'calculate_f_ell', S + 'I_x'], nnum=4, wide=False))

    def table(E, b, alt=None):
        """limit of the closed form at theta = pi/2, where only cos(t)^0 survives"""
        o = ia.SatelliteAlignment()
        if not have(E, o, 'calculate_f_ell'):
            return
        for l in range(12):
            q = sum(float(c) * math.pi * float(cos2(m)) * math.gamma((m + b) / 2 + 1) * math.gamma(.5) / math.gamma((m + b) / 2 + 1.5)
                    for m, c in enumerate(legendre(l)) if c and cos2(m))
            for bb in (int(b), float(b), np.float64(b)):
                got = complex(o.calculate_f_ell(l, bb))
                E.true(f'tabulated slope {b} equals the closed form', abs(got - q) < 1e-5, note=f'ell={l}: {got} {q}')
                o.phi_k = 0.7
                rot = complex(o.calculate_f_ell(l, bb))
                o.phi_k = 0.0
                E.true(f'tabulated slope {b}: phase of the wavevector', abs(rot - got * np.exp(1.4j)) < 1e-9, note=f'ell={l}: {got} {rot}')
                if alt is not None:
                    r = sum(float(c) * math.pi * float(cos2(m)) * math.gamma((m + alt) / 2 + 1) * math.gamma(.5) / math.gamma((m + alt) / 2 + 1.5)
                            for m, c in enumerate(legendre(l)) if c and cos2(m))
                    E.true(f'tabulated slope {b} is a closed form', min(abs(got - q), abs(got - r)) < 1e-5, note=f'ell={l}: {got} {q} {r}')
    for b, alt in ((0, 1), (-2, None)):
        out.append(case(f'tabulated angular integrals slope {b}', lambda E, b=b, a=alt: table(E, b, a), [S + 'calculate_f_ell'], nnum=1,
                        bounded=True, note='all 12 tabulated multipoles, compared to 1e-5 (accuracy of the tabulated digits)'))

    # ---- sum over multipoles
    def wkm(E, lm):
        E.dim('nz', 1, 3)
        E.dim('nm', 1, 3)
        E.dim('nk', 1, 4)
        ells = np.arange(0, lm + 1, 2)
        u = E.t('uell', (len(ells), 'nz', 'nm', 'nk'))
        b = E.scalar('b', gen=lambda g: g.uniform(-1.9, 2.5))
        f = {int(l): E.scalar(f'f{l}') for l in ells}
        zz, mm, kk = E.grid('zz', 'nz', '+', .1, 1.), E.grid('mm', 'nm', '+', 1e12, 1e15), E.grid('kk', 'nk', '+', .01, 10.)
        V = {'z_vec': zz, 'mass': mm, 'k_vec': kk, 'compute_uell_gamma_r_hankel': u, 'calculate_f_ell': lambda ell, gb: f[int(ell)] * 1 if gb is b or not E.sym else None}
        if not have(E, ia.SatelliteAlignment, 'compute_uell_gamma_r_hankel', 'calculate_f_ell'):
            return
        o = leafclass(ia.SatelliteAlignment, V, 'SatelliteAlignment')(ell_max=lm, gamma_1h_slope=b)
        E.true('even multipoles up to ell_max', np.array_equal(o.ell_values, ells))
        U = E.s('uell')
        tot = 0
        for i, l in enumerate(ells):
            tot = tot + (-1) ** (int(l) // 2) * (2 * int(l) + 1) * E.s(f'f{l}') * U[i]
        E.eq('modulus of the multipole sum', o.wkm_f_ell, NP.absolute(tot))
        E.ge('profile non-negative', o.wkm_f_ell, 0)
        E.frame()
        w = o.wkm
        E.true('profile reported with its own grids', len(w) == 4)
        E.eq('reported profile', w[0], NP.absolute(tot))
        E.eq('reported redshifts', w[1], E.s('zz'))
        E.eq('reported masses', w[2], E.s('mm'))
        E.eq('reported wavenumbers', w[3], E.s('kk'))
    for lm in range(12):
        out.append(case(f'multipole sum ell_max={lm}', lambda E, lm=lm: wkm(E, lm), [S + 'wkm_f_ell', S + 'ell_values', S + 'wkm']))

    # ---- radial transform
    TOL = {('fftlog', False): {0: .004, 2: .004, 4: .004, 6: .6}, ('fftlog', True): {0: .05, 2: .15, 4: .2, 6: .6}, ('hankel', False): {2: .03, 4: .01, 6: .01}}
    KW = {'fftlog': 100, 'hankel': 20}

    def uell(E, lm, trunc, method):
        from scipy.special import spherical_jn
        rng = np.random.default_rng(E.seed)
        nz, nm = 2, 2
        z = np.array([0.2, 0.7])
        rv = 10 ** rng.uniform(-.4, .3, nm)
        c = rng.uniform(2, 9, (nz, nm))
        b = float(rng.uniform(-1.5, 0.0))
        amp = rng.uniform(1e-3, 5e-3, nz)
        V = {'gamma_1h_amp': amp}
        cls = leafclass(ia.SatelliteAlignment, V, 'SatelliteAlignment')
        kw = dict(gamma_1h_slope=b, satellite_ia_depends_on='constant', ell_max=lm, truncate=trunc, method=method, nk=KW[method])
        o = cls(mass_in=np.array([1e13, 1e14]), c_in=c, r_s_in=rv / c, rvir_in=rv, z_vec=z, nmass=2, **kw)
        if not have(E, o, 'compute_uell_gamma_r_hankel'):
            return
        u = o.compute_uell_gamma_r_hankel
        k = o.k_vec
        if method == 'hankel':
            E.true('number of wavenumbers requested', k.size == KW[method])
        E.true('wavenumbers increasing', bool((np.diff(k) > 0).all()))
        E.true('shape', u.shape == (lm // 2 + 1, nz, nm, k.size))
        x, wx = np.polynomial.legendre.leggauss(1600)
        for jz in range(nz):
            for jm in range(nm):
                one = leafclass(ia.SatelliteAlignment, {'gamma_1h_amp': amp[jz:jz + 1]}, 'SatelliteAlignment')(
                    mass_in=np.array([1e13]), c_in=c[jz:jz + 1, jm:jm + 1], r_s_in=(rv / c)[jz:jz + 1, jm:jm + 1], rvir_in=rv[jm:jm + 1], z_vec=z[:1], nmass=1, **kw)
                E.true('every redshift and mass uses its own halo only', np.allclose(one.compute_uell_gamma_r_hankel[:, 0, 0], u[:, jz, jm], rtol=1e-9, atol=1e-12 * abs(u).max()))
                rs = rv[jm] / c[jz, jm]
                seg = [math.log(1e-7), math.log(0.06), math.log(rv[jm])] + ([] if trunc else [math.log(rv[jm] * 1e2), math.log(rv[jm] * 3e3)])
                m = 4 * math.pi * rs ** 3 * (math.log(1 + c[jz, jm]) - c[jz, jm] / (1 + c[jz, jm]))
                for i, l in enumerate(range(0, lm + 1, 2)):
                    if l not in TOL[method, trunc]:
                        continue
                    ks = [q for q in range(k.size) if 0.1 < k[q] < 30][::1 if method == 'hankel' else 4]
                    ref = []
                    for kq in ks:
                        s = 0.0
                        for a0, a1 in zip(seg[:-1], seg[1:]):
                            r = np.exp(0.5 * (a1 - a0) * x + 0.5 * (a1 + a0))
                            g = np.minimum(amp[jz] * (np.maximum(r, 0.06) / rv[jm]) ** b, 0.3)
                            s += 0.5 * (a1 - a0) * (wx * g / (r / rs * (1 + r / rs) ** 2) * spherical_jn(l, k[kq] * r) * r ** 3).sum()
                        ref.append(s / m)
                    top = max(abs(v) for v in ref)
                    if l == 6 and method == 'fftlog':
                        # the library's settings are coarse here: judged by the typical wavenumber
                        e = np.median([abs(u[i, jz, jm, kq] / v - 1) for kq, v in zip(ks, ref) if abs(v) > 0.2 * top])
                        E.true('transform of the weighted profile, ell=6', e < TOL[method, trunc][l], note=f'median error {e}')
                        continue
                    for kq, v in zip(ks, ref):
                        if abs(v) > 0.2 * top:
                            got = u[i, jz, jm, kq]
                            E.true(f'transform of the weighted profile, ell={l}', abs(got / v - 1) < TOL[method, trunc][l], note=f'k={k[kq]}: {got} {v} {top}')
    for method, trunc in (('fftlog', False), ('fftlog', True), ('hankel', False)):
        for lm in (2, 6):
            out.append(case(f'radial transform {method} ell_max={lm} truncate={trunc}', lambda E, lm=lm, t=trunc, m=method: uell(E, lm, t, m), [S + 'compute_uell_gamma_r_hankel', S + 'k_vec', S + 'hankel'],
                            nnum=2, bounded=True, note='transform against quadrature between k=0.1 and 30 to 0.4 % (fftlog untruncated, ell<=4), 3 % (hankel), 20 % (truncated); ell=6 fftlog: median error below 60 %; 2 redshifts, 2 masses'))

    out.append(alignment_in_spectra('C15'))

    # ---- resampling
    def down(E):
        """every mass-grid size and target size up to 24; entries symbolic"""
        rng = np.random.default_rng(E.seed)
        for n in range(1, 25):
            for nm in (1, 2, 3, 4, 5, 7, 10, 12, 24):
                m = np.arange(1.0, n + 1) * 1e12
                z = np.array([.1, .2])
                c = np.ones((2, n)) * 5.0                       # constant in mass
                rs = rng.uniform(.1, .2, (2, n))
                rs[0, -1] = rs[0, 0]
                rv = np.ones(n)
                o = ia.SatelliteAlignment(z_vec=z, mass_in=m, c_in=c, r_s_in=rs, rvir_in=rv, nmass=nm, method='hankel')
                if n < nm:
                    try:
                        o.mass
                    except ValueError:
                        continue
                    E.true('too few masses rejected', False, note=f'{n} {nm}')
                    continue
                M = o.mass
                E.true(f'mass endpoints kept {n}/{nm}', M[0] == m[0] and M[-1] == m[-1], note=f'{M}')
                E.true(f'masses are a subset in order {n}/{nm}', bool(np.all(np.diff(M) > 0) and np.isin(M, m).all()))
                ix = np.searchsorted(m, M)
                E.true(f'all quantities at the same masses {n}/{nm}', np.array_equal(o.r_s, rs[:, ix]) and np.array_equal(o.c, c[:, ix]) and np.array_equal(o.rvir, rv[ix]),
                       note=f'{o.c.shape} {o.r_s.shape} {o.rvir.shape} {M.shape}')
                E.true(f'inputs untouched {n}/{nm}', np.array_equal(m, np.arange(1.0, n + 1) * 1e12) and (c == 5).all())
        o = ia.SatelliteAlignment(z_vec=z, mass_in=m, c_in=c, r_s_in=rs, rvir_in=rv, nmass=3, method='fftlog')
        E.true('fftlog keeps every mass', np.array_equal(o.mass, m) and np.array_equal(o.c, c) and np.array_equal(o.r_s, rs) and np.array_equal(o.rvir, rv))
    out.append(case('downsampling', down, [S + '_downsample', S + 'mass', S + 'c', S + 'r_s', S + 'rvir'], nnum=1, bounded=True, note='mass grids of up to 24 masses, 9 target sizes'))

    def up(E):
        E.dim('nz', 1, 3)
        E.dim('nm', 1, 3)
        E.dim('ni', 2, 5)
        E.dim('no', 1, 5)
        V = {'wkm_f_ell': E.t('w', ('nz', 'nm', 'ni'), '0+'), 'k_vec': E.grid('kin', 'ni', '+', .01, 10.)}
        if not have(E, ia.SatelliteAlignment, 'wkm_f_ell', 'k_vec'):
            return
        o = leafclass(ia.SatelliteAlignment, V, 'SatelliteAlignment')(method='fftlog', z_vec=E.grid('z_vec', 'nz', '+', .1, 1.))
        ko = E.t('kout', ('no',), '+', gen=lambda r, s: r.uniform(.005, 12., s))
        m = E.grid('mass', 'nm', '+', 1e12, 1e15)
        E.eq('linear in wavenumber', o.upsampled_wkm(ko, m), shim.SymInterp1d(E.s('kin'), E.s('w'), axis=-1, fill_value='extrapolate', bounds_error=False)(E.s('kout')))
        E.frame()
    out.append(case('upsampling fftlog', up, [S + 'upsampled_wkm']))

    def uphankel(E):
        if E.sym:
            return E.skip('numeric')
        rng = np.random.default_rng(E.seed)
        nz, nm, nk = 2, int(rng.integers(2, 5)), int(rng.integers(2, 6))
        m, k = np.sort(10 ** rng.uniform(12, 15, nm)), np.sort(10 ** rng.uniform(-2, 1, nk))
        w = rng.uniform(.1, 1, (nz, nm, nk))
        V = {'wkm_f_ell': w, 'k_vec': k, 'mass': m}
        if not have(E, ia.SatelliteAlignment, 'wkm_f_ell', 'k_vec', 'mass'):
            return
        o = leafclass(ia.SatelliteAlignment, V, 'SatelliteAlignment')(method='hankel', z_vec=np.array([.1, .2]))
        w0 = w.copy()
        got = o.upsampled_wkm(k, m)
        E.true('model grid reproduced', np.allclose(got, w, rtol=1e-9))
        mo, ko = np.sort(10 ** rng.uniform(12, 15, 3)), np.sort(10 ** rng.uniform(-2, 1, 4))
        got = o.upsampled_wkm(ko, mo)
        x, y, L = np.log10(m), np.log10(k), np.log10(w / k ** 2)
        cl = lambda g, v: int(np.clip(np.searchsorted(g, v) - 1, 0, len(g) - 2))
        for a in range(3):
            for b in range(4):
                i, j = cl(x, np.log10(mo[a])), cl(y, np.log10(ko[b]))
                s, t = (np.log10(mo[a]) - x[i]) / (x[i + 1] - x[i]), (np.log10(ko[b]) - y[j]) / (y[j + 1] - y[j])
                e = L[:, i, j] * (1 - s) * (1 - t) + L[:, i + 1, j] * s * (1 - t) + L[:, i, j + 1] * (1 - s) * t + L[:, i + 1, j + 1] * s * t
                E.true('bilinear in logarithms, times k squared', np.allclose(got[:, a, b], 10 ** e * ko[b] ** 2, rtol=1e-8))
        E.true('shape', got.shape == (nz, 3, 4))
        E.true('inputs untouched', np.array_equal(w, w0))
    out.append(case('upsampling hankel', uphankel, [S + 'upsampled_wkm'], nnum=5, bounded=True, note='grids of up to 4 masses and 5 wavenumbers'))
    return out
