"""Contracts on onepower.pk: missing mass (C06), damping (C07), feedback (C16), Poisson (C17), input power (C21)."""
from __future__ import annotations
import warnings
import numpy as np
from onv import shim, terms as T
from onv.core import Case
from onv.tensor import SymTensor
import onepower.pk as pk
import onepower.utils.poisson as pois
from .pkctx import Ctx, MODS, NP, leafclass
from .pkspec import SP, FN_CORE, FN_BNL, FN_FB, FN_GAL, FN_IA, case, label, full_like


def increasing(E, name, off=0):
    """hypothesis: the leaf grid is strictly increasing at the generic last index"""
    def h(idx):
        i = idx[-1]
        return T.lt(T.app(name, i), T.app(name, T.add(i, T.num(1))))
    return h


# ------------------------------------------------------------------ C06
def cases_C06():
    out = []

    def low_k(E):
        c = Ctx(E)
        u = c.V['u_dm']
        u[:, 1, :] = 1.0
        d = c
        A = d.obj.missing_mass_integral
        E.eq('A = 1 - int b n dM / rho', A, c.A())
        E.eq('two-halo factor is exactly one where profiles are normalised', c.obj.Im_term[:, :, 1], A[:, :, 0] * 0 + 1)
        E.eq('two-halo power is damped linear power there', c.obj.power_spectrum_mm.pk_2h[:, :, 1],
             c.plin()[:, :, 1] * (c.t2h() * (c.plin() * 0 + 1))[:, :, 1])
        E.eq('A_term is the missing mass integral', c.obj.A_term, A)
    out.append(case('C06', 'normalised profiles', low_k, [SP + f for f in ('missing_mass_integral', 'compute_A_term', 'A_term', 'Im_term', 'compute_Im_term', 'power_spectrum_mm')]))

    def gal_low_k(E):
        # galaxy-matter: Im factor is one as well
        c = Ctx(E, ktr=False)
        c.V['u_dm'][:, 0, :] = 1.0
        r = c.obj.power_spectrum_gm
        Ig = c.I(c.W_c()) + c.I(c.W_s())
        E.eq('gm two-halo is plin times galaxy bias', r.pk_2h[:, :, 0], (c.plin() * Ig)[:, :, 0])
    out.append(case('C06', 'normalised profiles gm', gal_low_k, [SP + 'power_spectrum_gm', SP + 'compute_Ig_term']))

    def warn(E):
        c = Ctx(E)
        s = 60.0 if (not E.sym and E.seed % 2) else 1.0
        if not E.sym:
            c.V['halo_bias'][...] *= s
            E.leaves['halo_bias'] *= s
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            A = c.obj.missing_mass_integral
        warned = any(issubclass(x.category, RuntimeWarning) and 'negative' in str(x.message) for x in w)
        E.eq('value unaffected by its sign', A, c.A())
        neg = NP.any(c.A() < 0)
        if not E.sym:
            E.true('warning given iff negative', bool(np.any(np.asarray(A) < 0)) == warned)
        else:
            E.true('warning given iff negative', neg if warned else ~neg)
    out.append(case('C06', 'negative correction warns', warn, [SP + 'compute_A_term', SP + 'missing_mass_integral'], nnum=4))

    def zero(E):
        sps = ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
        z = NP.zeros((E.dim('nz', 1, 3), E.dim('nk', 2, 5), E.dim('nm', 2, 6), E.dim('nm', 2, 6)))
        a = Ctx(E, mode='bnl', beta_nl=z)
        b = Ctx(E)
        if E.sym:
            one = NP.ones((E.dim('nk'),))
        else:
            one = np.ones(E.scalars['nk'])
        # same spectra without two-halo damping
        b2 = Ctx(E, extra_vals={'two_halo_truncation': one, 'two_halo_truncation_ia': one})
        for s in sps:
            E.eq(f'{s}: zero beta_nl is the undamped linear-bias result', getattr(a.obj, 'power_spectrum_' + s).pk_2h, getattr(b2.obj, 'power_spectrum_' + s).pk_2h)
            E.eq(f'{s}: one-halo untouched by beta_nl', getattr(a.obj, 'power_spectrum_' + s).pk_1h, getattr(b.obj, 'power_spectrum_' + s).pk_1h)
    out.append(case('C06', 'beta_nl = 0', zero, FN_BNL))

    def symm(E):
        E.dim('nz', 1, 3), E.dim('nk', 2, 5), E.dim('nm', 2, 6)
        h = E.t('hbnl', ('nz', 'nk', 'nm', 'nm'))
        beta = h + h.transpose(0, 1, 3, 2)
        c = Ctx(E, mode='bnl', beta_nl=beta)
        o = c.obj
        if not hasattr(o, 'I_NL'):
            E.skip('no I_NL')
            return
        W1, W2 = o.matter_profile, o.central_galaxy_profile + o.satellite_galaxy_profile
        args = (o.halo_bias, o.halo_bias, o.dndlnm, o.dndlnm, o.A_term, o.mean_density0, o._beta_nl_array, o.I12, o.I21, o.I22)
        E.eq('I_NL(W1,W2) = I_NL(W2,W1)', o.I_NL(W1, W2, *args), o.I_NL(W2, W1, *args))
    out.append(case('C06', 'beta_nl symmetric', symm, FN_BNL))
    return out


# ------------------------------------------------------------------ C07
def cases_C07():
    out = []

    def bounds(E):
        c = Ctx(E)
        o = c.obj
        k, kt = c.s('k_vec'), c.s('one_halo_ktrunc')
        t1, t2, i1, i2 = o.one_halo_truncation, o.two_halo_truncation, o.one_halo_truncation_ia, o.two_halo_truncation_ia
        for n, t in (('one_halo', t1), ('two_halo', t2), ('one_halo_ia', i1), ('two_halo_ia', i2)):
            E.ge(f'{n} >= 0', t, 0)
            E.ge(f'{n} <= 1', 1, t)
        E.eq('one-halo factor', t1, c.t1h()[0, 0])
        E.eq('two-halo factor', t2, c.t2h()[0, 0])
        E.eq('one-halo IA factor', i1, c.t1ia()[0, 0])
        E.eq('two-halo IA factor', i2, c.t2ia()[0, 0])
        E.ge('one-halo factor vanishes towards large scales: at most (k/kt)^4', (k / kt) ** 4, t1)
        E.ge('one-halo IA factor vanishes towards large scales: at most (k/kt)^2', (k / c.s('one_halo_ktrunc_ia')) ** 2, i1)
        inc = [increasing(E, 'k_vec')]
        E.ge('one-halo factor increases with k', t1[1:], t1[:-1], hyps=inc)
        E.ge('one-halo IA factor increases with k', i1[1:], i1[:-1], hyps=inc)
        E.ge('two-halo factor decreases with k', t2[:-1], t2[1:], hyps=inc)
        E.ge('two-halo IA factor decreases with k', i2[:-1], i2[1:], hyps=inc)
    out.append(case('C07', 'bounds', bounds, [SP + f for f in ('one_halo_truncation', 'two_halo_truncation', 'one_halo_truncation_ia', 'two_halo_truncation_ia')]))

    def off(E):
        c = Ctx(E, ktr=False)
        o = c.obj
        one = c.s('k_vec') * 0 + 1
        for n in ('one_halo_truncation', 'two_halo_truncation', 'one_halo_truncation_ia', 'two_halo_truncation_ia'):
            E.eq(f'{n} is one when switched off', getattr(o, n), one)
        for w in ('one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia'):
            v = {x: None for x in ('one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia') if x == w}
            d = Ctx(E, extra_vals=v)
            E.eq(f'only {w} switched off', getattr(d.obj, w.replace('ktrunc', 'truncation')), one)
            for x, f in (('one_halo_ktrunc', d.t1h), ('two_halo_ktrunc', d.t2h), ('one_halo_ktrunc_ia', d.t1ia), ('two_halo_ktrunc_ia', d.t2ia)):
                if x != w:
                    E.eq(f'{x} unaffected by switching off {w}', getattr(d.obj, x.replace('ktrunc', 'truncation')), f()[0, 0])
    out.append(case('C07', 'switched off', off, [SP + f for f in ('one_halo_truncation', 'two_halo_truncation', 'one_halo_truncation_ia', 'two_halo_truncation_ia')]))

    def scale(E):
        E.dim('nk', 2, 5)
        k = E.grid('k_vec', 'nk', '+', 0.01, 8.0, log=True)
        c = Ctx(E, extra_vals={n: k[1] for n in ('one_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia')})
        o = c.obj
        e = NP.exp(SymTensor.scalar(T.num(-1)))
        E.eq('one half at the truncation scale', o.one_halo_truncation[1], SymTensor.scalar(T.num(0.5)))
        E.eq('1-1/e at the truncation scale', o.one_halo_truncation_ia[1], 1 - e)
        E.eq('1/e at the truncation scale', o.two_halo_truncation_ia[1], e)
    out.append(case('C07', 'truncation scale', scale, [SP + 'one_halo_truncation', SP + 'one_halo_truncation_ia', SP + 'two_halo_truncation_ia']))

    def mead(E):
        c = Ctx(E, hmcode='mead2020')
        o = c.obj
        s8 = c.V['sigma8_z']
        t1 = o.one_halo_truncation_mead2020(s8)
        t2 = o.two_halo_truncation_mead2020(s8)
        S = c.s('sigma8_z')[None, :, None]
        k = c.s('k_vec')[None, None, :]
        x = (k / (0.05618 * S ** (-1.013))) ** 4
        y = (k / (0.05699 * S ** (-1.089))) ** 2.853
        E.eq('mead one-halo', t1, x / (1 + x))
        E.eq('mead two-halo', t2, 1 - 0.2696 * S ** 0.9403 * y / (1 + y))
        E.ge('mead one-halo >= 0', t1, 0)
        E.ge('mead one-halo <= 1', 1, t1)
        E.ge('mead two-halo <= 1', 1, t2)

        def amp(idx):
            f = T.mul(T.num(0.2696), T.pow_(T.app('sigma8_z', idx[1]), T.num(0.9403)))
            return T.le(f, T.num(1))
        E.ge('mead two-halo >= 0', t2, 0, hyps=[amp])
        E.ge('mead one-halo increases with k', t1[:, :, 1:], t1[:, :, :-1], hyps=[increasing(E, 'k_vec')])
        E.ge('mead two-halo decreases with k', t2[:, :, :-1], t2[:, :, 1:], hyps=[increasing(E, 'k_vec')])
    out.append(case('C07', 'hmcode factors', mead, [SP + 'one_halo_truncation_mead2020', SP + 'two_halo_truncation_mead2020']))

    def smooth(E):
        c = Ctx(E, hmcode='mead2020')
        o = c.obj
        p1 = E.t('p1', (1, 'nz', 'nk'), '+')
        p2 = E.t('p2', (1, 'nz', 'nk'), '+')
        r = o.transition_smoothing(c.V['neff'], p1, p2)
        P1, P2 = E.s('p1'), E.s('p2')
        al = 1.875 * 1.603 ** c.s('neff')[None, :, None]
        # (D1^a + D2^a)^(1/a) with D = k^3 P/2pi^2; the prefactor cancels
        E.eq('smoothed total', r, (P1 ** al + P2 ** al) ** (1 / al))
        E.ge('smoothed total >= one-halo part', r, P1)
        E.ge('smoothed total >= two-halo part', r, P2)
        E.frame()
    out.append(case('C07', 'transition smoothing', smooth, [SP + 'transition_smoothing']))
    return out


# ------------------------------------------------------------------ C16
def cases_C16():
    out = []

    def fg(E):
        c = Ctx(E)
        o = c.obj
        M = c.V['mass'][None, None, None, :]
        z = c.V['z_vec'][None, :, None, None]
        fs = E.t('fs', (1, 'nz', 1, 'nm'), '0+', gen=lambda r, s: r.uniform(0, 0.05, s))
        FS = E.s('fs')
        R = c.s('omega_b') / c.s('omega_m') - FS
        for nm, got, mb in (('fg', o.fg(M, z, fs), c.mb_hmc()), ('fg_fit', o.fg_fit(M, c.V['mb'], fs), c.s('mb'))):
            x = (c.M / mb) ** 2
            E.eq(f'{nm}: gas fraction', got, R * x / (1 + x))

            def pos(idx):
                f = R.numfn()((T.num(0), idx[1], T.num(0), idx[3]))
                return T.le(T.num(0), f)
            E.ge(f'{nm} >= 0 when the reservoir is', got, 0, hyps=[pos])
            E.ge(f'{nm} <= reservoir', R, got, hyps=[pos])
        E.eq('stellar fraction', o.fs(z), c.f_star_hmc())
    out.append(case('C16', 'gas and stellar fractions', fg, [SP + 'fg', SP + 'fg_fit', SP + 'fs']))

    def shape(E):
        c = Ctx(E)
        o = c.obj
        f = E.scalar('fsc', '0+')
        M = c.V['mass']
        got = o.fg_fit(M, c.V['mb'], f)
        R = c.s('omega_b') / c.s('omega_m') - E.s('fsc')
        pos = T.le(T.num(0), R.node())
        E.ge('gas fraction increases with mass', got[1:], got[:-1], hyps=[pos, increasing(E, 'mass')])
        half = o.fg_fit(M[1], M[1], f)
        E.eq('half of the reservoir at the pivot mass', half, R / 2)
        z = c.V['z_vec'][0]
        th = c.s('log10T_AGN') - 7.8
        mb = 10 ** (13.87 + 1.81 * th) * 10 ** (c.s('z_vec')[0] * (0.195 * th - 0.108))
        if E.sym:
            mbc = mb
        else:
            t = float(c.V['log10T_AGN']) - 7.8
            mbc = 10 ** (13.87 + 1.81 * t) * 10 ** (z * (0.195 * t - 0.108))
        E.eq('HMCode: half of the reservoir at the HMCode pivot', o.fg(mbc, z, f), R / 2)
        # deficit: reservoir - fg = reservoir / (1 + (M/mb)^2) <= reservoir*(mb/M)^2: vanishes for massive haloes
        E.ge('the reservoir is reached for massive haloes', R * (c.s('mb') / c.M) ** 2, R - got, hyps=[pos])
    out.append(case('C16', 'shape in mass', shape, [SP + 'fg', SP + 'fg_fit']))

    def prof(E):
        c = Ctx(E, hmcode='mead2020_feedback')
        o = c.obj
        E.eq('HMCode feedback profile', o.matter_profile_with_feedback, c.W_feedback())
        fst = E.t('fst', ('nb', 'nz', 'nm'), '0+', gen=lambda r, s: r.uniform(0, 0.05, s))
        E.eq('fit feedback profile', o.matter_profile_with_feedback_stellar_fraction_from_obs(fst), c.W_obs(E.s('fst')))
        E.eq('dark-matter-only profile', o.matter_profile, c.W_m())
        E.frame()
    out.append(case('C16', 'profiles', prof, FN_FB))

    def conserve(E):
        # omega_c + omega_b = omega_m, u = 1:  W + (reservoir - fgas) M/rho = M/rho
        oc, ob = E.scalar('oc2', '+', gen=lambda r: r.uniform(.1, .4)), E.scalar('ob2', '+', gen=lambda r: r.uniform(.02, .1))
        c = Ctx(E, extra_vals={'omega_c': oc, 'omega_b': ob, 'omega_m': oc + ob})
        c.V['u_dm'][...] = 1.0
        o = c.obj
        om = E.s('oc2') + E.s('ob2')
        Wm0 = c.M / c.rho + c.s('u_dm')[None] * 0
        fs = c.f_star_hmc()
        x = (c.M / c.mb_hmc()) ** 2
        left = (E.s('ob2') / om - fs) / (1 + x)
        E.eq('mass conserved up to the expelled gas (HMCode)', o.matter_profile_with_feedback, Wm0 * (1 - left))
        fst = E.t('fst', ('nb', 'nz', 'nm'), '0+', gen=lambda r, s: r.uniform(0, 0.05, s))
        f2 = E.s('fst')[:, :, None, :]
        y = (c.M / c.s('mb')) ** 2
        E.eq('mass conserved up to the expelled gas (fit)', o.matter_profile_with_feedback_stellar_fraction_from_obs(fst),
             Wm0 * (1 - (E.s('ob2') / om - f2) / (1 + y)))
    out.append(case('C16', 'mass conservation', conserve, FN_FB))

    def others(E):
        ref = Ctx(E)
        for hm in ('mead2020', 'mead2020_feedback', 'fit'):
            c = Ctx(E, hmcode=hm, cacciato=hm == 'fit')
            for s in ('gg', 'ii', 'gi'):
                a, b = getattr(c.obj, 'power_spectrum_' + s), getattr(ref.obj, 'power_spectrum_' + s)
                E.eq(f'{s} unaffected by {hm}: 1h', a.pk_1h, b.pk_1h)
                E.eq(f'{s} unaffected by {hm}: 2h', a.pk_2h, b.pk_2h)
            E.eq(f'two-halo matter factor unaffected by {hm}', c.obj.Im_term, ref.obj.Im_term)
            E.eq(f'gm two-halo unaffected by {hm}', c.obj.power_spectrum_gm.pk_2h, ref.obj.power_spectrum_gm.pk_2h)
    out.append(case('C16', 'only matter is affected', others, [SP + 'power_spectrum_gg', SP + 'power_spectrum_ii', SP + 'power_spectrum_gi', SP + 'power_spectrum_gm']))

    def fstar(E):
        c = Ctx(E, hmcode='fit', cacciato=True)
        o = c.obj
        E.eq('fstar_mm is the stellar fraction of the matter occupation', o.fstar_mm, c.s('h_fstar_mm'))
        E.eq('fstar is the stellar fraction of the galaxy occupation', o.fstar, c.s('h_fstar'))
        E.true('hod_mm built with hod_settings_mm', any(k['hod_settings'] == c.mm_settings for k in c.hodcalls))
        E.true('hod built with hod_settings', any(k['hod_settings'] == c.gal_settings for k in c.hodcalls))
        for k in c.hodcalls:
            E.eq('occupation gets the mass grid', k['mass'], c.s('mass'))
            E.eq('occupation gets the mass function', k['dndlnm'], c.s('dndlnm'))
            E.eq('occupation gets the halo bias', k['halo_bias'], c.s('halo_bias'))
            E.eq('occupation gets the redshifts', k['z_vec'], c.s('z_vec'))
            E.true('occupation gets the cosmology', k['cosmo'] is c.cosmo)
        d = Ctx(E, hmcode='fit')
        E.eq('no stellar matter without an observable model', d.obj.fstar_mm, SymTensor.make((1, E.dn('nz'), E.dn('nm')), lambda idx: T.num(0)))
    out.append(case('C16', 'stellar fractions', fstar, [SP + 'fstar', SP + 'fstar_mm', SP + 'hod', SP + 'hod_mm']))

    def default(E):
        E.true('default pivot mass is 10^13.87', abs(float(pk.Spectra().mb) / 10 ** 13.87 - 1) < 1e-9)
    out.append(case('C16', 'default pivot mass', default, [SP + '__init__'], nnum=1))
    return out


# ------------------------------------------------------------------ C17
def cases_C17():
    out = []

    def const(E):
        E.dim('nm', 1, 6)
        m = E.grid('mass', 'nm', '+', 1, 30)
        p = E.scalar('p')
        E.eq('constant model', pois.constant(m, poisson=p).poisson_func, E.s('p') * (E.s('mass') * 0 + 1))
        E.eq('default constant is one', pois.constant(m).poisson_func, E.s('mass') * 0 + 1)
        E.frame()
    out.append(Case('constant', 'C17', const, ['onepower.utils.poisson.constant.poisson_func'], MODS))

    def plaw(E):
        E.dim('nm', 1, 6)
        m = E.grid('mass', 'nm', '+', 1, 30)
        p, v, s = E.scalar('p'), E.scalar('piv', gen=lambda r: r.uniform(0, 1)), E.scalar('slope')
        E.eq('power law', pois.power_law(m, poisson=p, pivot=v, slope=s).poisson_func, E.s('p') * (E.s('mass') / 10 ** E.s('piv')) ** E.s('slope'))
        E.eq('power law with default parameter', pois.power_law(m, pivot=v, slope=s).poisson_func, (E.s('mass') / 10 ** E.s('piv')) ** E.s('slope'))
        for kw in ({}, {'pivot': v}, {'slope': s}):
            E.raises('error when incomplete: ' + ','.join(kw), ValueError, lambda: pois.power_law(m, poisson=p, **kw).poisson_func)
        E.eq('zero slope is the constant model', pois.power_law(m, poisson=p, pivot=v, slope=0.0).poisson_func, E.s('p') * (E.s('mass') * 0 + 1))
        E.frame()
    out.append(Case('power law', 'C17', plaw, ['onepower.utils.poisson.power_law.poisson_func'], MODS))

    def where(E):
        for pm in ('constant', 'power_law'):
            c = Ctx(E, poisson=pm)
            d = Ctx(E, poisson=None)
            E.eq(f'{pm}: poisson_func', c.obj.poisson_func, c.P())
            E.eq(f'default poisson_func is one', d.obj.poisson_func, c.M * 0 + 1)
            a, b = c.obj.power_spectrum_gg, d.obj.power_spectrum_gg
            s = c.W_s()
            E.eq(f'{pm}: enters the satellite-satellite one-halo power linearly', a.pk_1h - b.pk_1h, c.one_h(s * (c.P() - 1), s) * c.t1h())
            E.eq(f'{pm}: two-halo galaxy power unaffected', a.pk_2h, b.pk_2h)
            E.eq(f'{pm}: bias unaffected', a.galaxy_linear_bias, b.galaxy_linear_bias)
            for n in ('mm', 'gm', 'mi', 'ii', 'gi'):
                E.eq(f'{pm}: {n} unaffected', getattr(c.obj, 'power_spectrum_' + n).pk_tot, getattr(d.obj, 'power_spectrum_' + n).pk_tot)
    out.append(case('C17', 'where it enters', where, [SP + 'poisson_func', SP + 'power_spectrum_gg']))
    return out


# ------------------------------------------------------------------ C21
def cases_C21():
    out = []
    FN = [SP + f for f in ('_pk_lin', '_pk_nl', 'peff', 'power_spectrum_lin', 'dewiggle_plin', 'sigmaV', 'get_Pk_wiggle')]

    def one(E, c, tag, lin, nl):
        """the power the object works with, read through its results; `lin`/`nl` are the expected (nz,nk) powers"""
        E.eq(f'linear power{tag}', c.obj.power_spectrum_lin.pk_tot, lin[None])
        if c.response:
            E.eq(f'matter power is the non-linear power{tag}', c.obj.power_spectrum_mm.pk_tot, nl[None])
        if c.mode == 'fortuna':
            t = c.s('t_eff')
            E.eq(f'effective power{tag}', c.obj.peff, (1 - t) * nl + t * lin)
        else:
            E.true(f'effective power defined only in the fortuna mode{tag}', c.obj.peff is None)

    def mk(cfg, given):
        glin, gnl = given

        def fn(E):
            nq = E.dim('nq', 2, 6)
            ex = {}
            kw = {}
            if not (glin and gnl):
                kh = E.grid('kh', 'nq', '+', 0.005, 12.0, log=True)
                E.dim('nz', 1, 3)
                ex = {'kh': kh, 'power': E.t('power', ('nz', 'nq'), '+'), 'nonlinear_power': E.t('nlpower', ('nz', 'nq'), '+')}
            if not glin:
                kw['lin'] = None
            if not gnl:
                kw['nl'] = None
            c = Ctx(E, extra_vals=ex, **kw, **cfg)
            ip = lambda n: shim.SymInterp1d(E.s('kh'), E.s(n), axis=1, bounds_error=False, fill_value='extrapolate')(E.s('k_vec'))
            lin = c.s('plin') if glin else ip('power')
            nl = c.s('pnl') if gnl else ip('nlpower')
            one(E, c, '', c.dewiggle(lin) if c.dewig else lin, nl)
            E.frame()
        nm = {(True, True): 'both supplied', (True, False): 'linear supplied', (False, True): 'non-linear supplied', (False, False): 'none supplied'}[given]
        return case('C21', f'{nm}[{label(**cfg)}]', fn, FN)
    for mode in (None, 'bnl', 'fortuna', 'hmcode'):
        for dw in (False, True):
            for resp in (False, True):
                for given in ((True, True), (True, False), (False, True), (False, False)):
                    out.append(mk(dict(mode=mode, hmcode='mead2020' if mode == 'hmcode' else None, dewiggle=dw, response=resp), given))

    def interp(E):
        nq = E.dim('nq', 2, 6)
        E.dim('nz', 1, 3), E.dim('nk', 2, 5)
        kh = E.grid('kh', 'nq', '+', 0.005, 12.0, log=True)
        P = E.t('power', ('nz', 'nq'), '+')
        PN = E.t('nlpower', ('nz', 'nq'), '+')
        c = Ctx(E, mode='fortuna', lin=None, nl=None, extra_vals={'kh': kh, 'power': P, 'nonlinear_power': PN})
        ip = lambda n: shim.SymInterp1d(E.s('kh'), E.s(n), axis=1, bounds_error=False, fill_value='extrapolate')(E.s('k_vec'))
        E.eq('linear power interpolated linearly in k', c.obj.power_spectrum_lin.pk_tot[0], ip('power'))
        E.eq('effective power', c.obj.peff, (1 - c.s('t_eff')) * ip('nlpower') + c.s('t_eff') * ip('power'))
        d = Ctx(E, mode='fortuna', nl=None, extra_vals={'kh': kh, 'power': P, 'nonlinear_power': PN})
        E.eq('supplied linear, ingredient non-linear', d.obj.power_spectrum_lin.pk_tot[0], d.s('plin'))
        E.eq('supplied linear, ingredient non-linear (effective)', d.obj.peff, (1 - d.s('t_eff')) * ip('nlpower') + d.s('t_eff') * d.s('plin'))
        r = Ctx(E, response=True, lin=None, nl=None, extra_vals={'kh': kh, 'power': P, 'nonlinear_power': PN})
        E.eq('response: non-linear power from ingredients', r.obj.power_spectrum_mm.pk_tot[0], ip('nlpower'))
        E.frame()
    out.append(case('C21', 'interpolated', interp, FN))

    def dew(E):
        for kw in (dict(dewiggle=True), dict(mode='hmcode', hmcode='mead2020')):
            c = Ctx(E, **kw)
            E.eq(f'dewiggled power {sorted(kw)}', c.obj.power_spectrum_lin.pk_tot[0], c.dewiggle(c.s('plin')))
        o = c.obj
        k, P = c.V['k_vec'], c.V['matter_power_lin']
        E.eq('velocity dispersion', o.sigmaV(k, P), c.sigv(c.s('plin')))
        E.eq('wiggle part', o.get_Pk_wiggle(k, P, c.V['n_s']), c.wiggle(c.s('plin')))
        E.frame()
    out.append(case('C21', 'dewiggled', dew, FN))

    def rows(E):
        # a power whose smooth part is itself (constant times the no-wiggle form) is unchanged
        c0 = Ctx(E, dewiggle=True)
        k = c0.s('k_vec')
        amp = E.t('amp', ('nz',), '+')
        kk, ns = c0.V['k_vec'], c0.V['n_s']
        nw = kk ** ns * (NP.exp(c0._lnt(NP.log(kk))) ** 2 if E.sym else np.exp(c0._lnt(np.log(kk))) ** 2)
        c = Ctx(E, dewiggle=True, lin=amp[:, None] * nw[None, :])
        E.eq('no wiggles: unchanged', c.obj.power_spectrum_lin.pk_tot[0], E.s('amp')[:, None] * (k ** c0.s('n_s') * NP.exp(c0_lnt(k)) ** 2)[None, :])

    def c0_lnt(k):
        lk = NP.log(k)
        f = lk.numfn()
        return SymTensor.make(lk.dims, lambda idx: T.app('lnt', f(idx)))
    out.append(case('C21', 'no wiggles', rows, FN))
    return out
