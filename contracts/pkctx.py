"""Shared set-up for the contracts on onepower.pk.Spectra.

`Ctx` builds a real `Spectra` object whose *leaf* quantities (the ones whose own contracts live in hmi/hod/ia) are
supplied by the proof environment; everything in pk.py is the code of /repo.  The `spec_*` methods are the contract side.
"""
from __future__ import annotations
import numpy as np
from onv import shim, terms as T
from onv.tensor import SymTensor
import onepower.pk as pk
import onepower.hod as hodm
import onepower.utils.poisson as pois

NP = shim.NPX
MODS = [pk, pois]
_n = None


def leafclass(base, values, name=None, methods=None):
    """subclass of `base` in which every name of `values` is a read-only leaf"""
    ns = {}
    for k, v in values.items():
        ns[k] = property((lambda v: lambda self: v)(v), lambda self, x: None)
    for k, f in (methods or {}).items():
        ns[k] = f
    return type(base)(name or base.__name__, (base,), ns)


def drop_plugin(cls, name):
    for k in list(getattr(cls, '_plugins', {})):
        if k == name:
            del cls._plugins[k]


HODLEAF = {'f_c': ('nb', 'nz'), 'f_s': ('nb', 'nz'), 'hod_cen': ('nb', 'nz', 'nm'), 'hod_sat': ('nb', 'nz', 'nm'),
           'number_density_cen': ('nb', 'nz'), 'number_density_sat': ('nb', 'nz'), 'number_density': ('nb', 'nz'),
           'avg_halo_mass_cen': ('nb', 'nz')}


KTR = ('one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia')


def logk(E):
    """an evenly log-spaced wavenumber grid k0*exp(j*dlnk)"""
    k0 = E.scalar('k0', '+', gen=lambda r: r.uniform(0.01, 0.1))
    dl = E.scalar('dlnk', '+', gen=lambda r: r.uniform(0.3, 1.5))
    n = E.dn('nk')
    node = T.mul(T.scalar('k0', '+'), T.app('exp', T.mul(T.scalar('dlnk', '+'), T.ivar('j'))))
    mkt = lambda nm: SymTensor.make((n,), lambda idx: T.subst(node, {T.ivar('j').id: idx[0]}), name=nm)
    E.specs['k_vec'] = mkt(None)
    if E.sym:
        r = E.owned['k_vec'] = mkt('k_vec')
        return r
    a = k0 * np.exp(dl * np.arange(E.scalars['nk']))
    E.leaves['k_vec'] = a
    r = E.owned['k_vec'] = a.copy()
    return r


class Ctx:
    def __init__(self, E, mode=None, response=False, hmcode=None, pointmass=False, cacciato=False, dewiggle=False,
                 ktr=True, align=True, betas=('c', 's'), beta_nl=None, poisson='constant', nb=True, lin='leaf', nl='leaf',
                 kw=None, extra_vals=None, methods=None, u_norm=False, fullhod=True):
        self.E = E
        self.mode, self.response, self.hmcode, self.pointmass, self.cacciato = mode, response, hmcode, pointmass, cacciato
        self.dewig = mode == 'hmcode' or dewiggle
        E.dim('nb', 1, 3)
        E.dim('nz', 1, 3)
        E.dim('nk', 3 if self.dewig else 2, 5)
        E.dim('nm', 2, 6)
        V = {}
        V['mass'] = E.grid('mass', 'nm', '+', 0.5, 40.0, log=True)
        V['z_vec'] = E.grid('z_vec', 'nz', '+', 0.05, 2.0)
        V['k_vec'] = logk(E) if self.dewig else E.grid('k_vec', 'nk', '+', 0.01, 8.0, log=True)
        V['cosmo_model'] = self.cosmo = object()
        V['dndlnm'] = E.t('dndlnm', ('nz', 'nm'), '+', gen=lambda r, s: 0.02 * np.exp(r.normal(0, 0.7, s)))
        V['halo_bias'] = E.t('halo_bias', ('nz', 'nm'), '+')
        V['u_dm'] = E.t('u_dm', ('nz', 'nk', 'nm'), '+')
        V['u_sat'] = E.t('u_sat', ('nz', 'nk', 'nm'), '+')
        for n in ('mean_density0', 'growth_factor', 'sigma8_z'):
            V[n] = E.t(n, ('nz',), '+')
        V['neff'] = E.t('neff', ('nz',))
        for n in ('omega_c', 'omega_b', 'omega_m'):
            V[n] = E.scalar(n, '+', gen=lambda r: r.uniform(0.1, 0.9))
        V['log10T_AGN'] = E.scalar('log10T_AGN', '+', gen=lambda r: r.uniform(7.0, 8.4))
        V['mb'] = E.scalar('mb', '+')
        V['n_s'] = E.scalar('n_s', '+', gen=lambda r: r.uniform(0.8, 1.1))
        V['t_eff'] = E.scalar('t_eff')
        if isinstance(lin, str):
            V['matter_power_lin'] = E.t('plin', ('nz', 'nk'), '+')
        else:
            V['matter_power_lin'] = lin
        if isinstance(nl, str):
            V['matter_power_nl'] = E.t('pnl', ('nz', 'nk'), '+')
        else:
            V['matter_power_nl'] = nl
        self.ktr = KTR if ktr is True else tuple(ktr or ())
        for n in KTR:
            V[n] = E.scalar(n, '+') if n in self.ktr else None
        if mode == 'bnl':
            V['beta_nl'] = E.t('bnl', ('nz', 'nk', 'nm', 'nm')) if beta_nl is None else beta_nl
        if self.dewig:
            E.fun('lnt', lambda x: np.sin(x) - 0.1 * x)
            V['Tk_EH_nowiggle_lnt'] = self._lnt
        # HOD
        H = {}
        for n, d in HODLEAF.items():
            H[n] = E.t('h_' + n, d, '+')
        H['stellar_fraction'] = E.t('h_fstar', ('nb', 'nz', 'nm'), '+', gen=lambda r, s: r.uniform(0.0, 0.2, s))
        self.H = H
        ctx = self

        class _HodBase(hodm.HaloOccupationDistribution):
            def __init__(self, cosmo=None, mass=None, dndlnm=None, halo_bias=None, z_vec=None, hod_settings=None, **params):
                ctx.hodcalls.append(dict(cosmo=cosmo, mass=mass, dndlnm=dndlnm, halo_bias=halo_bias, z_vec=z_vec,
                                         hod_settings=hod_settings, params=params))
                self._settings = hod_settings
        self.hodcalls = []
        allabs = {}
        for a in dir(hodm.HaloOccupationDistribution):
            if getattr(getattr(hodm.HaloOccupationDistribution, a), '__isabstractmethod__', False):
                allabs[a] = None
        vals = {**allabs, **H}
        # the matter-matter occupation object has its own stellar fraction
        self.fstar_mm = E.t('h_fstar_mm', (1, 'nz', 'nm'), '+', gen=lambda r, s: r.uniform(0.0, 0.2, s)) if cacciato else None
        self.mm_settings = {'observables_file': None, 'obs_min': 1.0, 'tag': 'mm'}
        self.gal_settings = {'observables_file': None, 'obs_min': 2.0, 'tag': 'gal'}
        fst, fmm = H['stellar_fraction'], self.fstar_mm
        vals.pop('stellar_fraction')
        F = leafclass(_HodBase, vals, 'LeafHod', {
            'stellar_fraction': property(lambda s: fmm if (s._settings or {}).get('tag') == 'mm' and fmm is not None else fst)})
        drop_plugin(hodm.HaloOccupationDistribution, 'LeafHod')
        drop_plugin(hodm.HaloOccupationDistribution, '_HodBase')
        if cacciato:
            F.__name__ = 'Cacciato'
        self.Hod = F
        # alignment
        self.betas = betas
        if align:
            A = {}
            A['alignment_gi'] = E.t('a_gi', ('nz',), gen=lambda r, s: r.normal(0, 2e13, s))   # C1 = 5e-14: centrals and satellites of comparable size
            A['beta_cen'] = E.scalar('beta_cen') if 'c' in betas else None
            A['beta_sat'] = E.scalar('beta_sat') if 's' in betas else None
            A['mpivot_cen'] = E.scalar('mpivot_cen', '+') if 'c' in betas or 'C' in betas else None
            A['mpivot_sat'] = E.scalar('mpivot_sat', '+') if 's' in betas or 'S' in betas else None
            wkm = E.t('wkm', ('nz', 'nm', 'nk'), '+')

            class Al:
                pass
            al = Al()
            for k, v in A.items():
                setattr(al, k, v)
            al.upsampled_wkm = lambda k, m: self._wkm(k, m, wkm)
            self.align = al
            V['alignment_class'] = al
        V.update(extra_vals or {})
        self.V = V
        kwargs = dict(nonlinear_mode=mode, response=response, hmcode_ingredients=hmcode, pointmass=pointmass,
                      dewiggle=dewiggle, hod_model=F, hod_settings=self.gal_settings, hod_settings_mm=self.mm_settings)
        pp = {}
        if poisson == 'constant':
            pp = {'poisson': E.scalar('poisson', '+')}
            kwargs['poisson_model'] = 'constant'
        elif poisson == 'power_law':
            pp = {'poisson': E.scalar('poisson', '+'), 'pivot': E.scalar('ppivot', gen=lambda r: r.uniform(0, 1)), 'slope': E.scalar('pslope')}
            kwargs['poisson_model'] = 'power_law'
        self.poisson = poisson
        if pp:
            V['poisson_params'] = pp
        kwargs.update(kw or {})
        self.cls = leafclass(pk.Spectra, V, 'Spectra', methods)
        self.obj = self.cls(**kwargs)

    # ---------------- stand-ins for callees under their contract
    def _lnt(self, lnk):
        E = self.E
        if E.sym:
            l = shim.lift(lnk)
            f = l.numfn()
            return SymTensor.make(l.dims, lambda idx: T.app('lnt', f(idx)))
        return E.funcs['lnt'](lnk)

    def _wkm(self, k, m, wkm):
        E = self.E
        E.eq('pre upsampled_wkm: called with k_vec', k, E.s('k_vec'))
        E.eq('pre upsampled_wkm: called with mass', m, E.s('mass'))
        return wkm

    # ---------------- spec side
    def s(self, n):
        return self.E.s(n)

    @property
    def M(self):
        return self.s('mass')

    def zm(self, n):
        return self.s(n)[None, :, None, :]

    @property
    def rho(self):
        return self.s('mean_density0')[None, :, None, None]

    def simp(self, y):
        return shim.sym_simpson(y, x=self.M, axis=-1)

    def W_m(self):
        return self.M / self.rho * self.s('u_dm')[None]

    def f_star_hmc(self):
        th = self.s('log10T_AGN') - 7.8
        z = self.s('z_vec')[None, :, None, None]
        return (2.01 - 0.3 * th) * 0.01 * 10 ** (z * (0.409 + 0.0224 * th))

    def mb_hmc(self):
        th = self.s('log10T_AGN') - 7.8
        z = self.s('z_vec')[None, :, None, None]
        return 10 ** (13.87 + 1.81 * th) * 10 ** (z * (0.195 * th - 0.108))

    def fgas(self, mb, fs):
        x = (self.M / mb) ** 2
        return (self.s('omega_b') / self.s('omega_m') - fs) * x / (1 + x)

    def W_feedback(self):
        fs = self.f_star_hmc()
        return (self.s('omega_c') / self.s('omega_m') + self.fgas(self.mb_hmc(), fs)) * self.W_m() + fs * self.M / self.rho

    def W_obs(self, fs):
        fs = fs[:, :, None, :]
        return (self.s('omega_c') / self.s('omega_m') + self.fgas(self.s('mb'), fs)) * self.W_m() + fs * self.M / self.rho

    def W1h_mm(self):
        if self.hmcode == 'mead2020_feedback':
            return self.W_feedback()
        if self.hmcode == 'fit':
            if self.cacciato:
                return self.W_obs(self.s('h_fstar_mm'))
            z = SymTensor.make((1, self.E.dn('nz'), self.E.dn('nm')), lambda idx: T.num(0))
            return self.W_obs(z)
        return self.W_m()

    def W1h_g(self):
        if self.hmcode == 'mead2020_feedback':
            return self.W_feedback()
        if self.hmcode == 'mead2020':
            return self.W_m()
        if self.hmcode == 'fit' or self.pointmass:
            return self.W_obs(self.s('h_fstar'))
        return self.W_m()

    def A(self):
        return 1 - self.simp(self.zm('halo_bias') * self.zm('dndlnm') / self.rho)

    def I(self, W):
        return self.simp(W * self.zm('halo_bias') * self.zm('dndlnm') / self.M)

    def Im(self):
        return self.I(self.W_m()) + self.A()

    def one_h(self, U, W):
        return self.simp(U * W * self.zm('dndlnm') / self.M)

    def trap(self, y):
        return shim.sym_trapezoid(y, x=self.M, axis=-1)

    def INL(self, W1, W2, beta=None):
        b = (self.s('bnl') if beta is None else beta)[None]         # (1,z,k,M1,M2)
        A = self.A()
        n = self.zm('halo_bias') * self.zm('dndlnm') / self.M
        r = (self.s('mean_density0') / self.M[0])[None, :, None]
        w1, w2 = W1[..., 0], W2[..., 0]
        i11 = b[..., 0, 0] * A * A * w1 * w2 * r * r
        i12 = A * w1 * r * self.trap(b[..., 0, :] * n * W2)
        i21 = A * w2 * r * self.trap(b[..., :, 0] * n * W1)
        inner = self.trap(b * (n * W2)[..., None, :])
        i22 = self.trap(inner * n * W1)
        return i11 + i12 + i21 + i22

    def k(self):
        return self.s('k_vec')[None, None, :]

    def t1h(self):
        if 'one_halo_ktrunc' not in self.ktr:
            return 1.0
        x = (self.k() / self.s('one_halo_ktrunc')) ** 4
        return x / (1 + x)

    def t2h(self):
        if 'two_halo_ktrunc' not in self.ktr:
            return 1.0
        x = (self.k() / 0.05699) ** 2.853
        return 1 - 0.05 * x / (1 + x)

    def t1ia(self):
        if 'one_halo_ktrunc_ia' not in self.ktr:
            return 1.0
        return 1 - NP.exp(-(self.k() / self.s('one_halo_ktrunc_ia')) ** 2)

    def t2ia(self):
        if 'two_halo_ktrunc_ia' not in self.ktr:
            return 1.0
        return NP.exp(-(self.k() / self.s('two_halo_ktrunc_ia')) ** 2)

    def plin(self):
        p = self.s('plin')
        if self.dewig:
            p = self.dewiggle(p)
        return p[None]

    def sigv(self, p):
        k = self.s('k_vec')
        dl = NP.log(k[1] / k[0])
        return NP.sqrt(shim.sym_simpson(p * k, dx=dl, axis=-1) / (6 * NP.pi ** 2))

    def wiggle(self, p):
        k = self.s('k_vec')
        dl = NP.log(k[1] / k[0])
        lk = NP.log(k)
        f = lk.numfn()
        tk = SymTensor.make(lk.dims, lambda idx: T.app('lnt', f(idx)))
        nw = k ** self.s('n_s') * NP.exp(tk) ** 2
        return p - shim.sym_gauss1d(p / nw, 0.25 / dl) * nw

    def dewiggle(self, p):
        s = self.sigv(p)[:, None]
        return p - (1 - NP.exp(-(self.s('k_vec')[None, :] * s) ** 2)) * self.wiggle(p)

    def pnl(self):
        return self.s('pnl')[None]

    def peff(self):
        t = self.s('t_eff')
        return (1 - t) * self.pnl() + t * self.plin()

    # galaxy profiles
    def h(self, n):
        t = self.s('h_' + n)
        return t[:, :, None, :] if t.ndim == 3 else t[:, :, None, None]

    def W_c(self):
        one = self.s('u_sat')[None] * 0 + 1
        return self.h('f_c') * self.h('hod_cen') / self.h('number_density_cen') * one

    def W_s(self):
        return self.h('f_s') * self.h('hod_sat') / self.h('number_density_sat') * self.s('u_sat')[None]

    def P(self):
        if self.poisson == 'constant':
            return self.s('poisson') * (self.M * 0 + 1)
        if self.poisson == 'power_law':
            return self.s('poisson') * (self.M / 10 ** self.s('ppivot')) ** self.s('pslope')
        return self.M * 0 + 1

    # alignment profiles
    def mfac(self, which):
        if which not in self.betas:
            return 1.0
        n = {'c': 'cen', 's': 'sat'}[which]
        mavg = (self.s('h_avg_halo_mass_cen') / self.s('h_number_density'))[:, :, None, None]
        return (mavg / self.s('mpivot_' + n)) ** self.s('beta_' + n)

    def ampl(self):
        return 5e-14 * self.s('a_gi')

    def Wa_c(self):
        c = (self.ampl() / self.s('growth_factor'))[None, :, None, None]
        return self.h('f_c') * c * self.M * self.mfac('c')

    def Wa_s(self):
        w = self.s('wkm').transpose(0, 2, 1)[None]
        return self.h('f_s') * self.h('hod_sat') * w / self.h('number_density_sat') * self.mfac('s')

    def Ia(self, W):
        return self.I(W) + self.A() * W[..., 0] * self.s('mean_density0')[None, :, None] / self.M[0]

    def la(self):
        """linear alignment amplitude C1*rho/D, (1,nz,1)"""
        return (self.ampl() * self.s('mean_density0') / self.s('growth_factor'))[None, :, None]

    # ---------------- spectra
    def spec_mm_base(self):
        W = self.W1h_mm()
        if self.mode == 'hmcode':
            s8 = self.s('sigma8_z')[None, :, None]
            ks = 0.05618 * s8 ** (-1.013)
            x = (self.k() / ks) ** 4
            p1 = self.one_h(W, W) * x / (1 + x)
            y = (self.k() / (0.05699 * s8 ** (-1.089))) ** 2.853
            p2 = self.plin() * (1 - 0.2696 * s8 ** 0.9403 * y / (1 + y))
            pre = self.k() ** 3 / (2 * NP.pi ** 2)
            al = 1.875 * 1.603 ** self.s('neff')[None, :, None]
            tot = ((pre * p1) ** al + (pre * p2) ** al) ** (1 / al) / pre
            return p1, p2, tot
        p1 = self.one_h(W, W) * self.t1h()
        Im = self.Im()
        if self.mode == 'bnl':
            Wm = self.W_m()
            p2 = self.plin() * (Im * Im + self.INL(Wm, Wm))
        else:
            p2 = self.plin() * Im * Im * self.t2h()
        return p1, p2, p1 + p2

    def resp(self, p1, p2):
        if self.response:
            r = self.pnl() / self.spec_mm_base()[2]
            return p1 * r, p2 * r, (p1 + p2) * r
        return p1, p2, p1 + p2

    def spec_mm(self):
        if self.response:
            z = self.pnl() * 0
            return z, z, self.pnl()
        return self.spec_mm_base()

    def spec_gg(self):
        c, s = self.W_c(), self.W_s()
        p1 = (2 * self.one_h(c, s) + self.one_h(s * self.P(), s)) * self.t1h()
        Ig = self.I(c) + self.I(s)
        if self.mode == 'bnl':
            p2 = self.plin() * (Ig * Ig + self.INL(c + s, c + s))
        else:
            p2 = self.plin() * Ig * Ig * self.t2h()
        return self.resp(p1, p2)

    def spec_gg_bias2(self):
        Ig = self.I(self.W_c()) + self.I(self.W_s())
        return Ig * Ig

    def spec_gm(self):
        c, s = self.W_c(), self.W_s()
        p1 = self.one_h(c + s, self.W1h_g()) * self.t1h()
        Ig = self.I(c) + self.I(s)
        if self.mode == 'bnl':
            p2 = self.plin() * (Ig * self.Im() + self.INL(c + s, self.W_m()))
        else:
            p2 = self.plin() * Ig * self.Im() * self.t2h()
        return self.resp(p1, p2)

    def spec_gm_bias2(self):
        return (self.I(self.W_c()) + self.I(self.W_s())) * self.Im()

    def spec_mi(self):
        c, s = self.Wa_c(), self.Wa_s()
        p1 = -self.one_h(self.W1h_g(), s) * self.t1ia()
        if self.mode == 'fortuna':
            p2 = -self.s('h_f_c')[:, :, None] * self.peff() * self.la() * self.t2ia()
        elif self.mode == 'bnl':
            p2 = -self.plin() * ((self.Ia(c) + self.Ia(s)) * self.Im() + self.INL(c + s, self.W_m()))
        else:
            p2 = -self.plin() * (self.Ia(c) + self.Ia(s)) * self.Im() * self.t2ia()
        return self.resp(p1, p2)

    def spec_ii(self):
        c, s = self.Wa_c(), self.Wa_s()
        p1 = self.one_h(s, s) * self.t1ia()
        if self.mode == 'fortuna':
            p2 = self.s('h_f_c')[:, :, None] ** 2 * self.peff() * self.la() ** 2 * self.t2ia()
        else:
            Ic, Is = self.Ia(c), self.Ia(s)
            p2 = Ic * Ic + Is * Is + Ic * Is
            if self.mode == 'bnl':
                p2 = self.plin() * (p2 + self.INL(c, c) + self.INL(s, s) + self.INL(c, s))
            else:
                p2 = self.plin() * p2 * self.t2ia()
        return self.resp(p1, p2)

    def spec_gi(self):
        c, s, g = self.Wa_c(), self.Wa_s(), self.W_c()
        p1 = self.one_h(g, s) * self.t1ia()
        if self.mode == 'fortuna':
            p2 = self.peff() * self.I(g) * self.la() * self.t2ia()
        elif self.mode == 'bnl':
            p2 = self.plin() * (self.I(g) * (self.Ia(c) + self.Ia(s)) + self.INL(c, g) + self.INL(s, g))
        else:
            p2 = self.plin() * self.I(g) * (self.Ia(c) + self.Ia(s)) * self.t2ia()
        return self.resp(p1, p2)
