"""Contracts on onepower.hmi: ingredients and HMCode fits (C20), profile normalisation (C06).

External classes (DMHaloModel, Flatw0waCDM, the ODE and quadrature solvers) are represented by their contracts: a
DMHaloModel is a bag of parameters with hmf's update/clone semantics whose attributes are uninterpreted functions of
the parameters they may depend on.
"""
from __future__ import annotations
import contextlib
import numpy as np
from onv import shim, terms as T, tensor as X
from onv.core import Case
from onv.tensor import SymTensor, Unsupported
import onepower.hmi as hmi
from .pkctx import leafclass

NP = shim.NPX
H = 'onepower.hmi.HaloModelIngredients.'
C = 'onepower.hmi.CosmologyBase.'
MODS = [hmi]
MEAD = ('mead2020', 'mead2020_feedback')
PI = NP.pi


@contextlib.contextmanager
def swap(mod, **kw):
    old = {k: mod.__dict__.get(k) for k in kw}
    mod.__dict__.update(kw)
    try:
        yield
    finally:
        mod.__dict__.update(old)


class Codes:
    """discrete option values as numbers"""

    def __init__(self):
        self.m = {}

    def __call__(self, o):
        if isinstance(o, dict):
            o = repr(sorted(o.items()))
        elif isinstance(o, type):
            o = o.__module__ + '.' + o.__qualname__
        else:
            o = repr(o)
        return self.m.setdefault(o, len(self.m) + 1)


COSMO = ('H0', 'Ob0', 'Om0', 'Neff', 'm_nu', 'Tcmb0', 'w0', 'wa')


class FUnit:
    def __init__(self, n):
        self.n = n

    def __rmul__(self, o):
        return ('unit', self.n, o)

    def __mul__(self, o):
        return ('unit', self.n, o)


class FUnits:
    eV = FUnit('eV')


class FCosmo:
    """contract of astropy's Flatw0waCDM"""
    E = None

    def __init__(self, H0, Om0, **kw):
        kw = dict(kw, H0=H0, Om0=Om0)
        self.kw = kw
        bad = set(kw) - set(COSMO)
        if bad:
            raise TypeError(f'unexpected arguments {bad}')
        m = kw.get('m_nu', 0.0)
        self.mnu_ok = isinstance(m, tuple) and m[:2] == ('unit', 'eV') and isinstance(m[2], list) and len(m[2]) == 3
        ms = list(m[2]) if self.mnu_ok else [m]
        self.args = [kw.get(c, -1.0) for c in COSMO if c != 'm_nu'] + ms
        self.Om0 = Om0
        self.Ok0 = 0.0
        self.Onu0 = ufa(self.E, 'Onu0', *self.args)

    def Om(self, z):
        return ufa(self.E, 'Om_z', *self.args, z)

    def Onu(self, z):
        return ufa(self.E, 'Onu_z', *self.args, z)

    def w(self, z):
        return ufa(self.E, 'w_z', *self.args, z)

    def de_density_scale(self, z):
        return ufa(self.E, 'de_z', *self.args, z)


def ufa(E, name, *args):
    if E is None:
        return shim.uapp(name, *args)
    return shim.ufun(E, name, sign='+')(*args)


def cosmo_class(E):
    return type('FCosmoE', (FCosmo,), {'E': E})


LIN = ('z', 'cosmo_model', 'sigma_8', 'n', 'transfer_model', 'transfer_params', 'growth_model', 'growth_params', 'lnk_min', 'lnk_max', 'dlnk')
MASS = ('Mmin', 'Mmax', 'dlog10m')
FULL = LIN + MASS + ('delta_c', 'hmf_model', 'mdef_model', 'bias_model', 'disable_mass_conversion', 'halo_profile_model',
                     'halo_concentration_model', 'mdef_params', 'halo_profile_params', 'halo_concentration_params')
SCAL = {'z', 'sigma_8', 'n', 'lnk_min', 'lnk_max', 'dlnk', 'Mmin', 'Mmax', 'dlog10m', 'delta_c'}
DKEYS = {'mdef_params': ('overdensity',), 'halo_profile_params': ('eta_bloat',), 'halo_concentration_params': ('norm', 'K')}


def scal(v):
    """scalars may come as one-element arrays (sigma8_z is one)"""
    if isinstance(v, SymTensor) and v.dims:
        return v[0]
    if isinstance(v, np.ndarray) and v.ndim:
        return v[0]
    return v


class FHM:
    """contract of halomod's DMHaloModel (hmf parameter semantics: dict parameters are merged in place)"""
    E = None
    codes = None
    nm = nk = None

    def __init__(self, **kw):
        self.log = {}
        self.rbw = set()
        self.p = {k: None for k in FULL}
        self.p.update(z=0.0, n=0.96, sigma_8=0.8, delta_c=1.686)
        for d in DKEYS:
            self.p[d] = {}
        self.p.update(transfer_params={}, growth_params={})
        self.update(**kw)

    # ---- parameter semantics
    def _cur(self):
        return X.LOOPS[-1] if X.LOOPS else None

    def _write(self, key):
        c = self._cur()
        if c is not None and (c, key) in self.rbw:
            raise Unsupported('loop-carried halo-model state')
        self.log[key] = c

    def _read(self, key):
        c = self._cur()
        w = self.log.get(key)
        if w is not None and not w.active:
            raise Unsupported('halo-model state read after the loop that set it')
        if c is not None and w is not c:
            self.rbw.add((c, key))

    def update(self, **kw):
        for k, v in kw.items():
            if k not in self.p:
                raise ValueError(f'Invalid arguments: {k}')
            if k.endswith('_params') and not isinstance(v, dict):
                raise ValueError(f'{k} must be a dictionary')
            if isinstance(v, dict):
                for q in v:
                    self._write(k + '.' + q)
                if v and self.p[k] and self.p[k] is not v:
                    self.p[k].update(v)
                else:
                    self.p[k] = v
            else:
                self._write(k)
                self.p[k] = v

    def clone(self, **kw):
        o = object.__new__(type(self))
        o.log, o.rbw = {}, set()
        c = self._cur()
        o.p = {}
        for k, v in self.p.items():
            if isinstance(v, dict):
                for q in v:
                    self._read(k + '.' + q)
                v = dict(v)
            else:
                self._read(k)
            o.p[k] = v
        for k in self.log:
            o.log[k] = c if c is None else None
        o.update(**kw)
        return o

    # ---- values
    def args(self, fields):
        out = []
        for f in fields:
            v = self.p[f]
            if f in DKEYS:
                for q in DKEYS[f]:
                    self._read(f + '.' + q)
                    out.append(scal(v[q]) if q in v else -1.0)
                if f == 'halo_profile_params':
                    cz = v.get('cosmo')
                    out += cz.args if isinstance(cz, FCosmo) else [self.codes(cz)]
                continue
            self._read(f)
            if f == 'cosmo_model':
                out += v.args
            elif f in SCAL:
                out.append(scal(v))
            else:
                out.append(self.codes(v))
        return out

    def val(self, name, fields, *extra):
        a = self.args(fields)
        return ufa(self.E, 'hm_' + name, *a, *extra)

    def _mi(self):
        return NP.arange(self.nm) * 1.0

    def _ki(self):
        return NP.arange(self.nk) * 1.0

    m = property(lambda s: s.val('m', MASS, s._mi()))
    k = property(lambda s: s.val('k', ('lnk_min', 'lnk_max', 'dlnk'), s._ki()))
    power = property(lambda s: s.val('power', LIN, s._ki()))
    nonlinear_power = property(lambda s: s.val('nlpower', LIN, s._ki()))
    halo_overdensity_mean = property(lambda s: s.val('odm', ('z', 'cosmo_model', 'mdef_model', 'mdef_params')))
    nu = property(lambda s: s.val('nu', LIN + MASS + ('delta_c',), s._mi()))
    dndlnm = property(lambda s: s.val('dndlnm', FULL, s._mi()))
    mean_density0 = property(lambda s: s.val('rho0', ('cosmo_model',)))
    mean_density = property(lambda s: s.val('rhoz', ('cosmo_model', 'z')))
    halo_bias = property(lambda s: s.val('bias', FULL, s._mi()))
    n_eff_at_collapse = property(lambda s: s.val('neff', LIN + MASS + ('delta_c',)))
    sigma8_z = property(lambda s: s.val('s8z', LIN) * NP.ones(1))
    cmz_relation = property(lambda s: s.val('cmz', FULL, s._mi()))

    @property
    def growth(self):
        s = self

        class G:
            def growth_factor(self, z):
                return s.val('growth', ('cosmo_model', 'growth_model', 'growth_params'), z)
        return G()

    @property
    def halo_profile(self):
        s = self

        class P:
            def u(self, k, m):
                return s.val('u', FULL, NP.reshape(k, (-1, 1)) if False else k[:, None], m[None, :])

            def _rs_from_m(self, m):
                return s.val('rs', FULL, m)

            def halo_mass_to_radius(self, m):
                return s.val('rvir', ('z', 'cosmo_model', 'mdef_model', 'mdef_params'), m)
        return P()


ATTRS = ('power', 'nonlinear_power', 'halo_overdensity_mean', 'nu', 'dndlnm', 'mean_density0', 'mean_density', 'halo_bias',
         'n_eff_at_collapse', 'cmz_relation', 'm', 'k')


def need(cls, *names):
    for n in names:
        if not hasattr(cls, n):
            raise Unsupported(f'{n} is not part of the code any more')


class Ctx:
    def __init__(self, E, hm=None, mdef='SOMean', nz='nz', vals=None, conc=('Duffy08', 'Duffy08'), prof=('NFW', 'NFWsat'), kw=None, perz=False):
        self.perz = perz
        self.E, self.hm, self.mdef, self.conc, self.prof = E, hm, mdef, conc, prof
        self.nzs = nz
        if isinstance(nz, str):
            E.dim(nz, 1, 4)
            self.z = E.grid('z_vec', nz, '+', 0.01, 2.5)
        else:
            self.z = E.t('z_vec', (nz,), '+', gen=lambda r, s: np.sort(r.uniform(0.01, 2.5, s)))
        E.dim('nm', 2, 4)
        E.dim('nkk', 2, 4)
        E.dim('nk', 2, 3)
        self.kv = E.grid('k_vec', 'nk', '+', 0.01, 5.0)
        S = {}
        for n, lo, hi in (('h0', .5, .9), ('omega_c', .1, .4), ('omega_b', .02, .08), ('w0', -1.3, -.7), ('wa', -.4, .4), ('n_s', .8, 1.1),
                          ('tcmb', 2.5, 2.9), ('Neff', 2.5, 3.5), ('m_nu', 0.01, .4), ('sigma_8', .6, 1.), ('log10T_AGN', 7.3, 8.3),
                          ('lnk_min', -10., -9.), ('lnk_max', 8., 9.), ('dlnk', .1, .2), ('Mmin', 9., 10.), ('Mmax', 15., 16.),
                          ('dlog10m', .1, .3), ('overdensity', 150., 400.), ('delta_c', 1.5, 1.8), ('norm_cen', .5, 2.), ('norm_sat', .5, 2.),
                          ('eta_cen', -.4, .4), ('eta_sat', -.4, .4)):
            if perz and n in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
                S[n] = E.t(n, (nz,), '+' if lo > 0 else None, gen=lambda r, s, lo=lo, hi=hi: r.uniform(lo, hi, s))
            else:
                S[n] = E.scalar(n, '+' if lo > 0 else None, gen=lambda r, lo=lo, hi=hi: r.uniform(lo, hi))
        self.S = S
        self.codes = Codes()
        self.FC = cosmo_class(E)
        self.FHM = type('DMHaloModel', (FHM,), {'E': E, 'codes': self.codes, 'nm': E.dim('nm', 2), 'nk': E.dim('nkk', 2)})
        # spec-side twins: always symbolic
        self.sFC = cosmo_class(None)
        self.sFHM = type('SpecHM', (FHM,), {'E': None, 'codes': self.codes, 'nm': SymTensor.scalar(E.dn('nm'), 'i'), 'nk': SymTensor.scalar(E.dn('nkk'), 'i')})
        kwargs = dict(S, z_vec=self.z, k_vec=self.kv, mdef_model=mdef, hmcode_ingredients=hm, hmf_model='HMF', bias_model='BIAS',
                      halo_profile_model_dm=prof[0], halo_profile_model_sat=prof[1], halo_concentration_model_dm=conc[0],
                      halo_concentration_model_sat=conc[1], transfer_model='TR', transfer_params={'a': 1}, growth_model='GR', growth_params={'b': 2})
        kwargs.update(kw or {})
        self.kwargs = kwargs
        self.vals = dict(vals or {})
        need(hmi.HaloModelIngredients, *self.vals)
        self.cls = leafclass(hmi.HaloModelIngredients, self.vals, 'HaloModelIngredients')
        self.obj = self.cls(**kwargs)

    def ctx(self):
        return swap(hmi, DMHaloModel=self.FHM, Flatw0waCDM=self.FC, u=FUnits, interp_concentration=lambda b: ('interp', b),
                    make_colossus_cm=lambda n, **k: ('colossus', n))

    # ---------------- spec side
    def s(self, n):
        return self.E.s(n)

    def scosmo(self):
        s = self.s
        return self.sFC(H0=s('h0') * 100, Ob0=s('omega_b'), Om0=s('omega_c') + s('omega_b'), Neff=s('Neff'),
                        m_nu=[0.0, 0.0, s('m_nu')] * FUnits.eV, Tcmb0=s('tcmb'), w0=s('w0'), wa=s('wa'))

    def fmead(self, g, G, p):
        a = 1 / (1 + self.s('z_vec'))
        x, y = g / a, G / a
        return p[0] + p[1] * (1 - x) + p[2] * (1 - x) ** 2 + p[3] * (1 - y)

    def fnu_tot(self):
        c = self.scosmo()
        return c.Onu0 / (c.Om0 + c.Onu0)

    def log10Om(self):
        c = self.scosmo()
        return NP.log10(c.Om(self.s('z_vec')) + c.Onu(self.s('z_vec')))

    def s_dc(self, g, G):
        L = self.log10Om()
        v = 1 + self.fmead(g, G, (-0.0069, -0.0208, 0.0312, 0.0021)) * L + self.fmead(g, G, (0.0001, -0.0647, -0.0417, 0.0646))
        return 3.0 / 20.0 * (12.0 * PI) ** (2.0 / 3.0) * v * (1 - 0.041 * self.fnu_tot())

    def s_Dv(self, g, G):
        L = self.log10Om()
        v = 1 + self.fmead(g, G, (-0.79, -10.17, 2.51, 6.51)) * L + self.fmead(g, G, (-1.89, 0.38, 18.8, -15.87)) * L ** 2
        return 18.0 * PI ** 2 * v * (1 + 0.763 * self.fnu_tot())

    def s_K(self):
        z = self.s('z_vec')
        if self.hm == 'mead2020':
            return 5.196 + 0 * z
        if self.hm == 'mead2020_feedback':
            th = self.s('log10T_AGN') - 7.8
            return 5.196 / 4.0 * (3.44 - 0.496 * th) * 10 ** (z * (-0.0671 - 0.0371 * th))
        return 0 * z

    def sconc(self, n):
        if self.hm in MEAD:
            return ('interp', hmi.concentration_classes.Bullock01)
        return ('interp', getattr(hmi.concentration_classes, n)) if hasattr(hmi.concentration_classes, n) else ('interp', ('colossus', n))

    def model(self, i, sat=False, dc=None, Dv=None):
        """the halo model of redshift i that the contract asks for (spec side)"""
        s, E = self.s, self.E
        mead = self.hm in MEAD
        cm = self.scosmo()
        ii = SymTensor.scalar(i if isinstance(i, T.Node) else T.num(i), 'i')
        z = s('z_vec')[ii]
        t = '_sat' if sat else '_cen'
        x = self.sFHM(z=z, lnk_min=s('lnk_min'), lnk_max=s('lnk_max'), dlnk=s('dlnk'), Mmin=s('Mmin'), Mmax=s('Mmax'), dlog10m=s('dlog10m'),
                      hmf_model='ST' if mead else 'HMF', mdef_model=hmi.SOVirial_Mead if mead else self.mdef, disable_mass_conversion=mead,
                      bias_model='ST99' if mead else 'BIAS', halo_profile_model=self.prof[1 if sat else 0],
                      halo_concentration_model=self.sconc(self.conc[1 if sat else 0]), cosmo_model=cm, sigma_8=s('sigma_8'), n=s('n_s'),
                      transfer_model='TR', transfer_params={'a': 1}, growth_model='GR', growth_params={'b': 2})
        if mead:
            x.update(mdef_params={'overdensity': Dv[ii]}, delta_c=dc[ii])
        else:
            if self.mdef == 'SOVirial':
                x.update(delta_c=3.0 / 20.0 * (12.0 * PI) ** (2.0 / 3.0) * (1 + 0.0123 * NP.log10(cm.Om(z))))
            else:
                x.update(mdef_params={'overdensity': s('overdensity')}, delta_c=s('delta_c'))
        own = lambda n: s(n)[ii] if self.perz else s(n)
        eta = 0.1281 * x.sigma8_z[0] ** (-0.3644) if mead else own('eta' + t)
        x.update(halo_profile_params={'cosmo': cm, 'eta_bloat': eta}, halo_concentration_params={'norm': own('norm' + t)})
        if mead:
            x.update(halo_concentration_params={'K': self.s_K()[ii]})
        return x

    def stack(self, f, **kw):
        """spec array over redshift of f(model_i)"""
        n = X.dimnode(self.E.dn(self.nzs)) if isinstance(self.nzs, str) else T.num(self.nzs)
        v = T.ivar('zi')
        e = shim.lift(f(self.model(v, **kw)))
        g = e.snapshot()
        return SymTensor.make((n,) + e.dims, lambda idx: T.subst(g(idx[1:]), {v.id: idx[0]}))


def over_list(E, xs, f, dim):
    """array of f(x) over a list built by a loop of symbolic length (its one generic element abstracted over the loop variable)"""
    if not E.sym:
        return np.array([f(x) for x in xs])
    if not isinstance(xs, list) or len(xs) != 1:
        raise Unsupported('list of models not built by one loop')
    e = shim.lift(f(xs[0]))
    free = set(shim._free_of(e))
    gs = [g for g in X.GENERICS if not g.active and g.var.id in free]
    if len(gs) > 1 or any(not X.same_dim(g.dim, dim) for g in gs):
        raise Unsupported('generic list structure')
    fn = e.snapshot()
    if not gs:      # quantity that does not vary with redshift
        return SymTensor.make((dim,) + e.dims, lambda idx: fn(idx[1:]))
    v = gs[0].var
    return SymTensor.make((dim,) + e.dims, lambda idx: T.subst(fn(idx[1:]), {v.id: idx[0]}))


def case(prop, name, fn, funcs, **kw):
    return Case(name, prop, fn, funcs, MODS, **kw)


INGR = {  # public ingredient -> (attribute of the model, satellite?)
    'power': (lambda x: x.power, 0), 'nonlinear_power': (lambda x: x.nonlinear_power, 0),
    'halo_overdensity_mean': (lambda x: x.halo_overdensity_mean, 0), 'nu': (lambda x: x.nu ** 0.5, 0), 'dndlnm': (lambda x: x.dndlnm, 0),
    'mean_density0': (lambda x: x.mean_density0, 0), 'mean_density_z': (lambda x: x.mean_density, 0),
    'rho_halo': (lambda x: x.halo_overdensity_mean * x.mean_density0, 0), 'halo_bias': (lambda x: x.halo_bias, 0),
    'neff': (lambda x: x.n_eff_at_collapse, 0), 'sigma8_z': (lambda x: x.sigma8_z[0], 0), 'conc_cen': (lambda x: x.cmz_relation, 0),
    'r_s_cen': (lambda x: x.halo_profile._rs_from_m(x.m), 0), 'rvir_cen': (lambda x: x.halo_profile.halo_mass_to_radius(x.m), 0),
    'conc_sat': (lambda x: x.cmz_relation, 1), 'r_s_sat': (lambda x: x.halo_profile._rs_from_m(x.m), 1),
    'rvir_sat': (lambda x: x.halo_profile.halo_mass_to_radius(x.m), 1)}
GENFN = [H + f for f in ('_hmf_generator', '_hmf_cen', '_hmf_sat', 'mdef_params', 'halo_profile_params', 'disable_mass_conversion', 'K',
                         '_mdef_mod', '_hmf_mod', '_bias_mod', '_halo_concentration_mod_dm', '_halo_concentration_mod_sat', '_delta_c_mod',
                         '_norm_c', '_norm_s', '_eta_c', '_eta_s')]
CONFIGS = [('mead2020', 'SOMean', ('Duffy08', 'Duffy08')), ('mead2020_feedback', 'SOVirial', ('Duffy08', 'x')), ('fit', 'SOMean', ('Duffy08', 'Bullock01')),
           (None, 'SOVirial', ('diemer15', 'Duffy08')), (None, 'SOCritical', ('Duffy08', 'duffy'))]


def cases_C06():
    def normed(E):
        E.dim('nz', 1, 4)
        E.dim('nk', 2, 3)
        E.dim('nm', 2, 4)
        vals = {n: E.t(n, ('nz', 'nk', 'nm'), '+') for n in ('nfw_cen', 'nfw_sat')}
        c = Ctx(E, vals=vals)
        for q, n in (('u_dm', 'nfw_cen'), ('u_sat', 'nfw_sat')):
            g = getattr(c.obj, q)
            E.eq(f'{q} is one at the largest scale', g[:, 0, :], 0 * E.s(n)[:, 0, :] + 1)
            E.eq(f'{q} keeps the shape of the profile', g * vals[n][:, 0:1, :], E.s(n))
        E.frame()
    return [case('C06', 'profile normalisation', normed, [H + 'u_dm', H + 'u_sat'])]


def cases_C20():
    out = []

    def mead_leaves(E, nz):
        d = (nz,)
        r = {'get_mead_growth': E.t('gm', d, '+'), 'get_mead_accumulated_growth': E.t('gacc', d, '+')}
        return r

    # whole chain, concrete number of redshifts (the loop of _hmf_generator unrolled), all values symbolic
    for hm, mdef, conc in CONFIGS:
        for nz, perz in ((1, False), (3, False), (3, True)):
            def chain(E, hm=hm, mdef=mdef, conc=conc, nz=nz, perz=perz):
                c = Ctx(E, hm, mdef, nz, mead_leaves(E, nz), conc, perz=perz)
                dc = Dv = None
                if hm in MEAD:
                    dc, Dv = c.s_dc(E.s('gm'), E.s('gacc')), c.s_Dv(E.s('gm'), E.s('gacc'))
                o = c.obj
                with c.ctx():
                    for q, (f, sat) in INGR.items():
                        E.eq(q, getattr(o, q), c.stack(f, sat=bool(sat), dc=dc, Dv=Dv))
                    E.eq('mass', o.mass, c.model(0, dc=dc, Dv=Dv).m)
                    E.eq('kh', o.kh, c.model(0, dc=dc, Dv=Dv).k)
                    E.eq('growth_factor', o.growth_factor, c.model(0, dc=dc, Dv=Dv).growth.growth_factor(E.s('z_vec')))
                    cm = c.scosmo()
                    E.eq('fnu', o.fnu, cm.Onu0 / cm.Om0 + 0 * E.s('z_vec'))
                    u = lambda x: x.halo_profile.u(E.s('k_vec'), x.m)
                    for nm_, sat in (('nfw_cen', False), ('nfw_sat', True)):
                        E.eq(nm_, getattr(o, nm_), c.stack(u, sat=sat, dc=dc, Dv=Dv))
                    for nm_, sat in (('u_dm', False), ('u_sat', True)):
                        su = c.stack(u, sat=sat, dc=dc, Dv=Dv)
                        E.eq(nm_, getattr(o, nm_), su / su[:, 0:1, :])
                    if hm in MEAD:
                        E.eq('mdef_params keep each redshift overdensity', NP.stack([d['overdensity'] for d in o.mdef_params]), Dv)
                    E.frame()
            out.append(case('C20', f'chain {hm} {mdef} nz={nz}' + (' parameters per redshift' if perz else ''), chain, GENFN + [H + q for q in INGR], nnum=2, wide=False,
                            note=f'number of redshifts fixed to {nz}, all values symbolic', bounded='sym'))

    # unbounded number of redshifts: generator loop by invariant (the model of iteration i does not depend on earlier iterations)
    for hm, mdef, conc in CONFIGS:
        def gen(E, hm=hm, mdef=mdef, conc=conc):
            E.dim('nz', 1, 4)
            mead = hm in MEAD
            dc = E.t('dcz', ('nz',), '+')
            vals = {'_delta_c_mod': dc, '_norm_c': E.t('nc', ('nz',), '+'), '_norm_s': E.t('ns', ('nz',), '+'), '_eta_c': E.t('ec', ('nz',)),
                    '_eta_s': E.t('es', ('nz',)), 'K': E.t('Kz', ('nz',), '+')}
            od = E.t('odz', ('nz',), '+')
            muts = []

            class Frozen(dict):
                def update(self, *a, **k):
                    muts.append(a)
                    dict.update(self, *a, **k)

                def __setitem__(self, k, v):
                    muts.append(k)
                    dict.__setitem__(self, k, v)
            if mdef == 'SOVirial' and not mead:
                item = lambda i: Frozen()
            else:
                item = lambda i: Frozen(overdensity=od[SymTensor.scalar(i, 'i')] if E.sym else od[i])
            vals['mdef_params'] = shim.SymList(E.dn('nz'), item) if E.sym else [item(i) for i in range(len(od))]
            try:
                c = Ctx(E, hm, mdef, 'nz', vals, conc)
            except Unsupported:
                if E.sym:
                    raise
                return E.skip('private intermediate quantities renamed')

            def want(f, sat):
                t = 's' if sat else 'c'
                n = E.dn('nz')
                v = T.ivar('zi')
                ii = SymTensor.scalar(v, 'i')
                x = c.sFHM(z=E.s('z_vec')[ii], lnk_min=E.s('lnk_min'), lnk_max=E.s('lnk_max'), dlnk=E.s('dlnk'), Mmin=E.s('Mmin'),
                           Mmax=E.s('Mmax'), dlog10m=E.s('dlog10m'), hmf_model='ST' if mead else 'HMF',
                           mdef_model=hmi.SOVirial_Mead if mead else mdef, disable_mass_conversion=mead, bias_model='ST99' if mead else 'BIAS',
                           halo_profile_model=c.prof[1 if sat else 0], halo_concentration_model=c.sconc(conc[1 if sat else 0]),
                           cosmo_model=c.scosmo(), sigma_8=E.s('sigma_8'), n=E.s('n_s'), transfer_model='TR', transfer_params={'a': 1},
                           growth_model='GR', growth_params={'b': 2}, delta_c=E.s('dcz')[ii])
                if not (mdef == 'SOVirial' and not mead):
                    x.update(mdef_params={'overdensity': E.s('odz')[ii]})
                eta = 0.1281 * x.sigma8_z[0] ** (-0.3644) if mead else E.s('e' + t)[ii]
                x.update(halo_profile_params={'cosmo': c.scosmo(), 'eta_bloat': eta}, halo_concentration_params={'norm': E.s('n' + t)[ii]})
                if mead:
                    x.update(halo_concentration_params={'K': E.s('Kz')[ii]})
                e = shim.lift(f(x))
                g = e.snapshot()
                return SymTensor.make((n,) + e.dims, lambda idx: T.subst(g(idx[1:]), {v.id: idx[0]}))
            with c.ctx():
                for k, (attr, sat) in enumerate((('_hmf_cen', False), ('_hmf_sat', True))):
                    if not hasattr(hmi.HaloModelIngredients, attr):
                        return E.skip('private list of models renamed')
                    xs = getattr(c.obj, attr)
                    for a in ('dndlnm', 'halo_bias', 'cmz_relation', 'power', 'm', 'k', 'nu', 'mean_density', 'halo_overdensity_mean'):
                        E.eq(f'{attr}[i].{a} is that of redshift i', over_list(E, xs, lambda x: getattr(x, a), E.dn('nz')), want(lambda x: getattr(x, a), sat))
            E.true('frame: per-redshift mdef_params not modified', not muts)
            E.frame()
        out.append(case('C20', f'generator {hm} {mdef}', gen, GENFN[:3], nnum=2, wide=False))

    # ingredient arrays for any number of redshifts, given the list of models
    def arrays(E):
        c0 = Ctx(E, None, 'SOMean')
        dz = {n: E.t('a_' + n, ('nz',), '+') for n in ('z', 'dc', 'od', 'eta', 'norm', 'K')}
        S = c0.S

        def mk(cls, fc, get, sg, i, sat):
            cm = fc(H0=sg('h0') * 100, Ob0=sg('omega_b'), Om0=sg('omega_c') + sg('omega_b'), Neff=sg('Neff'),
                    m_nu=[0.0, 0.0, sg('m_nu')] * FUnits.eV, Tcmb0=sg('tcmb'), w0=sg('w0'), wa=sg('wa'))
            return cls(z=get('z', i), delta_c=get('dc', i), mdef_params={'overdensity': get('od', i)}, halo_profile_params={'eta_bloat': get('eta', i)},
                       halo_concentration_params={'norm': get('norm', i), 'K': get('K', i)}, cosmo_model=cm, Mmin=sg('Mmin'), Mmax=sg('Mmax'),
                       dlog10m=sg('dlog10m'), lnk_min=sg('lnk_min'), lnk_max=sg('lnk_max'), dlnk=sg('dlnk'), sigma_8=sg('sigma_8'), n=sg('n_s'),
                       halo_profile_model='S' if sat else 'C')
        lists = {}
        for nm_, sat in (('_hmf_cen', False), ('_hmf_sat', True)):
            if E.sym:
                get = lambda n, i: dz[n][SymTensor.scalar(i, 'i')]
                lists[nm_] = shim.SymList(E.dn('nz'), lambda i, sat=sat: mk(c0.FHM, c0.FC, get, lambda n: S[n], i, sat))
            else:
                lists[nm_] = [mk(c0.FHM, c0.FC, lambda n, i: dz[n][i], lambda n: S[n], i, sat) for i in range(len(dz['z']))]
        try:
            need(hmi.HaloModelIngredients, *lists)
        except Unsupported:
            if E.sym:
                raise
            return E.skip('private list of models renamed')
        o = leafclass(hmi.HaloModelIngredients, lists, 'HaloModelIngredients')(**c0.kwargs)

        def want(f, sat):
            v = T.ivar('zi')
            e = shim.lift(f(mk(c0.sFHM, c0.sFC, lambda n, i: E.s('a_' + n)[SymTensor.scalar(i, 'i')], E.s, v, sat)))
            g = e.snapshot()
            return SymTensor.make((E.dn('nz'),) + e.dims, lambda idx: T.subst(g(idx[1:]), {v.id: idx[0]}))
        with c0.ctx():
            for q, (f, sat) in INGR.items():
                E.eq(q, getattr(o, q), want(f, bool(sat)))
            u = lambda x: x.halo_profile.u(E.s('k_vec'), x.m)
            for q, sat in (('nfw_cen', False), ('nfw_sat', True)):
                E.eq(q, getattr(o, q), want(u, sat))
            for q, sat in (('u_dm', False), ('u_sat', True)):
                su = want(u, sat)
                E.eq(q, getattr(o, q), su / su[:, 0:1, :])
            cm = c0.scosmo()
            E.eq('fnu', o.fnu, cm.Onu0 / cm.Om0 + 0 * E.s('z_vec'))
        E.frame()
    out.append(case('C20', 'ingredient arrays', arrays, [H + q for q in INGR] + [H + q for q in ('nfw_cen', 'nfw_sat', 'u_dm', 'u_sat', 'fnu')], wide=False))

    # per-redshift inputs for any number of redshifts
    for hm in (None, 'fit', 'mead2020', 'mead2020_feedback'):
        for mdef in ('SOMean', 'SOVirial'):
            def perz(E, hm=hm, mdef=mdef):
                E.dim('nz', 1, 4)
                c = Ctx(E, hm, mdef, 'nz', mead_leaves(E, 'nz'))
                o, z = c.obj, E.s('z_vec')
                one = 0 * z + 1
                with c.ctx():
                    E.eq('concentration redshift factor K', o.K, c.s_K())
                    dc, Dv = c.s_dc(E.s('gm'), E.s('gacc')), c.s_Dv(E.s('gm'), E.s('gacc'))
                    E.eq('HMCode collapse threshold', o.dc_Mead, dc)
                    E.eq('HMCode overdensity', o.Dv_Mead, Dv)
                    md = o.mdef_params
                    if hm in MEAD:
                        E.eq('overdensity parameter per redshift', NP.array([d['overdensity'] for d in md]), Dv)
                    elif mdef != 'SOVirial':
                        E.eq('overdensity parameter', md[0]['overdensity'] + 0 * one[:1], E.s('overdensity') + 0 * one[:1])
                    else:
                        E.true('virial definition has no overdensity parameter', md[0] == {})
                    E.true('disable_mass_conversion', bool(o.disable_mass_conversion) == (hm in MEAD))
                    cm = o.cosmo_model
                    for g, w in zip(cm.args, c.scosmo().args):
                        E.eq('cosmology arguments', g + 0 * 1.0, w)
                    E.true('neutrino masses in eV, one massive', cm.mnu_ok)
                    E.eq('omega_m', o.omega_m + 0.0, E.s('omega_c') + E.s('omega_b'))
                    E.eq('scale factor', o.scale_factor, 1 / (1 + z))
            out.append(case('C20', f'per-redshift inputs {hm} {mdef}', perz, [C + f for f in ('dc_Mead', 'Dv_Mead', 'f_Mead', 'cosmo_model', 'omega_m', 'scale_factor')] + [H + 'K', H + 'mdef_params'], wide=False))

    def so(E):
        """the HMCode mass definition: its overdensity times the mean matter density at the redshift"""
        m = getattr(hmi, 'SOVirial_Mead', None)
        if m is None:
            if E.sym:
                raise Unsupported('SOVirial_Mead not found')
            return E.skip('SOVirial_Mead not found')
        D, z, rho = E.scalar('D', '+', gen=lambda r: r.uniform(50, 900)), E.scalar('z', '+', gen=lambda r: r.uniform(0, 3)), shim.ufun(E, 'rho_mean', sign='+')
        seen = []

        class S(m):
            @classmethod
            def mean_density(cls, zz=0, cosmo=None):
                seen.append(cosmo)
                return rho(zz)
        o = S(overdensity=D)
        cosmo = object()
        E.eq('halo density', o.halo_density(z, cosmo), E.s('D') * shim.uapp('rho_mean', E.s('z')))
        E.true('of the given cosmology', seen and all(x is cosmo for x in seen))
        E.true('default overdensity 200', m().params['overdensity'] == 200)
    out.append(case('C20', 'HMCode mass definition', so, ['onepower.hmi.SOVirial_Mead.halo_density'], wide=False))

    # growth ODE and accumulated growth
    def growth(E):
        c = Ctx(E)
        o = c.obj
        a, d, v = (E.scalar(n, '+', gen=lambda r: r.uniform(0.05, 0.9)) for n in ('a_', 'd_', 'v_'))
        sa, sd, sv = E.s('a_'), E.s('d_'), E.s('v_')
        cm = c.scosmo()
        Om = cm.Om0 + cm.Onu0
        Ode = 1 - Om
        zz = lambda x: -1 + 1 / x
        H2 = lambda x: Om * x ** -3 + Ode * cm.de_density_scale(zz(x))
        AH = lambda x: -0.5 * (Om * x ** -3 + (1 + 3 * cm.w(zz(x))) * Ode * cm.de_density_scale(zz(x)))
        Omz = lambda x: Om * x ** -3 / H2(x)
        calls = []

        class R:
            pass
        gfun = shim.ufun(E, 'growth_solution', sign='+')

        def ivp(fun, span, y0, t_eval=None, **k):
            calls.append(1)
            E.eq('ODE starts at a = 1e-4', span[0] * 1.0, 1e-4 + 0 * sa)
            E.eq('ODE ends at a = 1', span[1] * 1.0, 1 + 0 * sa)
            dx, dv = fun(a, (d, v))
            E.eq('ODE: dd/da = v', dx, sv)
            E.eq('ODE: growth equation', dv, -(2 + AH(sa) / H2(sa)) * sv / sa + 1.5 * Omz(sa) * sd / sa ** 2)
            f = 1 - Omz(shim.lift(1e-4))
            ai = shim.lift(1e-4)
            E.eq('initial growth', y0[0], ai ** (1 - 3 * f / 5))
            E.eq('initial growth rate', y0[1], (1 - 3 * f / 5) * ai ** (-3 * f / 5))
            r = R()
            r.y = [gfun(t_eval), gfun(t_eval)]
            return r
        with c.ctx(), swap(hmi, solve_ivp=ivp):
            fn = o.get_mead_growth_fnc
            E.true('growth solved by the ODE once', len(calls) == 1)
            x = E.scalar('ax', '+', gen=lambda r: r.uniform(0.3, 0.9))
            grid = NP.linspace(1e-4, 1.0, 129)
            if not E.sym:
                import scipy.interpolate as si
                want = si.interp1d(grid, gfun(grid), kind='cubic')(x)
                E.eq('growth function interpolates the solution', fn(x), want)
                E.eq('growth at the redshifts', o.get_mead_growth, si.interp1d(grid, gfun(grid), kind='cubic')(1 / (1 + c.z)))
    out.append(case('C20', 'growth equation', growth, [C + f for f in ('get_mead_growth_fnc', '_Omega_m', '_Hubble2', '_AH', 'get_mead_growth')], wide=False))

    def accum(E):
        g = shim.ufun(E, 'gfnc', sign='+')
        c = Ctx(E, vals={'get_mead_growth_fnc': g})
        o = c.obj
        p = E.scalar('probe', '+')
        q = shim.ufun(E, 'quadG', sign='+')

        def quad(f, lo, hi, **k):
            E.eq('integrand of the accumulated growth is g(a)/a', f(p), shim.uapp('gfnc', E.s('probe')) / E.s('probe'))
            return q(lo, hi), 0.0
        with c.ctx(), swap(hmi, quad=quad):
            ai = 1 / (1 + E.s('z_vec'))
            E.eq('accumulated growth at each redshift', o.get_mead_accumulated_growth, shim.uapp('quadG', 1e-4, ai) + shim.uapp('gfnc', shim.lift(1e-4)))
            E.eq('growth at the redshifts', o.get_mead_growth, shim.uapp('gfnc', ai))
    out.append(case('C20', 'accumulated growth', accum, [C + 'get_mead_accumulated_growth', C + 'get_mead_growth'], wide=False))

    out += real_cases()
    return out


# ------------------------------------------------------------------ the assumed contract of DMHaloModel, on the real library
def real_cases():
    out = []

    def real(E, hm, mdef):
        if E.sym:
            return E.skip('runs the real halomod library')
        rng = np.random.default_rng(E.seed)
        z = np.sort(rng.uniform(0.0, 2.0, 3))
        base = dict(h0=rng.uniform(.6, .8), omega_c=rng.uniform(.2, .3), omega_b=rng.uniform(.03, .06), sigma_8=rng.uniform(.7, .9), n_s=rng.uniform(.9, 1.),
                    w0=rng.uniform(-1.1, -.9), m_nu=rng.uniform(0.02, .2))
        kv = np.logspace(-3, 1, 4)
        kw = dict(base, z_vec=z, k_vec=kv, Mmin=11., Mmax=14., dlog10m=.5, dlnk=.1, transfer_model='EH', growth_model='GrowthFactor',
                  hmcode_ingredients=hm, mdef_model=mdef, norm_cen=1.3, norm_sat=.8, eta_cen=.2, eta_sat=-.1)
        o = hmi.HaloModelIngredients(**kw)
        from astropy.cosmology import Flatw0waCDM
        from astropy import units as u
        cm = Flatw0waCDM(H0=100 * base['h0'], Ob0=base['omega_b'], Om0=base['omega_c'] + base['omega_b'], Neff=3.044, m_nu=[0, 0, base['m_nu']] * u.eV,
                         Tcmb0=2.7255, w0=base['w0'], wa=0.0)
        E.eq('omega_m', o.omega_m, cm.Om0)
        got = {q: getattr(o, q) for q in INGR}
        got.update(u_dm=o.u_dm, u_sat=o.u_sat, growth_factor=o.growth_factor)
        for sat in (False, True):
            for i in range(3):
                mead = hm in MEAD
                from halomod.concentration import interp_concentration, Bullock01, Duffy08
                dc = o.dc_Mead[i] if mead else (1.686 if mdef != 'SOVirial' else 3 / 20 * (12 * np.pi) ** (2 / 3) * (1 + .0123 * np.log10(cm.Om(z[i]))))
                mp = {'overdensity': o.Dv_Mead[i]} if mead else ({} if mdef == 'SOVirial' else {'overdensity': 200.})
                base_kw = dict(z=z[i], lnk_min=np.log(1e-4), lnk_max=np.log(1e4), dlnk=.1, Mmin=11., Mmax=14., dlog10m=.5, hmf_model='ST' if mead else 'Tinker10',
                               mdef_model=hmi.SOVirial_Mead if mead else mdef, disable_mass_conversion=mead, bias_model='ST99' if mead else 'Tinker10',
                               halo_profile_model='NFW', halo_concentration_model=interp_concentration(Bullock01 if mead else Duffy08), cosmo_model=cm,
                               sigma_8=base['sigma_8'], n=base['n_s'], transfer_model='EH', growth_model='GrowthFactor', mdef_params=mp, delta_c=dc)
                eta = (-.1 if sat else .2)
                if mead:
                    eta = .1281 * hmi.DMHaloModel(**base_kw).sigma8_z ** -.3644
                cp = {'norm': .8 if sat else 1.3}
                if mead:
                    cp['K'] = o.K[i]
                x = hmi.DMHaloModel(**base_kw, halo_profile_params={'cosmo': cm, 'eta_bloat': eta}, halo_concentration_params=cp)
                for q, (f, sa) in INGR.items():
                    if bool(sa) == sat:
                        E.eq(f'{q}[{i}] against a model built for that redshift alone', got[q][i], np.asarray(f(x)), rtol=1e-6)
                uu = x.halo_profile.u(kv, x.m)
                E.eq(f'u[{i}]', got['u_sat' if sat else 'u_dm'][i], uu / uu[0], rtol=1e-6)
        if hm in MEAD or mdef == 'SOMean':
            # virial radius: the sphere of the redshift's own overdensity times the mean matter density
            Dv = o.Dv_Mead if hm in MEAD else np.full(3, 200.)
            for q in ('rvir_cen', 'rvir_sat'):
                E.eq(f'{q} is the radius of the mass at the overdensity', 4 / 3 * np.pi * got[q] ** 3 * (Dv * 2.775366e11 * cm.Om0)[:, None], np.tile(o.mass, (3, 1)), rtol=1e-3)
        if hm in MEAD:
            # growth equation solved independently
            from scipy.integrate import odeint
            Om = cm.Om0 + cm.Onu0
            Ode = 1 - Om
            de = lambda a: cm.de_density_scale(1 / a - 1)
            H2 = lambda a: Om * a ** -3 + Ode * de(a)
            rhs = lambda y, a: (y[1], -(2 + -.5 * (Om * a ** -3 + (1 + 3 * cm.w(1 / a - 1)) * Ode * de(a)) / H2(a)) * y[1] / a + 1.5 * Om * a ** -3 / H2(a) * y[0] / a ** 2)
            f = 1 - Om * 1e12 / H2(1e-4)
            av = np.concatenate([[1e-4], np.sort(1 / (1 + z))])
            y = odeint(rhs, (1e-4 ** (1 - .6 * f), (1 - .6 * f) * 1e-4 ** (-.6 * f)), av, rtol=1e-9, atol=1e-14)
            E.eq('growth against an independent solver', np.sort(o.get_mead_growth), y[1:, 0], rtol=5e-3)
    def early(E):
        """dark energy that is not negligible at early times: the initial conditions matter"""
        if E.sym:
            return E.skip('numeric')
        from scipy.integrate import odeint
        rng = np.random.default_rng(E.seed)
        z = np.sort(rng.uniform(0.0, 2.0, 3))
        for w0, wa in ((-.7, .65), (-.9, .8), (-1.0, 0.0), (-.8, -.5)):
            o = hmi.HaloModelIngredients(h0=.7, omega_c=rng.uniform(.2, .3), omega_b=.05, w0=w0, wa=wa, m_nu=.06, z_vec=z, k_vec=np.logspace(-2, 1, 3), hmcode_ingredients='mead2020')
            if not hasattr(o, 'get_mead_growth'):
                return E.skip('get_mead_growth not found')
            cm = o.cosmo_model
            Om = cm.Om0 + cm.Onu0
            Ode = 1 - Om
            de = lambda a: cm.de_density_scale(1 / a - 1)
            H2 = lambda a: Om * a ** -3 + Ode * de(a)
            rhs = lambda y, a: (y[1], -(2 + -.5 * (Om * a ** -3 + (1 + 3 * cm.w(1 / a - 1)) * Ode * de(a)) / H2(a)) * y[1] / a + 1.5 * Om * a ** -3 / H2(a) * y[0] / a ** 2)
            f = 1 - Om * 1e12 / H2(1e-4)
            av = np.concatenate([[1e-4], np.sort(1 / (1 + z))])
            y = odeint(rhs, (1e-4 ** (1 - .6 * f), (1 - .6 * f) * 1e-4 ** (-.6 * f)), av, rtol=1e-9, atol=1e-14)
            E.eq(f'growth with w0={w0} wa={wa} against an independent solver', np.sort(o.get_mead_growth), y[1:, 0], rtol=2e-3)
            g = np.array([quadg(rhs, f, x) for x in 1 / (1 + z)])
            E.eq(f'accumulated growth with w0={w0} wa={wa}', o.get_mead_accumulated_growth, g, rtol=5e-3)

    def quadg(rhs, f, a1):
        from scipy.integrate import odeint
        av = np.exp(np.linspace(np.log(1e-4), np.log(a1), 2001))
        y = odeint(rhs, (1e-4 ** (1 - .6 * f), (1 - .6 * f) * 1e-4 ** (-.6 * f)), av, rtol=1e-9, atol=1e-14)[:, 0]
        return float((0.5 * (y[1:] + y[:-1]) * np.diff(np.log(av))).sum()) + 1e-4 ** (1 - .6 * f) * 1.0
    out.append(case('C20', 'growth with early dark energy', early, [C + f for f in ('get_mead_growth_fnc', 'get_mead_growth', 'get_mead_accumulated_growth')], nnum=1, wide=False, bounded=True,
                    note='four dark-energy histories, three redshifts, against an independent ODE solver'))

    for hm, mdef in ((None, 'SOMean'), (None, 'SOVirial'), ('mead2020', 'SOMean'), ('mead2020_feedback', 'SOMean')):
        out.append(case('C20', f'library {hm} {mdef}', lambda E, hm=hm, mdef=mdef: real(E, hm, mdef), GENFN, nnum=1, wide=False, bounded=True,
                        note='real halomod models: cross-check of the assumed DMHaloModel contract'))
    return out
