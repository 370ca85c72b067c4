"""Contracts on onepower.hod: occupations (C08, C09) and conditional observable functions (C10)."""
from __future__ import annotations
import os
import shutil
import tempfile
import numpy as np
from onv import shim, terms as T
from onv.core import Case
from onv.tensor import SymTensor
import onepower.hod as hodm
import onepower.pk as pk
from .pkctx import leafclass, drop_plugin

NP = shim.NPX
H = 'onepower.hod.'
MODELS = ('Simple', 'Zehavi', 'Zheng', 'Zhai')
PARS = {'Simple': ('log10_Mmin', 'log10_Msat', 'alpha'), 'Zehavi': ('log10_Mmin', 'log10_Msat', 'alpha'),
        'Zheng': ('log10_Mmin', 'log10_M0', 'log10_M1', 'sigma', 'alpha'),
        'Zhai': ('log10_Mmin', 'log10_Msat', 'log10_Mcut', 'sigma', 'alpha')}
DEFAULTS = {'Simple': dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0), 'Zehavi': dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0),
            'Zheng': dict(log10_Mmin=12.0, log10_M0=12.0, log10_M1=13.0, sigma=0.15, alpha=1.0),
            'Zhai': dict(log10_Mmin=13.68, log10_Msat=14.87, log10_Mcut=12.32, sigma=0.82, alpha=0.41),
            'Cacciato': dict(log10_obs_norm_c=9.95, log10_m_ch=11.24, g1=3.18, g2=0.245, sigma_log10_O_c=0.157, norm_s=0.562, pivot=12.0, alpha_s=-1.18,
                             beta_s=2, b0=-1.17, b1=1.53, b2=-0.217)}
CAC = ('log10_obs_norm_c', 'log10_m_ch', 'g1', 'g2', 'sigma_log10_O_c', 'norm_s', 'pivot', 'alpha_s', 'beta_s', 'b0', 'b1', 'b2')
CACGEN = {'log10_obs_norm_c': (9.5, 10.2), 'log10_m_ch': (11.0, 12.0), 'g1': (2.0, 3.5), 'g2': (0.1, 0.5), 'sigma_log10_O_c': (0.12, 0.3),
          'norm_s': (0.4, 0.8), 'pivot': (11.5, 12.5), 'alpha_s': (-1.4, -0.8), 'beta_s': (1.0, 2.5), 'b0': (-1.5, -0.5), 'b1': (1.0, 2.0), 'b2': (-0.4, 0.1)}
STATS = ('_mass_integral', '_mean_mass_integral', '_bias_integral', '_interpolate', 'dndlnm_int', 'halo_bias_int', 'z', 'nz', 'nbins', '_ncen', '_nsat', '_ntot',
         '_mass_avg_cen', '_mass_avg_sat', '_mass_avg_tot', '_bg_cen', '_bg_sat', '_bg_tot', 'number_density_cen', 'number_density_sat', 'number_density',
         'f_c', 'f_s', 'avg_halo_mass_cen', 'avg_halo_mass_sat', 'avg_halo_mass', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat', 'galaxy_linear_bias',
         'hod_cen', 'hod_sat', 'hod', '_compute_hod')
BASE = [H + 'HaloOccupationDistribution.' + f for f in STATS]


class Cosmo:
    def __init__(self, h):
        self.h = h


class Hod:
    """a real occupation-model object over symbolic inputs, with the contract side next to it"""

    def __init__(self, E, model, A=(True, True), scalar=False, unit='1/h^2', file=False, leaf=False, sigma0=False, fstar=None, alpha=None, coincide=None, tie=False):
        self.E, self.model, self.A, self.file, self.unit = E, model, A, file, unit
        E.dim('nb', 1, 3)
        E.dim('nzv', 2, 4)
        E.dim('nzb', 2, 4)
        E.dim('nm', 3, 6)
        E.dim('no', 3, 6)
        if tie:
            # concrete runs: masses and thresholds at whole decades, so that a mass sits exactly at the threshold
            self.mass = E.t('mass', ('nm',), '+', lambda r, s: 10.0 ** (11 + np.arange(s[-1])), sort=True)
        else:
            self.mass = E.grid('mass', 'nm', '+', 3e11, 3e15, log=True)
        nzv = 'nzb' if coincide else 'nzv'
        if coincide:
            self.zv = None
        else:
            self.zv = E.grid('z_vec', 'nzv', '+', 0.01, 2.0)
        self.dn = E.t('dndlnm', (nzv, 'nm'), '+')
        self.hb = E.t('halo_bias', (nzv, 'nm'), '+')
        self.h = E.scalar('h', '+', gen=lambda r: r.uniform(0.5, 0.9))
        self.nbins = 1 if (file or scalar) else 'nb'
        nb = self.nbins
        if file:
            zf = E.t('z_file', ('nzb',), '+', gen=lambda r, s: np.cumsum(r.uniform(0.1, 0.5, s)))
            o0 = E.t('omin_file', ('nzb',), '+', gen=lambda r, s: 10 ** r.uniform(8.5, 9.5, s))
            o1 = E.t('omax_file', ('nzb',), '+', gen=lambda r, s: 10 ** r.uniform(10.5, 11.5, s))
            self.data = (zf, o0, o1)
            if E.sym:
                fn = 'observables.txt'
                hodm.load_data = lambda f: (E.true('load_data is given the settings file', f == fn), self.data)[1]
            else:
                self.tmp = tempfile.mkdtemp(prefix='onv_')
                fn = os.path.join(self.tmp, 'observables.txt')
                np.savetxt(fn, np.column_stack([zf, o0, o1, zf * 0 + 7.0]), fmt='%.17g')
            self.settings = {'observables_file': fn, 'nobs': E.dim('no'), 'observable_h_unit': unit}
        else:
            zmin = E.t('zmin', (nb,), '+', gen=lambda r, s: r.uniform(0.0, 0.6, s))
            dz = E.t('dz', (nb,), '+', gen=lambda r, s: r.uniform(0.2, 1.0, s))
            lo = E.t('obs_min', (nb,), gen=lambda r, s: r.uniform(8.5, 9.5, s))
            dl = E.t('dobs', (nb,), '+', gen=lambda r, s: r.uniform(0.5, 2.0, s))
            self.settings = {'observables_file': None, 'obs_min': lo, 'obs_max': lo + dl, 'zmin': zmin, 'zmax': zmin + dz,
                             'nz': E.dim('nzb'), 'nobs': E.dim('no'), 'observable_h_unit': unit}
        if coincide:
            self.zv = self.same_grid(coincide)
        P = {}
        if model in PARS:
            for p in PARS[model]:
                sg = '+' if p in ('alpha', 'sigma') else None
                rg = {'alpha': (0.3, 1.5), 'sigma': (0.1, 0.9)}.get(p, (12.0, 14.0))
                if p == 'sigma' and sigma0:
                    g = lambda r, s: np.where(r.uniform(0, 1, s) < 0.5, 0.0, r.uniform(0.1, 0.9, s))
                    P[p] = E.t(p, (nb,), '0+', gen=g)
                elif tie and p.startswith('log10'):
                    P[p] = E.t(p, (nb,), sg, gen=lambda r, s: r.integers(11, 14, s).astype(float))
                elif scalar:
                    P[p] = E.scalar(p, sg, gen=lambda r, rg=rg: r.uniform(*rg))
                else:
                    P[p] = E.t(p, (nb,), sg, gen=lambda r, s, rg=rg: r.uniform(*rg, s))
            if alpha is not None:
                P['alpha'] = alpha
        elif model == 'Cacciato':
            for p in CAC:
                sg = '+' if p in ('sigma_log10_O_c', 'norm_s') else None
                P[p] = E.scalar(p, sg, gen=lambda r, p=p: r.uniform(*CACGEN[p]))
        if A[0]:
            P['A_cen'] = E.scalar('A_cen', gen=lambda r: r.uniform(-0.9, 0.9), lo=-1, hi=1)
        if A[1]:
            P['A_sat'] = E.scalar('A_sat', gen=lambda r: r.uniform(-0.9, 0.9), lo=-1)
        self.P = P
        base = getattr(hodm, model) if model in PARS or model == 'Cacciato' else hodm.HaloOccupationDistribution
        vals = {}
        if leaf:
            vals['_compute_hod_cen'] = E.t('ncen', (nb, 'nzb', 'nm'), '+')
            vals['_compute_hod_sat'] = E.t('nsat', (nb, 'nzb', 'nm'), '+')
            P = {}
        if fstar:
            for n in ('', '_cen', '_sat'):
                vals['_compute_stellar_fraction' + n] = E.t('fstar' + n, (nb, 'nzb', 'nm'), '+')
        cls = base
        if vals:
            cls = leafclass(base, vals, 'LeafOcc')
            drop_plugin(hodm.HaloOccupationDistribution, 'LeafOcc')
        self.cosmo = Cosmo(self.h)
        self.obj = cls(cosmo=self.cosmo, mass=self.mass, dndlnm=self.dn, halo_bias=self.hb, z_vec=self.zv, hod_settings=self.settings, **P)

    def same_grid(self, which):
        """redshifts requested from the model that coincide with those of the first ('first') or the last ('last') galaxy bin,
        or with the redshifts of the observables file"""
        E = self.E
        if self.file:
            v, spec = self.data[0], self.s('z_file')
        else:
            b = 0 if which == 'first' else -1
            i = b if b == 0 or self.nbins == 1 else SymTensor.scalar(T.sub(E.dn('nb'), T.num(1)), 'i')
            spec = self.zb()[i if self.nbins != 1 else 0]
            v = spec if E.sym else np.linspace(self.settings['zmin'][b], self.settings['zmax'][b], E.scalars['nzb'])
        E.specs['z_vec'] = spec
        if E.sym:
            r = E.owned['z_vec'] = SymTensor.make(spec.dims, spec.numfn(), name='z_vec')
            return r
        E.leaves['z_vec'] = np.array(v)
        r = E.owned['z_vec'] = np.array(v)
        return r

    def close(self):
        t = getattr(self, 'tmp', None)
        if t:
            shutil.rmtree(t, ignore_errors=True)

    # ---- contract side
    def s(self, n):
        return self.E.s(n)

    @property
    def M(self):
        return self.s('mass')[None, None, :]

    def zb(self):
        if self.file:
            return self.s('z_file')[None]
        n = SymTensor.scalar(T.scalar('nzb', '+', integer=True), 'i')
        return self.s('zmin')[:, None] + self.s('dz')[:, None] * NP.arange(n)[None, :] / (n - 1)

    def obs(self):
        n = SymTensor.scalar(T.scalar('no', '+', integer=True), 'i')
        j = NP.arange(n)[None, None, None, :] / (n - 1)
        if self.file:
            lo, hi = (NP.log10(self.s(q))[None, :, None, None] for q in ('omin_file', 'omax_file'))
            return 10 ** (lo + (hi - lo) * j)
        one = self.zb()[:, :, None, None] * 0
        return 10 ** (self.s('obs_min')[:, None, None, None] + self.s('dobs')[:, None, None, None] * j + one)

    def at_bins(self, name):
        return shim.SymInterp1d(self.s('z_vec'), self.s(name), axis=0, fill_value='extrapolate')(self.zb())

    def to_z(self, data, axis, fill='extrapolate'):
        """bin by bin linear interpolation from the bin's redshifts to z_vec (axis counted without the bin axis)"""
        zb, zv = self.zb(), self.s('z_vec')
        probe = shim.SymInterp1d(zb[0], data[0], axis=axis, fill_value=fill, bounds_error=False)(zv)

        def f(idx):
            b = SymTensor.scalar(idx[0], 'i')
            r = shim.SymInterp1d(zb[b], data[b], axis=axis, fill_value=fill, bounds_error=False)(zv)
            return r.numfn()(tuple(idx[1:]))
        return SymTensor.make((data.dims[0],) + probe.dims, f)

    def integral(self, y):
        return shim.sym_simpson(y, x=self.s('mass'), axis=-1)

    def par(self, n):
        v = self.s(n)
        return v[:, None, None] if v.ndim else v

    def full(self):
        """ones of shape (nb, nzb, nm)"""
        return (self.zb()[:, :, None] * 0 + 1) * (self.M * 0 + 1)

    def decorate_c(self, n):
        if not self.A[0]:
            return n
        return n + self.s('A_cen') * NP.where(n < 1 - n, n, 1 - n)

    def decorate_s(self, n):
        return n * (1 + self.s('A_sat')) if self.A[1] else n

    def cen(self):
        M, q = self.M, self.par
        if self.model == 'Cacciato':
            return self.decorate_c(shim.sym_simpson(self.cof_c(), x=self.obs(), axis=-1))
        step = NP.where(M >= 10 ** q('log10_Mmin'), 1.0, 0.0)
        if self.model in ('Simple', 'Zehavi'):
            n = step
        else:
            g = (1 + NP_erf(NP.log10(M / 10 ** q('log10_Mmin')) / q('sigma'))) / 2
            n = NP.where(q('sigma') == 0, step, g)
        return self.decorate_c(n) * self.full()

    def sat(self):
        M, q = self.M, self.par
        if self.model == 'Cacciato':
            return self.decorate_s(shim.sym_simpson(self.cof_s(), x=self.obs(), axis=-1))
        if self.model == 'Simple':
            n = self.cen() * (M / 10 ** q('log10_Msat')) ** q('alpha')
        elif self.model == 'Zehavi':
            n = (M / 10 ** q('log10_Msat')) ** q('alpha')
        elif self.model == 'Zheng':
            d = M - 10 ** q('log10_M0')
            n = NP.where(d >= 0, (d / 10 ** q('log10_M1')) ** q('alpha'), 0.0)
        else:
            n = (M / 10 ** q('log10_Msat')) ** q('alpha') * NP.exp(-(10 ** q('log10_Mcut')) / M)
        return self.decorate_s(n) * self.full()

    # conditional observable functions
    def mean_obs(self):
        x = self.M / 10 ** self.s('log10_m_ch')
        return 10 ** self.s('log10_obs_norm_c') * x ** self.s('g1') / (1 + x) ** (self.s('g1') - self.s('g2'))

    def cof_c(self):
        o, m, sg = self.obs(), self.mean_obs()[..., None], self.s('sigma_log10_O_c')
        return NP.exp(-NP.log10(o / m) ** 2 / (2 * sg ** 2)) / (NP.sqrt(2 * NP.pi) * NP.log(10.0) * sg * o)

    def cof_s(self):
        o = self.obs()
        st = self.s('norm_s') * self.mean_obs()[..., None]
        lm = (NP.log10(self.M) - self.s('pivot'))[..., None]
        phi = 10 ** (self.s('b0') + self.s('b1') * lm + self.s('b2') * lm ** 2)
        return phi / st * (o / st) ** self.s('alpha_s') * NP.exp(-(o / st) ** self.s('beta_s'))


def NP_erf(x):
    return shim.SYM['erf'](x)


def extra():
    """restore load_data after a symbolic run that replaced it"""
    return {hodm: {'load_data': hodm.load_data}}


def case(prop, name, fn, functions, **k):
    def run(E):
        h = None
        try:
            h = fn(E)
        finally:
            if h is not None:
                h.close()
    k.setdefault('extra', extra)
    return Case(name, prop, run, functions, [hodm, pk], **k)


# ------------------------------------------------------------------ C09
def stats_contract(E, h, cen, sat):
    o = h.obj
    tot = cen + sat
    dn, hb, M = h.at_bins('dndlnm'), h.at_bins('halo_bias'), h.M
    N = {'_cen': h.integral(cen * dn / M), '_sat': h.integral(sat * dn / M), '': h.integral(tot * dn / M)}
    W = {'_cen': h.integral(cen * dn), '_sat': h.integral(sat * dn), '': h.integral(tot * dn)}
    B = {'_cen': h.integral(cen * hb * dn / M), '_sat': h.integral(sat * hb * dn / M), '': h.integral(tot * hb * dn / M)}
    for k in ('_cen', '_sat', ''):
        E.eq('number_density' + k, getattr(o, 'number_density' + k), h.to_z(N[k], 0))
        E.eq('avg_halo_mass' + k, getattr(o, 'avg_halo_mass' + k), h.to_z(W[k], 0, 0.0))
        E.eq('galaxy_linear_bias' + k, getattr(o, 'galaxy_linear_bias' + k), h.to_z(B[k] / N[''], 0))
    E.eq('f_c', o.f_c, h.to_z(N['_cen'] / N[''], 0, 0.0))
    E.eq('f_s', o.f_s, h.to_z(N['_sat'] / N[''], 0, 0.0))
    E.eq('hod_cen', o.hod_cen, h.to_z(cen, 0))
    E.eq('hod_sat', o.hod_sat, h.to_z(sat, 0))
    E.eq('hod', o.hod, h.to_z(tot, 0))


def defaults(E, models):
    """parameters that are not supplied have their documented defaults, whichever others are supplied"""
    if E.sym:
        return E.skip('numeric')
    rng = np.random.default_rng(E.seed)
    nz, nm = 3, 6
    mass, z = np.logspace(11, 15, nm), np.array([0.1, 0.3, 0.6])
    kw = dict(cosmo=Cosmo(0.7), mass=mass, dndlnm=rng.uniform(1, 2, (nz, nm)), halo_bias=rng.uniform(1, 2, (nz, nm)), z_vec=z)
    st = {'observables_file': None, 'obs_min': np.array([9.0]), 'obs_max': np.array([11.0]), 'zmin': np.array([0.0]), 'zmax': np.array([0.5]), 'nz': 4, 'nobs': 30, 'observable_h_unit': '1/h^2'}
    doc = {'observables_file': None, 'obs_min': np.array([8.0]), 'obs_max': np.array([12.0]), 'zmin': np.array([0.0]), 'zmax': np.array([0.2]), 'nz': 15, 'nobs': 300, 'observable_h_unit': '1/h^2'}
    for m in models:
        cls, D = getattr(hodm, m), DEFAULTS[m]
        full = lambda **o: cls(hod_settings=dict(st), **kw, **{**D, 'A_cen': None, 'A_sat': None, **o})
        run = lambda **o: cls(hod_settings=dict(st), **kw, **o)
        same = lambda a, b: all(np.allclose(getattr(a, q), getattr(b, q), rtol=1e-12, atol=0) for q in ('hod_cen', 'hod_sat', 'number_density', 'galaxy_linear_bias'))
        E.true(f'{m}: documented defaults', same(run(), full()))
        for p in list(D) + ['A_cen', 'A_sat']:
            v = {'A_cen': 0.3, 'A_sat': -0.2}.get(p) or D[p] * 1.03
            E.true(f'{m}: only {p} supplied', same(run(**{p: v}), full(**{p: v})))
        E.true(f'{m}: defaults after another object with other parameters', same(run(), full()))
        a, b = cls(**kw, **D), cls(hod_settings=doc, **kw, **D)
        E.true(f'{m}: documented default settings', same(a, b))


def file_order(E, models):
    """the rows of an observables file can be listed in any order: each row belongs to its own redshift"""
    if E.sym:
        return E.skip('numeric')
    rng = np.random.default_rng(E.seed)
    nm = 24
    mass, z = np.logspace(11, 15, nm), np.array([0.15, 0.2, 0.45, 0.7])
    kw = dict(cosmo=Cosmo(0.7), mass=mass, dndlnm=rng.uniform(1, 2, (4, nm)), halo_bias=rng.uniform(1, 2, (4, nm)), z_vec=z)
    n = int(rng.integers(2, 6))
    rows = np.column_stack([np.cumsum(rng.uniform(0.05, 0.4, n)), 10 ** rng.uniform(8.5, 9.5, n), 10 ** rng.uniform(10.5, 11.5, n)])
    tmp = tempfile.mkdtemp(prefix='onv_')
    try:
        for m in models:
            D = DEFAULTS[m] if m in DEFAULTS else {}
            q = ['hod_cen', 'hod_sat', 'hod', 'f_c', 'f_s'] + [x + y for x in ('number_density', 'avg_halo_mass', 'galaxy_linear_bias') for y in ('', '_cen', '_sat')]
            if m == 'Cacciato':
                q += ['stellar_fraction', 'stellar_fraction_cen', 'stellar_fraction_sat']
            ref = None
            for k in range(4):
                fn = os.path.join(tmp, f'o{k}.txt')
                r = rows if k == 0 else rows[::-1] if k == 1 else rows[rng.permutation(n)]
                np.savetxt(fn, r, fmt='%.17g')
                o = getattr(hodm, m)(hod_settings={'observables_file': fn, 'nobs': 15, 'observable_h_unit': '1/h^2'}, **kw, **D)
                got = {x: np.asarray(getattr(o, x)) for x in q}
                if ref is None:
                    ref = got
                for x in q:
                    E.true(f'{m}: {x} does not depend on the order of the rows', got[x].shape == ref[x].shape and np.allclose(got[x], ref[x], rtol=1e-9, atol=0))
    finally:
        for f in os.listdir(tmp):
            os.remove(os.path.join(tmp, f))
        os.rmdir(tmp)


def cases_C09():
    out = []
    out.append(Case('observables file in any order', 'C09', lambda E: file_order(E, MODELS), BASE, [hodm], nnum=3, bounded=True,
                    note='the rows of a random file of 2 to 5 redshifts in four orders'))
    for file in (False, True):
        def stats(E, file=file):
            h = Hod(E, 'base', A=(False, False), leaf=True, file=file)
            stats_contract(E, h, E.s('ncen'), E.s('nsat'))
            E.eq('bin redshifts', h.obj.z, h.zb())
            E.frame()
            return h
        out.append(case('C09', 'statistics are mass integrals' + (' (observables file)' if file else ''), stats, BASE))
    for which, file in (('first', False), ('last', False), ('file', True)):
        def same(E, which=which, file=file):
            h = Hod(E, 'base', A=(False, False), leaf=True, file=file, coincide=which)
            stats_contract(E, h, E.s('ncen'), E.s('nsat'))
            E.frame()
            return h
        out.append(case('C09', f'statistics, requested redshifts coincide with a bin ({which})', same, BASE, nnum=6))
    for m in MODELS:
        F = [H + m + '.' + f for f in ('_compute_hod_cen', '_compute_hod_sat') + tuple(PARS[m])]
        for A in ((False, False), (True, True), (False, True), (True, False)):
            def occ(E, m=m, A=A):
                h = Hod(E, m, A)
                E.eq('central occupation', h.obj._compute_hod_cen, h.cen())
                E.eq('satellite occupation', h.obj._compute_hod_sat, h.sat())
                E.frame()
                return h
            out.append(case('C09', f'{m} A={A}', occ, F))

        def sc(E, m=m):
            h = Hod(E, m, (False, False), scalar=True)
            E.eq('central occupation at z', h.obj.hod_cen, h.to_z(h.cen(), 0))
            E.eq('satellite occupation at z', h.obj.hod_sat, h.to_z(h.sat(), 0))
            return h
        out.append(case('C09', f'{m} scalar parameters', sc, F + BASE))

        def fi(E, m=m):
            h = Hod(E, m, (False, False), scalar=True, file=True)
            E.eq('central occupation at z', h.obj.hod_cen, h.to_z(h.cen(), 0))
            E.eq('satellite occupation at z', h.obj.hod_sat, h.to_z(h.sat(), 0))
            return h
        out.append(case('C09', f'{m} observables file', fi, F + BASE + [H + 'HaloOccupationDistribution.data']))
    for m in MODELS:
        def tie(E, m=m):
            h = Hod(E, m, (True, True), sigma0=m in ('Zheng', 'Zhai'), tie=True)
            E.eq('central occupation', h.obj._compute_hod_cen, h.cen())
            E.eq('satellite occupation', h.obj._compute_hod_sat, h.sat())
            return h
        if m not in ('Zhai',):
            out.append(case('C09', f'{m}, a mass at the threshold', tie, [H + m + '._compute_hod_cen', H + m + '._compute_hod_sat'], nnum=4, wide=False))
    for m in ('Zheng', 'Zhai'):
        def s0(E, m=m):
            h = Hod(E, m, (False, False), sigma0=True)
            E.eq('central occupation with zero scatter is a step', h.obj._compute_hod_cen, h.cen())
            return h
        out.append(case('C09', f'{m} sigma=0', s0, [H + m + '._compute_hod_cen']))
    out.append(case('C09', 'defaults', lambda E: defaults(E, MODELS), [H + m + '.__init__' for m in MODELS], nnum=1, bounded=True, note='one configuration per model and parameter'))
    for m in MODELS:
        def full(E, m=m):
            h = Hod(E, m, (False, False))
            stats_contract(E, h, h.cen(), h.sat())
            return h
        out.append(case('C09', f'{m} end to end', full, BASE + [H + m + '._compute_hod_cen', H + m + '._compute_hod_sat']))
    return out + hod_in_spectra()


# ------------------------------------------------------------------ C08
def cases_C08():
    out = []
    for m in MODELS:
        F = [H + m + '._compute_hod_cen', H + m + '._compute_hod_sat', H + 'HaloOccupationDistribution._compute_hod']
        for A in ((False, False), (True, True)):
            def b(E, m=m, A=A):
                h = Hod(E, m, A)
                c, s = h.obj._compute_hod_cen, h.obj._compute_hod_sat
                E.ge('central occupation >= 0', c, 0)
                E.ge('central occupation <= 1', 1, c)
                E.ge('satellite occupation >= 0', s, 0)
                E.eq('total = central + satellite', h.obj._compute_hod, c + s)
                if m in ('Simple', 'Zheng'):
                    cut = 10 ** h.par('log10_Mmin' if m == 'Simple' else 'log10_M0') * h.full()
                    E.eq('no satellites below the cutoff', NP.where(h.M * h.full() < cut, 1.0, 0.0) * shim.lift(s) if E.sym else
                         np.asarray(s) * (h.obj.mass < 10.0 ** np.asarray(h.P['log10_Mmin' if m == 'Simple' else 'log10_M0'])[:, None, None]), h.full() * 0)
                return h
            out.append(case('C08', f'{m} A={A} bounds', b, F))

    def add(E):
        h = Hod(E, 'base', A=(False, False), leaf=True)
        o = h.obj
        for n in ('number_density', 'avg_halo_mass', 'galaxy_linear_bias', 'hod'):
            E.eq(f'{n}: centrals + satellites = all', getattr(o, n + '_cen') + getattr(o, n + '_sat'), getattr(o, n))
        zv = h.s('z_vec')[None, :]
        zlo, zhi = h.s('zmin')[:, None], (h.s('zmin') + h.s('dz'))[:, None]
        inside = NP.where(zv >= zlo, 1.0, 0.0) * NP.where(zv <= zhi, 1.0, 0.0)
        E.eq('f_c + f_s is one inside the tabulated range and zero outside', o.f_c + o.f_s, inside)
        E.eq('f_c is zero outside', o.f_c * (1 - inside) if E.sym else np.asarray(o.f_c) * (1 - ins_num(h)), inside * 0)
        E.eq('f_s is zero outside', o.f_s * (1 - inside) if E.sym else np.asarray(o.f_s) * (1 - ins_num(h)), inside * 0)
        return h
    out.append(case('C08', 'centrals and satellites add up', add, BASE, nnum=6))

    def fst(E):
        for unit in ('1/h^2', '1/h'):
            h = Hod(E, 'Cacciato', A=(True, True), unit=unit)
            o = h.obj
            E.eq('stellar fractions add up ' + unit, o.stellar_fraction_cen + o.stellar_fraction_sat, o.stellar_fraction)
        E.eq('observable functions add up', o.obs_func_cen + o.obs_func_sat, o.obs_func)
        E.eq('conditional functions add up', o.COF_cen + o.COF_sat, o.COF)
        E.eq('occupations add up', o._compute_hod_cen + o._compute_hod_sat, o._compute_hod)
        return h
    out.append(case('C08', 'conditional model adds up', fst, BASE + [H + 'Cacciato.' + f for f in ('COF', 'obs_func', 'obs_func_cen', 'obs_func_sat')]))

    def none(E):
        h = Hod(E, 'Zheng', A=(False, False))
        o = h.obj
        for n in ('', '_cen', '_sat'):
            E.eq('analytic models have no stellar fraction' + n, getattr(o, 'stellar_fraction' + n),
                 h.to_z(h.full() * 0, 0))
        return h
    out.append(case('C08', 'no stellar fraction', none, [H + 'HaloOccupationDistribution.stellar_fraction' + n for n in ('', '_cen', '_sat')]))

    def cac(E):
        # Simpson weights of a grid whose neighbouring steps differ by less than a factor two are non-negative
        E.sign('simpsonw', '0+')
        E.dim('no', 12, 20)
        h = Hod(E, 'Cacciato', A=(False, True))
        o = h.obj
        E.ge('central occupation >= 0', o._compute_hod_cen, 0)
        E.ge('satellite occupation >= 0', o._compute_hod_sat, 0)
        return h
    out.append(case('C08', 'conditional model non-negative', cac, [H + 'Cacciato._compute_hod_cen', H + 'Cacciato._compute_hod_sat'], wide=False,
                    note='assumes non-negative Simpson weights (log-spaced observable grid with neighbouring steps within a factor two)'))
    return out


def ins_num(h):
    zv = np.asarray(h.zv)[None, :]
    lo, hi = np.asarray(h.settings['zmin'])[:, None], np.asarray(h.settings['zmax'])[:, None]
    return ((zv >= lo) & (zv <= hi)).astype(float)


# ------------------------------------------------------------------ C10
def cases_C10():
    out = [Case('observables file in any order', 'C10', lambda E: file_order(E, ['Cacciato']), BASE, [hodm], nnum=3, bounded=True,
                note='the rows of a random file of 2 to 5 redshifts in four orders')]
    CF = [H + 'Cacciato.' + f for f in ('COF', 'COF_cen', 'COF_sat', 'cal_mean_obs_c', 'phi_star_s', 'M_char', 'Obs_norm_c')] + \
         [H + 'HaloOccupationDistribution.' + f for f in ('obs', 'log_obs_min', 'log_obs_max', 'nobs', 'nbins', 'nz')]
    for file in (False, True):
        tag = ' (observables file)' if file else ''

        def cof(E, file=file):
            h = Hod(E, 'Cacciato', A=(False, False), file=file)
            o = h.obj
            E.eq('observable grid', o.obs, h.obs())
            E.eq('central conditional function', o.COF_cen, h.cof_c())
            E.eq('satellite conditional function', o.COF_sat, h.cof_s())
            E.eq('total conditional function', o.COF, h.cof_c() + h.cof_s())
            E.ge('central conditional function >= 0', o.COF_cen, 0)
            E.ge('satellite conditional function >= 0', o.COF_sat, 0)
            E.eq('mean observable', o.cal_mean_obs_c, h.mean_obs())
            E.frame()
            return h
        out.append(case('C10', 'conditional functions' + tag, cof, CF))

        def integ(E, file=file):
            h = Hod(E, 'Cacciato', A=(False, False), file=file)
            o = h.obj
            c, s = h.cof_c(), h.cof_s()
            M = h.M[..., None]
            dn = h.at_bins('dndlnm')[..., None]
            E.eq('occupation of centrals is the integral over the bin', o._compute_hod_cen, shim.sym_simpson(c, x=h.obs(), axis=-1))
            E.eq('occupation of satellites is the integral over the bin', o._compute_hod_sat, shim.sym_simpson(s, x=h.obs(), axis=-1))
            for n, y in (('_cen', c), ('_sat', s), ('', c + s)):
                E.eq('observable function' + n, getattr(o, 'obs_func' + n), shim.sym_simpson(y * dn / M, x=h.s('mass'), axis=2))
            return h
        out.append(case('C10', 'integrals' + tag, integ, CF + [H + 'Cacciato.' + f for f in ('_compute_hod_cen', '_compute_hod_sat', 'obs_func', 'obs_func_cen', 'obs_func_sat')]))

        for unit in ('1/h^2', '1/h'):
            def fst(E, file=file, unit=unit):
                h = Hod(E, 'Cacciato', A=(True, True), file=file, unit=unit)
                o = h.obj
                f = h.s('h') if unit == '1/h^2' else 1
                ob = h.obs()
                for n, y in (('_cen', h.cof_c()), ('_sat', h.cof_s()), ('', h.cof_c() + h.cof_s())):
                    fs = shim.sym_simpson(y * ob, x=ob, axis=-1) / h.M
                    E.eq('stellar fraction' + n, getattr(o, 'stellar_fraction' + n), h.to_z(fs, 0) * f)
                return h
            out.append(case('C10', f'stellar fraction {unit}' + tag, fst, CF + [H + 'HaloOccupationDistribution.stellar_fraction' + n for n in ('', '_cen', '_sat')] +
                            [H + 'Cacciato._compute_stellar_fraction' + n for n in ('', '_cen', '_sat')]))

    out.append(case('C10', 'defaults', lambda E: defaults(E, ('Cacciato',)), [H + 'Cacciato.__init__'], nnum=1, bounded=True, note='one configuration per parameter'))

    def dec(E):
        h = Hod(E, 'Cacciato', A=(True, True))
        E.eq('decorated centrals', h.obj._compute_hod_cen, h.cen())
        E.eq('decorated satellites', h.obj._compute_hod_sat, h.sat())
        return h
    out.append(case('C10', 'decorated', dec, [H + 'Cacciato._compute_hod_cen', H + 'Cacciato._compute_hod_sat']))

    def units(E):
        a = Hod(E, 'Cacciato', A=(False, False), unit='1/h^2')
        b = Hod(E, 'Cacciato', A=(False, False), unit='1/h')
        for n in ('number_density', 'hod_cen', 'hod_sat', 'obs_func', 'galaxy_linear_bias', 'f_c', 'avg_halo_mass'):
            E.eq(f'{n} does not depend on the unit', getattr(a.obj, n), getattr(b.obj, n))
        E.eq('stellar fraction changes by h only', a.obj.stellar_fraction, b.obj.stellar_fraction * a.h)
        return a
    out.append(case('C10', 'units', units, BASE))
    return out + obsfunc_cases()


def spectra(h, which, **kw):
    """a Spectra object over the inputs of h whose `which` settings are those of h and whose other settings differ"""
    V = dict(mass=h.mass, z_vec=h.zv, dndlnm=h.dn, halo_bias=h.hb, cosmo_model=h.cosmo)
    other = dict(h.settings, nobs=7, zmin=h.settings['zmin'] * 0.5, zmax=h.settings['zmax'] * 2.0, obs_min=h.settings['obs_min'] - 1.0)
    st = {k: (h.settings if k == which else other) for k in ('hod_settings', 'hod_settings_mm', 'obs_settings')}
    V.update(st)
    V['hod_params'] = h.P
    cls = leafclass(pk.Spectra, V, 'Spectra')
    return cls(hod_model=type(h.obj), **kw)


def obsfunc_cases():
    SP = 'onepower.pk.Spectra.'

    def obsf(E):
        h = Hod(E, 'Cacciato', A=(False, False))
        sp = spectra(h, 'obs_settings', compute_observable=True)
        ob = h.obs()[:, :, 0, :]
        M, dn = h.M[..., None], h.at_bins('dndlnm')[..., None]
        for n, y in (('_cen', h.cof_c()), ('_sat', h.cof_s()), ('', h.cof_c() + h.cof_s())):
            phi = shim.sym_simpson(y * dn / M, x=h.s('mass'), axis=2)
            E.eq('reported observable function' + n, getattr(sp, 'obs_func' + n), NP.log(10.0) * ob * phi)
        E.eq('its observable axis', sp.obs_func_obs, ob)
        E.eq('its redshift axis', sp.obs_func_z, h.zb())
        E.frame()
        return h

    def none(E):
        h = Hod(E, 'Cacciato', A=(False, False))
        sp = spectra(h, 'obs_settings', compute_observable=False)
        for n in ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z'):
            E.true(n + ' is None when not requested', getattr(sp, n) is None)
        h2 = Hod(E, 'Zheng', A=(False, False))
        sp = spectra(h2, 'obs_settings', compute_observable=True)
        for n in ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z'):
            E.true(n + ' is None for an analytic model', getattr(sp, n) is None)
        return h

    def mm(E):
        h = Hod(E, 'Cacciato', A=(True, True))
        sp = spectra(h, 'hod_settings_mm', hmcode_ingredients='fit')
        E.eq('matter-matter stellar fraction uses hod_settings_mm', sp.fstar_mm, h.obj.stellar_fraction)
        sp = spectra(h, 'hod_settings')
        E.eq('galaxy stellar fraction uses hod_settings', sp.fstar, h.obj.stellar_fraction)
        E.eq('no feedback fit: no matter-matter stellar fraction', sp.fstar_mm, (h.s('z_vec')[None, :, None] + h.M) * 0)
        return h
    fo = [SP + f for f in ('obs', 'obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z')]
    return [case('C10', 'Spectra observable function', obsf, fo), case('C10', 'Spectra without observable function', none, fo),
            case('C10', 'Spectra stellar fractions', mm, [SP + f for f in ('hod_mm', 'fstar_mm', 'fstar', 'hod')])]


def hod_in_spectra():
    def f(E, m='Zheng'):
        h = Hod(E, m, A=(True, True))
        sp = spectra(h, 'hod_settings')
        o = h.obj
        for n in ('number_density', 'f_c', 'f_s', 'hod_cen', 'hod_sat', 'avg_halo_mass_cen', 'galaxy_linear_bias'):
            E.eq(f'Spectra.hod.{n}', getattr(sp.hod, n), getattr(o, n))
        E.eq('mass_avg is the mean mass per galaxy', sp.mass_avg, o.avg_halo_mass_cen / o.number_density)
        E.frame()
        return h
    return [case('C09', f'Spectra.hod {m}', (lambda m: lambda E: f(E, m))(m), ['onepower.pk.Spectra.hod', 'onepower.pk.Spectra.mass_avg']) for m in ('Zheng', 'Cacciato')]
