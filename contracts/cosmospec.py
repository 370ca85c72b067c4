"""Contracts on the CosmoSIS module cosmosis_modules/onepower_interface.py (C19).

The real setup() and execute() are run.  CosmoSIS itself is not installed: its data block is represented by its interface
contract (class Block: case-insensitive names, typed reads with defaults, missing values raise a ValueError, writes copy).
onepower.pk.Spectra is represented by its contract: it holds the documented parameters (unknown names are errors, dictionaries
are merged as hmf does) and every quantity is a function of the parameter values at the time it is read, so that the unit sees
with which parameters each written value was obtained.  The upsampling is the real onepower.add.UpsampledSpectra.
"""
from __future__ import annotations
import copy
import importlib.util
import os
import re
import sys
import types
import numpy as np
from onv import shim, terms as T, norm as N, tensor as X
from onv.core import Case
from onv.tensor import SymTensor, Unsupported
import hmf._internals._cache as hcache
import onepower.pk as pk
import onepower.add as add
from .hmispec import swap
from .updspec import same

NP = shim.NPX
OPT = 'module_options'
COS = 'cosmological_parameters'
PATH = os.path.join(os.environ.get('ONV_REPO', '/repo'), 'cosmosis_modules', 'onepower_interface.py')
FN = ['cosmosis_modules.onepower_interface.' + f for f in (
    'setup', 'execute', 'setup_pipeline_parameters', 'setup_hod', 'setup_hod_settings', 'setup_hod_settings_mm', 'setup_hmf_config', 'get_nbins',
    'get_string_or_none', 'get_linear_power_spectrum', 'get_nonlinear_power_spectrum', 'interpolate_in_z', 'log_linear_interpolation_k',
    'save_matter_results', 'save_hod_results', 'save_obs_results', 'save_pk_to_grid')]


class BlockError(ValueError):
    pass


def interface():
    """the module of /repo, loaded with a stand-in for the cosmosis package"""
    if 'onv_opi' in sys.modules:
        return sys.modules['onv_opi']
    c, d = types.ModuleType('cosmosis'), types.ModuleType('cosmosis.datablock')

    class _Names:
        def __getattr__(self, n):
            return n
    d.names, d.option_section, d.BlockError, c.datablock = _Names(), OPT, BlockError, d
    d.SectionOptions = None
    keep = {k: sys.modules.get(k) for k in ('cosmosis', 'cosmosis.datablock')}
    sys.modules['cosmosis'], sys.modules['cosmosis.datablock'] = c, d
    try:
        spec = importlib.util.spec_from_file_location('onv_opi', PATH)
        m = importlib.util.module_from_spec(spec)
        sys.modules['onv_opi'] = m
        spec.loader.exec_module(m)
    except BaseException:
        sys.modules.pop('onv_opi', None)
        raise
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return m


opi = interface()
PH = re.compile('\u27e6(\\d+)\u27e7')


class Fam:
    """what a loop over bins wrote: for every i < dim the value val[i] under the name with number num[i]"""

    def __init__(self, dim, num, val):
        self.dim, self.num, self.val = dim, num, val


def cp(v):
    return v.copy() if isinstance(v, (SymTensor, np.ndarray)) else copy.deepcopy(v) if isinstance(v, (dict, list)) else v


class Block:
    def __init__(self, E, values=None):
        self.E = E
        self.inp = {}
        self.fam = {}
        self.out = {}
        self.axes = {}
        self.asked = set()
        for (s, n), v in (values or {}).items():
            self.give(s, n, v)

    def give(self, s, n, v):
        self.inp[s, n.lower()] = v

    def family(self, s, base, v):
        """v[i] under base_(i+1)"""
        self.fam[s, base.lower()] = v

    # ---- reads
    def _find(self, s, n):
        n = n.lower()
        self.asked.add((s, PH.sub('#', n)))
        if (s, n) in self.out and not PH.search(n):
            return True, self.out[s, n]
        if (s, n) in self.inp:
            return True, self.inp[s, n]
        m = re.match('(.*)_(?:\u27e6(\\d+)\u27e7|(\\d+))$', n)
        if m and (s, m.group(1)) in self.fam:
            t = self.fam[s, m.group(1)]
            if m.group(2):
                node = N.nd(int(m.group(2)))
                return True, t[SymTensor.scalar(N.canon(T.sub(node, T.num(1))), 'i')]
            i = int(m.group(3))
            d = t.shape[0]
            if 1 <= i and (not isinstance(d, (int, np.integer)) or i <= d):
                return True, t[i - 1]
        return False, None

    def has_value(self, s, n):
        return self._find(s, n)[0]

    def has_section(self, s):
        return any(k[0] == s for k in list(self.inp) + list(self.out) + list(self.fam))

    def __contains__(self, k):
        return self.has_value(*k)

    def __getitem__(self, k):
        ok, v = self._find(*k)
        if not ok:
            raise BlockError(f'{k} not found')
        return cp(v) if not isinstance(v, SymTensor) else v

    def get(self, s, n, default=None):
        ok, v = self._find(s, n)
        if ok:
            return v
        if default is None:
            raise BlockError(f'{(s, n)} not found')
        return default

    get_double = get_int = get_bool = get_string = get_double_array_1d = get_double_array_nd = get_int_array_1d = get

    def get_grid(self, s, a, b, c):
        return self[s, a], self[s, b], self[s, c]

    # ---- writes
    def _put(self, s, n, v):
        n = n.lower()
        v = cp(v)
        if X.LOOPS:
            ids = {int(i) for i in PH.findall(s + '|' + n)}
            if len(X.LOOPS) > 1 or len(ids) > 1:
                raise Unsupported('nested loops around a write to the data block')
            g = X.LOOPS[0]

            def at(t, i):
                f = X.lift(t).snapshot()
                return SymTensor.make(X.lift(t).dims, lambda idx: T.subst(f(idx), {g.var.id: i}), X.lift(t).kind)
            if not ids:
                self.out[s, n] = at(v, N.canon(T.sub(g.dim, T.num(1)))) if isinstance(v, SymTensor) else v
                return
            node = N.nd(ids.pop())
            t = X.lift(v)
            f = t.snapshot()
            val = SymTensor.make((g.dim,) + t.dims, lambda idx: T.subst(f(tuple(idx[1:])), {g.var.id: idx[0]}), t.kind)
            num = SymTensor.make((g.dim,), lambda idx: T.subst(node, {g.var.id: idx[0]}), 'i')
            self.out[PH.sub('#', s), PH.sub('#', n)] = Fam(g.dim, num, val)
            return
        if PH.search(s + n):
            raise Unsupported('symbolic name outside a loop')
        self.out[s, n] = v

    def put(self, s, n, v, **k):
        self._put(s, n, v)

    def __setitem__(self, k, v):
        self._put(k[0], k[1], v)

    put_int = put_double = put_bool = put_string = put_double_array_1d = put_double_array_nd = put_int_array_1d = put
    replace = replace_int = replace_double = replace_double_array_1d = replace_double_array_nd = put

    def put_grid(self, s, nx, x, ny, y, nz, z):
        a, b = X.lift(x).dims if self.E.sym else np.shape(x), X.lift(y).dims if self.E.sym else np.shape(y)
        c = X.lift(z).dims if self.E.sym else np.shape(z)
        ok = len(a) == 1 and len(b) == 1 and len(c) == 2
        if ok:
            ok = (X.same_dim(a[0], c[0]) and X.same_dim(b[0], c[1])) if self.E.sym else c == (a[0], b[0])
        self.E.true(f'put_grid {PH.sub("#", s)}/{PH.sub("#", nz)}: values have the shape of their axes', ok, note=f'{a} {b} {c}')
        self._put(s, nx, x)
        self._put(s, ny, y)
        self._put(s, nz, z)
        self.axes[PH.sub('#', s), PH.sub('#', nz).lower()] = (PH.sub('#', nx).lower(), PH.sub('#', ny).lower())

    replace_grid = put_grid


# ------------------------------------------------------------------ stand-in for Spectra
REAL = None


def defaults():
    global REAL
    if REAL is None:
        REAL = pk.Spectra.get_all_parameter_defaults(recursive=False)
        for k, v in list(REAL.items()):
            if isinstance(v, type):
                REAL[k] = v.__name__
    return REAL


# dims: b galaxy bins, z redshift, k wavenumber, m mass, 1
QUANT = {'mass': 'm', 'mean_density0': 'z', 'mean_density_z': 'z', 'rho_halo': 'z', 'dndlnm': 'zm', 'halo_bias': 'zm', 'nu': 'zm', 'neff': 'z',
         'sigma8_z': 'z', 'fnu': '', 'u_dm': 'zkm', 'u_sat': 'zkm', 'conc_cen': 'zm', 'conc_sat': 'zm', 'r_s_cen': 'zm', 'r_s_sat': 'zm',
         'rvir_cen': 'zm', 'rvir_sat': 'zm', 'mass_avg': 'bz', 'fstar': 'bzm', 'growth_factor': 'z', 'obs_func': 'pqo', 'obs_func_cen': 'pqo', 'obs_func_sat': 'pqo',
         'obs_func_z': 'pq', 'obs_func_obs': 'pqo'}
HODQ = {'hod_cen': 'bzm', 'hod_sat': 'bzm', 'hod': 'bzm', 'number_density_cen': 'bz', 'number_density_sat': 'bz', 'number_density': 'bz', 'f_c': 'bz', 'f_s': 'bz',
        'avg_halo_mass': 'bz', 'avg_halo_mass_cen': 'bz', 'avg_halo_mass_sat': 'bz', 'galaxy_linear_bias': 'bz', 'stellar_fraction': 'bzm'}
SPEC = ('mm', 'gg', 'gm', 'ii', 'gi', 'mi')


def world(E, nb, nbia, nz, nk, obsd):
    """nb, nbia, obsd=(bins, z): dimension names or integers"""
    snaps = []
    leaves = {}

    class W:
        pass
    w = W()
    w.snaps, w.leaves = snaps, leaves

    def dims(code, snap):
        s = snap.get('hod_settings', {})
        if s.get('observables_file') is not None:
            b = 1
        else:
            om = s.get('obs_min')
            b = 1 if om is None else w.bins[w.tag(om)]
        return tuple({'b': b, 'z': nz, 'k': nk, 'm': 'nm', '1': 1, 'p': obsd[0], 'q': obsd[1], 'o': 'no'}[c] for c in code)

    def read(q, code, obj):
        snap = obj.snapshot()
        if 'b' not in code:
            # matter quantities and observables do not depend on the bins and on the alignments
            snap = {k: v for k, v in snap.items() if k not in ('hod_settings', 'align_params')}
        for i, s in enumerate(snaps):
            if s.keys() == snap.keys() and all(same(s[k], snap[k]) if not isinstance(s[k], np.ndarray) else np.array_equal(s[k], snap[k]) if isinstance(snap[k], np.ndarray) else False for k in s):
                break
        else:
            i = len(snaps)
            snaps.append(snap)
        n = f'{q}@{i}'
        if n not in leaves:
            leaves[n] = (E.t(n, dims(code, snap), '+') if code else E.scalar(n, '+'), i, q)
        return leaves[n][0] if E.sym or not code else leaves[n][0]
    w.read = read

    class Hod:
        def __init__(self, sp):
            self._sp = sp

        def __getattr__(self, n):
            if n in HODQ:
                return read('hod.' + n, HODQ[n], self._sp)
            raise AttributeError(n)

    class Res:
        def __init__(self, sp, m):
            self._sp, self._m = sp, m

        def __getattr__(self, n):
            if n in ('pk_1h', 'pk_2h', 'pk_tot', 'galaxy_linear_bias'):
                return read(f'{self._m}.{n}', ('1' if self._m == 'mm' else 'b') + 'zk', self._sp)
            raise AttributeError(n)

    class Spectra:
        def __init__(self, **kw):
            object.__setattr__(self, '_p', copy.copy(defaults()))
            for k, v in self._p.items():
                if isinstance(v, dict):
                    self._p[k] = dict(v)
            self.update(**kw)

        def snapshot(self):
            return {k: dict(v) if isinstance(v, dict) else v for k, v in self._p.items()}

        def update(self, **kw):
            for k in kw:
                if k not in self._p:
                    raise ValueError(f'Invalid arguments: {k}')
            for k, v in kw.items():
                setattr(self, k, v)

        def clone(self, **kw):
            c = Spectra()
            c._p.update(self.snapshot())
            c.update(**kw)
            return c

        def __setattr__(self, k, v):
            if k not in self._p:
                object.__setattr__(self, k, v)
            elif isinstance(v, dict):
                if v:
                    self._p[k].update(v)
                else:
                    self._p[k] = {}
            else:
                self._p[k] = v

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            if n in self._p:
                return self._p[n]
            if n == 'hod':
                return Hod(self)
            if n.startswith('obs_func') and not self._p['compute_observable']:
                return None
            if n in QUANT:
                return read(n, QUANT[n], self)
            if n.startswith('power_spectrum_') and n[15:] in SPEC:
                return Res(self, n[15:])
            raise AttributeError(n)
    w.Spectra = Spectra

    class Bnl:
        made = []

        def __init__(self, **kw):
            Bnl.made.append(kw)
            self.i = len(Bnl.made) - 1

        @property
        def bnl(self):
            return E.t(f'bnl@{self.i}', (nz, nk, 'nm', 'nm'))
    w.Bnl = Bnl
    return w


class P:
    """a value as the code sees it and as the specification sees it"""

    def __init__(self, code, spec):
        self.code, self.spec = code, spec


def sp(v):
    return v.spec if isinstance(v, P) else v


def cd(v):
    return v.code if isinstance(v, P) else v


# ------------------------------------------------------------------ the specification
HODPAR = {'Zheng': ['log10_Mmin', 'sigma', 'log10_M0', 'log10_M1', 'alpha'], 'Zhai': ['log10_Mmin', 'sigma', 'log10_Msat', 'log10_Mcut', 'alpha'],
          'Cacciato': ['log10_obs_norm_c', 'log10_m_ch', 'g1', 'g2', 'sigma_log10_O_c', 'norm_s', 'pivot', 'alpha_s', 'beta_s', 'b0', 'b1', 'b2']}
NAME = {'gg': 'galaxy_power', 'gm': 'matter_galaxy_power', 'ii': 'intrinsic_power', 'gi': 'galaxy_intrinsic_power', 'mi': 'matter_intrinsic_power'}
FLAG = {'mm': 'p_mm', 'gg': 'p_gg', 'gm': 'p_gm', 'ii': 'p_II', 'gi': 'p_gI', 'mi': 'p_mI'}

# options of the module with a documented default: name -> (default, expected parameter)
STR = {'profile_cen': ('NFW', 'halo_profile_model_dm'), 'profile_sat': ('NFW', 'halo_profile_model_sat'), 'hmf_model': ('Tinker10', 'hmf_model'),
       'mdef_model': ('SOMean', 'mdef_model'), 'cm_model_cen': ('Duffy08', 'halo_concentration_model_dm'),
       'cm_model_sat': ('Duffy08', 'halo_concentration_model_sat'), 'bias_model': ('Tinker10', 'bias_model')}
DBL = {'overdensity': (200.0, 'overdensity'), 'delta_c': (1.686, 'delta_c'), 'log_mass_min': (9.0, 'Mmin'), 'log_mass_max': (16.0, 'Mmax')}
KT = {'one_halo_ktrunc': 0.1, 'two_halo_ktrunc': 2.0, 'one_halo_ktrunc_ia': 4.0, 'two_halo_ktrunc_ia': 6.0}
PROF = {'norm_cen': 1.0, 'norm_sat': 1.0, 'eta_cen': 0.0, 'eta_sat': 0.0}
COSMO = {'omega_c': 'omega_c', 'omega_b': 'omega_b', 'h0': 'h0', 'n_s': 'n_s', 'sigma_8': 'sigma_8', 'mnu': 'm_nu', 'w': 'w0', 'wa': 'wa'}


class Cfg:
    base = dict(p=('mm',), response=False, mode=None, ingr=None, split=False, hod='Cacciato', poisson='constant', cen=None, sat=None, obs=None, nb=1, nbia=1,
                file_hod=False, file_ia=False, file_ia2=False, given=True, ab=False, kt=None, scalar_bins=False, calls=1, numgrid=None, bool_opts=True, slope_none=False, emu=True)

    def __init__(self, **k):
        self.__dict__.update(self.base)
        self.__dict__.update(k)
        self.galaxy = 'gg' in self.p or 'gm' in self.p
        self.align = any(x in self.p for x in ('ii', 'gi', 'mi'))


def build(E, c):
    """options, data blocks, and the expected contents"""
    for n in ('nm', 'nkl', 'nzl', 'nkn', 'nzn', 'nt', 'ng'):
        E.dim(n, 2, 4)
    E.dim('no', 2, 3)
    o = Block(E)
    x = {}

    def sc(name, sign=None, **k):
        code = E.scalar(name, sign, **k)
        return P(code, E.s(name))

    def opt(n, v):
        o.give(OPT, n, cd(v))
        x[n] = sp(v)
    if c.given:
        E.dim('nz', 2, 4)
        E.dim('nk', 2, 4)
        nz, nk = 'nz', 'nk'
        opt('zmin_hmf', sc('zmin_hmf', '+', lo=0.05, hi=0.2))
        opt('zmax_hmf', sc('zmax_hmf', '+', lo=1.0, hi=1.5))
        opt('nz_hmf', P(E.dim('nz', 2, 4), SymTensor.scalar(E.dn('nz'), 'i')))
        opt('nk', P(E.dim('nk', 2, 4), SymTensor.scalar(E.dn('nk'), 'i')))
        if c.numgrid is None:
            opt('nmass', P(E.dim('nmass', 2, 4), SymTensor.scalar(E.dn('nmass'), 'i')))
        else:
            opt('nmass', c.numgrid[2])
        for n, (d, t) in STR.items():
            opt(n, 'my_' + n)
        for n, (d, t) in DBL.items():
            if n.startswith('log_mass') and c.numgrid is not None:
                opt(n, c.numgrid[0 if n.endswith('min') else 1])
            else:
                opt(n, sc('o_' + n, '+'))
        opt('profile_value_name', 'my_profile')
        opt('dewiggle', True)
        opt('point_mass', True)
        opt('observable_h_unit', '1/H')
        opt('values_name', 'My_Hod_Par')
        opt('observable_section_name', 'My_Obs')
        opt('hod_section_name', 'my_hod')
    else:
        nz, nk = 15, 100
    for n in KT:
        if c.kt == 'none':
            opt(n, 'None')
            x[n] = None
        elif c.kt == 'num':
            opt(n, sc('o_' + n, '+'))
    for m, f in FLAG.items():
        if m in c.p:
            opt(f, True)
        elif c.bool_opts:
            opt(f, False)
    if c.response:
        opt('response', True)
    if c.split:
        opt('split_ia', True)
    if c.mode is not None:
        opt('nonlinear_mode', c.mode)
    if c.ingr is not None:
        opt('hmcode_ingredients', c.ingr)
    if c.mode == 'bnl':
        opt('update_bnl', 2)
    if c.galaxy or c.align:
        opt('poisson_type', c.poisson)
        if c.hod != 'Cacciato' or c.given:
            opt('hod_model', c.hod)
    if c.cen:
        opt('central_IA_depends_on', c.cen)
    if c.sat:
        opt('satellite_IA_depends_on', c.sat)
    bins = {}

    def dimb(d):
        if isinstance(d, int):
            return d
        E.dim(d, 2, 3)
        return d

    def settings(sfx, nb, file, one=False, nzq=None):
        st = {}
        if file:
            opt(f'observables_file_{sfx}', f'some/{sfx}.txt')
            st['observables_file'] = f'some/{sfx}.txt'
        else:
            st['observables_file'] = None
            for a, b in (('log10_obs_min', 'obs_min'), ('log10_obs_max', 'obs_max'), ('zmin', 'zmin'), ('zmax', 'zmax')):
                if one:
                    v = sc(f'o_{a}_{sfx}')
                    opt(f'{a}_{sfx}', v)
                    st[b] = SymTensor.make((T.num(1),), lambda idx, v=v: v.spec.node())
                else:
                    t = E.t(f'o_{a}_{sfx}', (nb,))
                    opt(f'{a}_{sfx}', P(t, E.s(f'o_{a}_{sfx}')))
                    st[b] = E.s(f'o_{a}_{sfx}')
            if nzq is None:
                opt(f'nz_{sfx}', P(E.dim(f'nz_{sfx}'), SymTensor.scalar(E.dn(f'nz_{sfx}'), 'i')))
            elif isinstance(nzq, int):
                opt(f'nz_{sfx}', nzq)
            else:
                opt(f'nz_{sfx}', P(E.dim(nzq, 2, 3), SymTensor.scalar(E.dn(nzq), 'i')))
            st['nz'] = x[f'nz_{sfx}']
        opt(f'nobs_{sfx}', P(E.dim(f'nobs_{sfx}'), SymTensor.scalar(E.dn(f'nobs_{sfx}'), 'i')))
        st['nobs'] = x[f'nobs_{sfx}']
        st['observable_h_unit'] = '1/h' if c.given else '1/h^2'
        return st
    nb, nbia = dimb(c.nb), dimb(c.nbia)
    obsd = (1, 1)
    st_hod = settings('hod', nb, c.file_hod, c.scalar_bins) if c.galaxy else {}
    if c.galaxy and not c.given:
        pass
    st_1 = st_2 = {}
    sec1 = sfx1 = sfx2 = None
    if c.align:
        if c.split:
            st_1, st_2 = settings('ia_1', nbia, c.file_ia), settings('ia_2', nbia, c.file_ia2)
            for i in '12':
                opt(f'hod_section_name_ia_{i}', f'sec_ia_{i}')
                opt(f'output_suffix_ia_{i}', f'Pop{i}')
            sec1, sfx1, sfx2 = 'sec_ia_1', '_pop1', '_pop2'
        else:
            st_1 = settings('ia', nbia, c.file_ia, c.scalar_bins)
            opt('hod_section_name_ia', 'sec_ia')
            if c.given:
                opt('output_suffix_ia', 'Pop')
            sec1, sfx1 = 'sec_ia', '_pop' if c.given else ''
    st_obs = {}
    if c.obs:
        ob, oz = c.obs
        obsd = (dimb(ob), oz if isinstance(oz, int) else dimb(oz))
        opt('save_observable', True)
        st_obs = settings('smf', obsd[0], False, ob == 1 and c.scalar_bins, oz)
        st_obs['save_observable'] = True
        st_obs['observable_section_name'] = 'my_obs' if c.given else 'stellar_mass_function'
    else:
        st_obs = {'save_observable': False, 'observable_section_name': 'my_obs' if False else 'stellar_mass_function'}
    w = world(E, nb, nbia, nz, nk, obsd)
    # which bins an obs_min belongs to is told by its leaf name; settings go through np.asarray([..]).flatten()
    w.bins = {'hod': 1 if c.scalar_bins else nb, 'ia': 1 if c.scalar_bins else nbia, 'ia_1': nbia, 'ia_2': nbia}

    def tag(om):
        best = None
        for s in w.bins:
            name = f'o_log10_obs_min_{s}'
            if E.sym:
                v = X.lift(om)
                first = v.at(*[0] * v.ndim)
                if name in E.specs:
                    e = E.s(name)
                    if first is e.at(*[0] * e.ndim):
                        best = s
            elif name in E.leaves and np.ravel(om)[0] == np.ravel(E.leaves[name])[0]:
                best = s
            elif name in E.scalars and np.ravel(om)[0] == E.scalars[name]:
                best = s
        if best is None:
            raise Unsupported('bins of unknown origin')
        return best
    w.tag = tag

    # ---- data blocks, one per call
    blocks, exps = [], []
    hv = 'my_hod_par' if c.given else 'hod_parameters'
    pf = 'my_profile' if c.given else 'profile_parameters'
    for call in range(c.calls):
        q = '' if c.calls == 1 else f'{call}_'
        b = Block(E)
        e = {}

        def val(sec, name, v, key=None):
            b.give(sec, name, cd(v))
            e[(sec, name.lower()) if key is None else key] = sp(v)

        def grid(name, d, lo, hi, log=False):
            return P(E.grid(q + name, d, '+' if lo else '0+', lo, hi, log, ends=True), E.s(q + name))

        def tens(name, d, sign=None):
            return P(E.t(q + name, d, sign), E.s(q + name))
        val('matter_power_transfer_func', 'k_h', tens('tk', ('nt',), '+'))
        val('matter_power_transfer_func', 't_k', tens('tt', ('nt',), '+'))
        val('growth_parameters', 'z', tens('gz', ('ng',), '+'))
        val('growth_parameters', 'd_z', tens('gd', ('ng',), '+'))
        val('matter_power_lin', 'k_h', grid('klin', 'nkl', 0.01, 9.0, True))
        val('matter_power_lin', 'z', grid('zlin', 'nzl', 0.0, 4.0))
        val('matter_power_lin', 'p_k', tens('plin', ('nzl', 'nkl'), '+'))
        if c.response or c.mode == 'fortuna':
            val('matter_power_nl', 'k_h', grid('knl', 'nkn', 0.01, 9.0, True))
            val('matter_power_nl', 'z', grid('znl', 'nzn', 0.0, 4.0))
            val('matter_power_nl', 'p_k', tens('pnl', ('nzn', 'nkn'), '+'))
        for n in list(COSMO) + ['omega_m'] + (['A_s'] if c.mode == 'bnl' else []):
            val(COS, n, P(E.scalar(q + 'c_' + n, '+'), E.s(q + 'c_' + n)))
        val('halo_model_parameters', 'logT_AGN', P(E.scalar(q + 'tagn', '+'), E.s(q + 'tagn')))
        if c.given:
            val(COS, 'TCMB', P(E.scalar(q + 'tcmb', '+'), E.s(q + 'tcmb')))
            val('halo_model_parameters', 'm_b', P(E.scalar(q + 'mb', '+'), E.s(q + 'mb')))
            for n in PROF:
                val(pf, n, P(E.scalar(q + n, '+'), E.s(q + n)))
        if c.galaxy or c.align:
            for n in {'constant': ['poisson'], 'power_law': ['poisson', 'pivot', 'slope']}[c.poisson]:
                val('pk_parameters', n, P(E.scalar(q + 'po_' + n), E.s(q + 'po_' + n)))
            if c.ab:
                for n in ('A_cen', 'A_sat'):
                    val(hv, n, P(E.scalar(q + n), E.s(q + n)))
            bb = (1 if c.file_hod or c.scalar_bins else nb) if c.galaxy else (1 if c.file_ia or c.scalar_bins else nbia)
            for n in HODPAR[c.hod]:
                if c.hod == 'Cacciato':
                    val(hv, n, P(E.scalar(q + 'h_' + n), E.s(q + 'h_' + n)))
                elif bb == 1:
                    v = P(E.scalar(q + 'h_' + n), E.s(q + 'h_' + n))
                    b.give(hv, n, v.code)
                    e[hv, n.lower()] = SymTensor.make((T.num(1),), lambda idx, v=v: v.spec.node())
                else:
                    t = E.t(q + 'h_' + n, (bb,))
                    b.family(hv, n, t)
                    e[hv, n.lower()] = E.s(q + 'h_' + n)
        if c.align:
            if c.given:
                val('pk_parameters', 'linear_fraction_fortuna', P(E.scalar(q + 'teff', '+'), E.s(q + 'teff')))
            for s in (sfx1, sfx2):
                if s is not None:
                    sec = 'intrinsic_alignment_parameters' + s
                    need = ['gamma_1h_radial_slope', 'gamma_1h_amplitude', 'gamma_2h_amplitude']
                    if (c.cen or 'halo_mass') == 'halo_mass':
                        need += ['beta', 'M_pivot']
                    if (c.sat or 'halo_mass') == 'halo_mass':
                        need += ['beta_sat', 'M_pivot']
                    for n in dict.fromkeys(need):
                        val(sec, n, P(E.scalar(f'{q}ia{s}_{n}'), E.s(f'{q}ia{s}_{n}')))
        blocks.append(b)
        exps.append(e)

    # ---- expected parameters
    def params(e):
        g = lambda n, d: x.get(n, d)  # noqa: E731
        z = NP.linspace(g('zmin_hmf', 0.0), g('zmax_hmf', 3.0), g('nz_hmf', 15))
        kl = e['matter_power_lin', 'k_h']
        k = 10.0 ** NP.linspace(NP.log10(kl[0]), NP.log10(kl[-1]), g('nk', 100))

        def resample(sec):
            a = shim.SymInterp1d(e[sec, 'z'], e[sec, 'p_k'], axis=0)(z)
            return NP.exp(shim.SymInterp1d(NP.log(e[sec, 'k_h']), NP.log(a), axis=1, fill_value='extrapolate')(NP.log(k)))
        d = {'z_vec': z, 'k_vec': k, 'matter_power_lin': resample('matter_power_lin'), 'hmcode_ingredients': c.ingr,
             'nonlinear_mode': None if c.mode == 'None' else c.mode, 'dewiggle': g('dewiggle', False),
             'lnk_min': NP.log(1e-8), 'lnk_max': NP.log(1e8), 'dlnk': 0.05, 'transfer_model': 'FromArray', 'growth_model': 'FromArray',
             'transfer_params': {'k': e['matter_power_transfer_func', 'k_h'], 'T': e['matter_power_transfer_func', 't_k']},
             'growth_params': {'z': e['growth_parameters', 'z'], 'd': e['growth_parameters', 'd_z']},
             'tcmb': e.get((COS, 'tcmb'), 2.7255), 'log10T_AGN': e['halo_model_parameters', 'logt_agn'],
             'mb': 10.0 ** e.get(('halo_model_parameters', 'm_b'), 13.87)}
        for n, (dv, t) in list(STR.items()) + list(DBL.items()):
            d[t] = g(n, dv)
        lo, hi = g('log_mass_min', 9.0), g('log_mass_max', 16.0)
        d['dlog10m'] = (hi - lo) / g('nmass', 200)
        for n, dv in PROF.items():
            d[n] = e.get((pf, n), dv)
        for n in ('one_halo_ktrunc', 'two_halo_ktrunc'):
            d[n] = g(n, KT[n])
        for n, t in COSMO.items():
            d[t] = e[COS, n.lower()]
        if c.response or c.mode == 'fortuna':
            d['matter_power_nl'] = resample('matter_power_nl')
            d['response'] = c.response
        if c.galaxy or c.align:
            d['poisson_model'] = c.poisson
            d['poisson_params'] = {n: e['pk_parameters', n] for n in ('poisson', 'pivot', 'slope') if ('pk_parameters', n) in e}
            d['pointmass'] = g('point_mass', False)
            d['hod_model'] = c.hod
            d['hod_params'] = {n: e[hv, n.lower()] for n in HODPAR[c.hod]}
            for n in ('A_cen', 'A_sat'):
                d['hod_params'][n] = e.get((hv, n.lower()))
            d['hod_settings'] = st_hod
            d['obs_settings'] = st_obs
            d['compute_observable'] = bool(c.obs)
            mm = dict(st_hod)
            if st_hod:
                if not c.file_hod:
                    for n, f in (('obs_min', NP.min), ('obs_max', NP.max), ('zmin', NP.min), ('zmax', NP.max)):
                        v = f(st_hod[n])
                        mm[n] = SymTensor.make((T.num(1),), lambda idx, v=v: X.lift(v).node())
                    mm['nz'] = 15
                mm['nobs'] = 100
            d['hod_settings_mm'] = mm
        if c.align:
            d['one_halo_ktrunc_ia'], d['two_halo_ktrunc_ia'] = g('one_halo_ktrunc_ia', 4.0), g('two_halo_ktrunc_ia', 6.0)
            d['t_eff'] = e.get(('pk_parameters', 'linear_fraction_fortuna'), 0.0)
            d['align_params'] = alig(e, sfx1)
        return d

    def alig(e, s):
        sec = 'intrinsic_alignment_parameters' + s
        cen, sat = c.cen or 'halo_mass', c.sat or 'halo_mass'
        h = lambda ok, n: e[sec, n] if ok == 'halo_mass' else None  # noqa: E731
        return {'central_ia_depends_on': cen, 'satellite_ia_depends_on': sat, 'beta_cen': h(cen, 'beta'), 'mpivot_cen': h(cen, 'm_pivot'),
                'beta_sat': h(sat, 'beta_sat'), 'mpivot_sat': h(sat, 'm_pivot'), 'gamma_1h_slope': e[sec, 'gamma_1h_radial_slope'],
                'gamma_1h_amplitude': e[sec, 'gamma_1h_amplitude'], 'gamma_2h_amplitude': e[sec, 'gamma_2h_amplitude'],
                'nmass': 5, 'n_hankel': 350, 'nk': 10, 'ell_max': 6}
    return dict(o=o, blocks=blocks, exps=exps, w=w, params=params, alig=alig, x=x, st=(st_hod, st_1, st_2, st_obs), sec1=sec1, sfx=(sfx1, sfx2), nb=nb, nbia=nbia,
                obsd=obsd, nz=nz, nk=nk, hodsec='my_hod' if c.given else 'hod')


def eqv(E, name, got, want):
    """obligation(s): the value the code used is the value the specification names"""
    if isinstance(want, dict):
        ok = isinstance(got, dict) and sorted(got) == sorted(want)
        E.true(name + ': keys', ok, note=f'{sorted(got) if isinstance(got, dict) else got!r} / {sorted(want)}')
        if ok:
            for k in want:
                eqv(E, f'{name}[{k}]', got[k], want[k])
        return
    num = (SymTensor, np.ndarray, int, float, np.number)
    if isinstance(want, num) and not isinstance(want, bool):
        if isinstance(got, num) and not isinstance(got, (bool, np.bool_)):
            E.eq(name, got, want)
        else:
            E.true(name, False, note=f'{got!r} / {want!r}')
        return
    E.true(name, type(got) is type(want) and got == want, note=f'{got!r} / {want!r}')


def outputs(E, c, B, e, w, call):
    """what has to be in the block: (section, name) -> (quantity, function of the leaf, stage, kind); kind 'b' = one entry per bin"""
    out, axes = {}, {}
    x = B['x']
    pr = B['pr'][call]
    z, k = pr['z_vec'], pr['k_vec']
    ident = lambda t: t  # noqa: E731

    def put(sec, n, q, f=ident, stage='m', bins=None):
        if 'b' not in QUANT.get(q, 'b'):
            stage = 'm'
        out[sec, n.lower()] = (q, f, stage, bins)

    def fix(sec, n, v):
        out[sec, n.lower()] = (None, v, None, None)

    def grid(sec, nx, vx, ny, vy, n, q, f=ident, stage='m', bins=None):
        for a, v in ((nx, vx), (ny, vy)):
            if isinstance(v, tuple):
                put(sec, a, v[0], v[1], stage, bins if len(v) > 2 else (bins and (bins, 'same')))
            else:
                out[sec, a.lower()] = (None, v, None, bins)
        put(sec, n, q, f, stage, bins)
        axes[sec, n.lower()] = (nx.lower(), ny.lower())
    mass = ('mass', ident)
    for s, n, q in (('concentration_m', 'c', 'conc_cen'), ('concentration_sat', 'c', 'conc_sat'), ('nfw_scale_radius_m', 'rs', 'r_s_cen'),
                    ('nfw_scale_radius_sat', 'rs', 'r_s_sat'), ('hmf', 'dndlnmh', 'dndlnm'), ('hmf', 'nu', 'nu'), ('halobias', 'b_hb', 'halo_bias')):
        grid(s, 'z', z, 'm_h', mass, n, q)
    put('virial_radius', 'm_h', 'mass')
    put('virial_radius', 'rvir_m', 'rvir_cen', lambda t: t[0])
    put('virial_radius', 'rvir_sat', 'rvir_sat', lambda t: t[0])
    fix('fourier_nfw_profile', 'z', z)
    put('fourier_nfw_profile', 'm_h', 'mass')
    fix('fourier_nfw_profile', 'k_h', k)
    put('fourier_nfw_profile', 'ukm', 'u_dm')
    put('fourier_nfw_profile', 'uksat', 'u_sat')
    put('density', 'mean_density0', 'mean_density0')
    put('density', 'rho_crit', 'mean_density0', lambda t: t / e[COS, 'omega_m'])
    put('density', 'mean_density_z', 'mean_density_z')
    put('density', 'rho_halo', 'rho_halo')
    fix('density', 'z', z)
    put('hmf', 'neff', 'neff')
    put('hmf', 'sigma8_z', 'sigma8_z')
    put(COS, 'fnu', 'fnu')

    def hod(sec, nb, stage):
        fix(sec, 'nbins', nb if isinstance(nb, int) else SymTensor.scalar(E.dn(nb), 'i'))
        s = '' if nb == 1 else '_#'
        for n, q in (('N_sat', 'hod.hod_sat'), ('N_cen', 'hod.hod_cen'), ('N_tot', 'hod.hod'), ('f_star', 'fstar')):
            grid(sec, 'z' + s, z, 'mass' + s, mass, n + s, q, stage=stage, bins=nb)
        for n, q in (('number_density_cen', 'hod.number_density_cen'), ('number_density_sat', 'hod.number_density_sat'), ('number_density_tot', 'hod.number_density'),
                     ('central_fraction', 'hod.f_c'), ('satellite_fraction', 'hod.f_s'), ('average_halo_mass', 'mass_avg')):
            put(sec, n + s, q, stage=stage, bins=nb)
    nb = 1 if c.file_hod or c.scalar_bins else B['nb']
    nbia = 1 if c.file_ia or c.scalar_bins else B['nbia']
    if c.galaxy:
        hod(B['hodsec'], nb, 'g')
    if c.align:
        hod(B['sec1'], nbia, 'a')
    if c.obs and (c.galaxy or c.align):
        sec = B['st'][3]['observable_section_name']
        fix(sec, 'obs_func_definition', 'obs_func * obs * ln(10)')
        p, qd = B['obsd']
        if p == 1 and qd == 1:
            for n, q in (('obs_val_1', 'obs_func_obs'), ('obs_func_1', 'obs_func'), ('obs_func_c_1', 'obs_func_cen'), ('obs_func_s_1', 'obs_func_sat')):
                put(sec, n, q, lambda t: t[0, 0])
        else:
            s = '_1' if p == 1 else '_#'
            f = (lambda t: t[0]) if p == 1 else ident
            g = (lambda t: t[0, 0]) if p == 1 else (lambda t: t[:, 0])
            for n, q in (('obs_func', 'obs_func'), ('obs_func_c', 'obs_func_cen'), ('obs_func_s', 'obs_func_sat')):
                grid(sec, 'z_bin' + s, ('obs_func_z', f, 0), 'obs_val' + s, ('obs_func_obs', g, 0), n + s, q, f, bins=None if p == 1 else p)
    zo, ko = e['matter_power_lin', 'z'], e['matter_power_lin', 'k_h']

    def up(t):
        a = shim.SymInterp1d(z, t, axis=1, bounds_error=False, fill_value='extrapolate')(zo)
        return shim.SymInterp1d(NP.log10(k), a, axis=2, bounds_error=False, fill_value='extrapolate')(NP.log10(ko))
    if 'mm' in c.p and not c.response:
        for n in ('1h', '2h', 'tot'):
            grid('matter_power_nl', 'z', zo, 'k_h', ko, 'p_k' + {'tot': ''}.get(n, '_' + n), 'mm.pk_' + n, lambda t: up(t)[0])
    for m in ('gg', 'gm', 'ii', 'gi', 'mi'):
        if m not in c.p:
            continue
        bb = nb if m in ('gg', 'gm') else nbia
        s = '' if bb == 1 else '_#'
        f = (lambda t: up(t)[0]) if bb == 1 else up
        st = 'g' if m in ('gg', 'gm') else 'a'
        for n in ('1h', '2h', 'tot'):
            grid(NAME[m] + s, 'z', zo, 'k_h', ko, 'p_k' + {'tot': ''}.get(n, '_' + n), f'{m}.pk_' + n, f, st, None if bb == 1 else bb)
        if st == 'g':
            bs, bn = ('galaxy_linear_bias', 'bg_linear') if m == 'gg' else ('galaxy_matter_linear_bias', 'bgm_linear')
            grid(bs + s, 'z', z, 'k_h', k, bn, f'{m}.galaxy_linear_bias', (lambda t: t[0]) if bb == 1 else ident, st, None if bb == 1 else bb)
    # single-bin hod entries
    for key, (q, f, st, bins) in list(out.items()):
        if bins == 1 or bins == (1, 'same'):
            same_ = bins != 1
            out[key] = (q, (f if q is None or same_ else (lambda t, f=f: f(t[0]))), st, None)
    return out, axes


def check(E, c, B, e, w, b, call):
    pr = B['pr'][call]
    out, axes = outputs(E, c, B, e, w, call)
    # concrete bins expand into one name per bin
    want = {}
    for (s, n), (q, f, st, bins) in out.items():
        same_ = isinstance(bins, tuple)
        d = bins[0] if same_ else bins
        if d is None or '#' not in s + n:
            want[s, n] = (q, f, st, None)
        elif isinstance(d, int) or not E.sym:
            m = d if isinstance(d, int) else E.scalars[d]
            for i in range(m):
                want[s.replace('#', str(i + 1)), n.replace('#', str(i + 1))] = (q, (f if q is None or same_ else (lambda t, f=f, i=i: f(t)[i])), st, None)
        else:
            want[s, n] = (q, f, st, (d, same_))
    ax = {}
    for (s, n), (a1, a2) in axes.items():
        ax[s, n] = (a1, a2)
    got = b.out
    E.true(f'call {call}: exactly the requested entries are written', sorted(got) == sorted(want),
           note=f'missing {sorted(set(want) - set(got))} unexpected {sorted(set(got) - set(want))}')
    used = {}
    for key, (q, f, st, fam) in want.items():
        if key not in got:
            continue
        g = got[key]
        nm = f'{key[0]}/{key[1]}'
        if q is None:
            spec = f
        else:
            tag = [(n, i) for n, (_, i, qq) in w.leaves.items() if qq == q]
            # the leaf this entry was computed from
            spec, snap = None, None
            for n, i in reversed(tag):
                if stage_of(E, c, B, w.snaps[i], pr, st, call):
                    spec, snap = f(E.s(n)), i
                    break
            if spec is None:
                E.true(f'{nm}: computed from {q} with the requested settings', False, note=f'{q} read with other parameters or not at all')
                continue
            used.setdefault(snap, set()).add(st)
        if fam is not None:
            d, same_ = fam
            if not isinstance(g, Fam):
                E.true(f'{nm}: one entry per bin', False)
                continue
            E.true(f'{nm}: one entry per bin', X.same_dim(g.dim, X.dimnode(E.dn(d))), note=str(g.dim))
            E.eq(f'{nm}: bin i under number i+1', g.num, SymTensor.make((g.dim,), lambda idx: T.add(idx[0], T.num(1)), 'i'))
            sv = X.lift(spec)
            if q is None or same_:
                sv0 = sv.snapshot()
                sv = SymTensor.make((X.dimnode(E.dn(d)),) + sv.dims, lambda idx, h=sv0: h(tuple(idx[1:])), sv.kind)
            E.eq(nm, g.val, sv)
            continue
        if isinstance(g, Fam):
            E.true(f'{nm}: a single entry', False)
            continue
        eqv(E, nm, g, spec)
    for key, v in ax.items():
        kk = key
        if kk in b.axes:
            E.true(f'{key[0]}/{key[1]}: axes', b.axes[kk] == v, note=f'{b.axes[kk]} / {v}')
        elif not isinstance(list(got)[0], type(None)) and key in got:
            E.true(f'{key[0]}/{key[1]}: axes', False, note='no axes')
    for i, stages in used.items():
        for st in sorted(stages):
            snapeq(E, c, B, w.snaps[i], pr, st, f'call {call}, {dict(m="matter", g="galaxies", a="alignments")[st]}')


def stage_of(E, c, B, snap, pr, st, call):
    """is the snapshot one of this stage and call? (told by its bins and by the linear power)"""
    if not B['mine'](snap, call):
        return False
    if st == 'm':
        return True
    if 'hod_settings' not in snap:
        return False
    hs = snap['hod_settings']
    want = B['st'][0] if st == 'g' else B['st'][1]
    if (hs.get('observables_file') is None) != (want.get('observables_file') is None):
        return False
    if hs.get('observables_file') is not None:
        return hs['observables_file'] == want['observables_file']
    try:
        return B['w'].tag(hs['obs_min']) == ('hod' if st == 'g' else 'ia_1' if c.split else 'ia')
    except (Unsupported, KeyError):
        return False


def snapeq(E, c, B, snap, pr, st, name):
    want = dict(defaults())
    want.update(pr)
    if st == 'a':
        want['hod_settings'] = B['st'][1]
    for k in want:
        if st == 'm' and k in ('hod_settings', 'align_params'):
            continue
        g = snap[k]
        if isinstance(g, type):
            g = g.__name__
        if k == 'hod_settings' and isinstance(g, dict):
            # keys of an earlier sample survive hmf's merging of dictionaries; a file takes precedence over limits
            g = {n: v for n, v in g.items() if n in want[k]}
        if k == 'response' or k in pr:
            eqv(E, f'{name}: {k}', g, want[k])
        else:
            dv = want[k]
            ok = g is dv or (isinstance(g, (int, float, str, bool, type(None), dict)) and g == dv) or (isinstance(g, np.ndarray) and np.array_equal(g, dv))
            E.true(f'{name}: {k} left at its default', bool(ok), note=repr(g)[:80])


def run(E, c):
    if not c.emu and 'HAVE_DARKEMU' not in opi.__dict__:
        if E.sym:
            raise Unsupported('HAVE_DARKEMU not found')
        return E.skip('HAVE_DARKEMU not found')
    B = build(E, c)
    w, o = B['w'], B['o']
    B['pr'] = [B['params'](e) for e in B['exps']]

    def mine(snap, call):
        lin = snap['omega_b']
        code = B['blocks'][call].inp[COS, 'omega_b']
        return lin is code if E.sym else lin == code
    B['mine'] = mine
    with swap(hcache, obj_eq=same), swap(opi, Spectra=w.Spectra, NonLinearBias=w.Bnl, HAVE_DARKEMU=c.emu):
        if c.mode == 'bnl' and not c.emu:
            return E.raises('the emulator is required for its mode', ImportError, lambda: opi.setup(o))
        config = opi.setup(o)
        for call, b in enumerate(B['blocks']):
            rc = opi.execute(b, config)
            E.true(f'call {call}: execute reports success', rc == 0, note=repr(rc))
            if c.mode == 'bnl':
                bnl_check(E, c, B, w, call)
            check(E, c, B, B['exps'][call], w, b, call)
            if c.split and any(m in c.p for m in ('ii', 'gi', 'mi')):
                two = [s for s in w.snaps if 'hod_settings' in s and B['mine'](s, call) and is2(B, s)]
                E.true(f'call {call}: second population evaluated with its own bins', len(two) >= 1)
                for s in two[:1]:
                    e = B['exps'][call]
                    g = {n: v for n, v in s['hod_settings'].items() if n in B['st'][2]}
                    eqv(E, f'call {call}: second population hod_settings', g, B['st'][2])
                    eqv(E, f'call {call}: second population align_params', s['align_params'], B['alig'](e, B['sfx'][1]))
    E.true('options are not written', not o.out)
    E.frame()


def is2(B, s):
    hs, want = s['hod_settings'], B['st'][2]
    if want.get('observables_file') is not None:
        return hs.get('observables_file') == want['observables_file']
    try:
        return hs.get('observables_file') is None and B['w'].tag(hs['obs_min']) == 'ia_2'
    except (Unsupported, KeyError):
        return False


def bnl_check(E, c, B, w, call):
    made = call // 2 + 1
    E.true(f'call {call}: non-linear bias computed every update_bnl calls', len(w.Bnl.made) == made, note=str(len(w.Bnl.made)))
    pr, e = B['pr'][call], B['exps'][call]
    for m in pr:
        pass
    pr['beta_nl'] = E.s(f'bnl@{made - 1}')
    if call % 2 == 0 and len(w.Bnl.made) == made:
        lo, hi, n = c.numgrid
        want = {'mass': 10.0 ** np.arange(lo, hi, (hi - lo) / n), 'z_vec': pr['z_vec'], 'k_vec': pr['k_vec'], 'h0': pr['h0'], 'A_s': e[COS, 'a_s'],
                'omega_b': pr['omega_b'], 'omega_c': pr['omega_c'], 'omega_lambda': 1.0 - e[COS, 'omega_m'], 'n_s': pr['n_s'], 'w0': pr['w0'], 'z_dep': False}
        eqv(E, f'call {call}: non-linear bias arguments', dict(w.Bnl.made[-1]), want)


ALL = ('mm', 'gg', 'gm', 'ii', 'gi', 'mi')


def cases_C19():
    out = []

    def add_(name, n=2, **k):
        c = Cfg(**k)
        bnd = c.mode == 'bnl'
        out.append(Case(name, 'C19', lambda E, k=k: run(E, Cfg(**k)), FN, [opi, add], nnum=n, wide=False, bounded='sym' if bnd else False))
    import itertools
    # every combination of requested spectra
    for r in range(0, 7):
        for p in itertools.combinations(ALL, r):
            add_('requested: ' + (' '.join(p) or 'nothing'), 1, p=p, nb='nb' if 'gg' in p else 1, nbia='nbia' if 'ii' in p else 1)
    full = dict(p=ALL, nb='nb', nbia='nbia')
    for a, b in ((1, 1), (1, 'nbia'), ('nb', 1), ('nb', 'nbia'), (2, 3), (3, 2)):
        add_(f'all spectra, bins {a} {b}', p=ALL, nb=a, nbia=b)
        add_(f'all spectra, split, bins {a} {b}', p=ALL, nb=a, nbia=b, split=True)
    add_('defaults', p=('mm',), given=False, bool_opts=False)
    add_('defaults, galaxies', p=('gg', 'gm'), given=False, bool_opts=False, nb='nb')
    add_('defaults, all', given=False, **full)
    add_('single values as limits', p=ALL, scalar_bins=True)
    for m in ('None', 'hmcode', 'fortuna'):
        add_(f'mode {m}', mode=m, **full)
        add_(f'mode {m}, matter', mode=m, p=('mm',))
        add_(f'mode {m}, response', mode=m, response=True, **full)
    for m in ('None', 'hmcode', 'fortuna', 'bnl'):
        add_(f'mode {m}, emulator not installed', mode=m, emu=False, **full)
    for i in ('mead2020', 'mead2020_feedback', 'fit'):
        add_(f'ingredients {i}', ingr=i, **full)
    for p in (('mm',), ('gg',), ('gm',), ('ii',), ('mi', 'gi'), ALL):
        add_('response: ' + ' '.join(p), response=True, p=p)
    add_('bnl', 1, mode='bnl', numgrid=(10.0, 15.0, 10), calls=4, **full)
    add_('bnl, matter only', 1, mode='bnl', numgrid=(10.0, 15.0, 10), calls=3, p=('mm',))
    for h in ('Zheng', 'Zhai', 'Cacciato'):
        for ab in (False, True):
            for p in (ALL, ('gg',), ('gi',), ('mm', 'mi')):
                for n in (1, 'n', 2):
                    nb, nbia = ('nb', 'nbia') if n == 'n' else (n, n)
                    add_(f'hod {h}, {" ".join(p)}, bins {n}, assembly bias {ab}', 1, hod=h, ab=ab, p=p, nb=nb, nbia=nbia)
    add_('poisson power law', poisson='power_law', **full)
    for ce in (None, 'halo_mass', 'constant'):
        for sa in (None, 'halo_mass', 'constant'):
            for s in (False, True):
                add_(f'alignment of centrals {ce}, satellites {sa}, split {s}', 1, cen=ce, sat=sa, split=s, **full)
    for kt in ('none', 'num'):
        add_(f'truncation {kt}', kt=kt, **full)
    add_('truncation none, matter', kt='none', p=('mm',))
    for ob in ((1, 1), (1, 'oz'), ('ob', 'oz'), ('ob', 1), (2, 'oz')):
        for p in (('gg',), ('mm', 'ii'), ('ii',), ALL):
            add_(f'observables {ob}, {" ".join(p)}', 1, obs=ob, p=p, nb='nb', nbia='nbia')
    add_('observables, single values', obs=(1, 1), p=('mm', 'gg'), scalar_bins=True)
    add_('observables with matter only', obs=(1, 1), p=('mm',))
    for h in ('Cacciato', 'Zheng'):
        add_(f'bins from a file, {h}', file_hod=True, file_ia=True, p=ALL, hod=h)
        add_(f'galaxy bins from a file, {h}', file_hod=True, p=ALL, nbia=1, hod=h)
        add_(f'alignment bins from a file, {h}', file_ia=True, p=('mm', 'ii', 'gi'), hod=h)
        add_(f'alignment bins from a file beside galaxy bins, {h}', file_ia=True, p=ALL, nb='nb', hod=h)
    add_('split bins from files', file_ia=True, file_ia2=True, split=True, p=ALL, nb='nb')
    add_('split, first bins from a file', file_ia=True, split=True, p=ALL, nb='nb')
    # histories: the pipeline is called again with other values
    for k in (dict(p=('mm',)), full, dict(split=True, **full), dict(p=('gg', 'gm'), nb='nb', hod='Zheng'), dict(response=True, **full), dict(p=('ii', 'mi'), nbia='nbia'),
              dict(p=ALL, nb='nb', file_ia=True), dict(p=ALL, file_hod=True, nbia='nbia'), dict(obs=('ob', 'oz'), ab=True, **full)):
        add_('two calls: ' + ', '.join(f'{a}={b}' for a, b in k.items()), 1, calls=2, **k)
    return out


def real_run(E, cfg):
    """the real library behind the real interface, on one pipeline input, against direct use of the library"""
    r = np.random.default_rng([E.seed & 0xffffffff, 19])
    z, k = np.linspace(0, 1.5, 5), np.logspace(-3, 2, 30)
    p = 1e4 * (k / 0.02) / (1 + (k / 0.02) ** 2.6) / (1 + z[:, None]) ** 2
    kt, zz = np.logspace(-4, 4, 400), np.linspace(0, 5, 100)
    cos = dict(omega_c=r.uniform(0.2, 0.3), omega_b=0.05, h0=r.uniform(0.6, 0.8), n_s=0.96, sigma_8=r.uniform(0.7, 0.9), mnu=0.06, w=-1.0, wa=0.0)
    hodp = dict(log10_obs_norm_c=9.95, log10_m_ch=11.24, g1=3.18, g2=0.245, sigma_log10_O_c=0.157, norm_s=0.562, pivot=12.0, alpha_s=-1.18, beta_s=2.0, b0=-1.17, b1=1.53,
                b2=-0.217)
    zh = {n: r.uniform(0.9, 1.1, 2) * v for n, v in dict(log10_Mmin=12.0, sigma=0.3, log10_M0=12.0, log10_M1=13.0, alpha=1.0).items()}
    ia = dict(M_pivot=13.5, gamma_2h_amplitude=5.33, beta=0.44, gamma_1h_radial_slope=-2.0, gamma_1h_amplitude=0.001, beta_sat=0.7)
    o, b = Block(E), Block(E)
    lim = {}
    for s, sh in (('hod', 0.0), ('ia', 0.5)):
        lim[s] = dict(obs_min=np.array([8.0, 9.0]) + sh, obs_max=np.array([9.0, 11.0]) + sh, zmin=np.array([0.0, 0.2]), zmax=np.array([0.2, 0.5]))
        for n, v in lim[s].items():
            o.give(OPT, {'obs_min': 'log10_obs_min', 'obs_max': 'log10_obs_max'}.get(n, n) + '_' + s, v)
        lim[s].update(observables_file=None, nz=4, nobs=20, observable_h_unit='1/h^2')
        o.give(OPT, f'nz_{s}', 4)
        o.give(OPT, f'nobs_{s}', 20)
    for n, v in dict(log_mass_min=10.0, log_mass_max=15.0, nmass=40, zmin_hmf=0.0, zmax_hmf=1.0, nz_hmf=3, nk=12, poisson_type='constant', hod_section_name='hs',
                     hod_section_name_ia='hsia', **{FLAG[m]: True for m in ALL}, **cfg).items():
        o.give(OPT, n, v)
    for n, v in cos.items():
        b.give(COS, n, v)
    b.give(COS, 'omega_m', cos['omega_c'] + cos['omega_b'])
    for s, f in (('lin', 1.0), ('nl', 2.0)):
        b.give('matter_power_' + s, 'z', z)
        b.give('matter_power_' + s, 'k_h', k)
        b.give('matter_power_' + s, 'p_k', f * p)
    b.give('matter_power_transfer_func', 'k_h', kt)
    b.give('matter_power_transfer_func', 't_k', 1 / (1 + (kt / 0.05) ** 2))
    b.give('growth_parameters', 'z', zz)
    b.give('growth_parameters', 'd_z', 1 / (1 + zz))
    b.give('halo_model_parameters', 'logT_AGN', 7.8)
    b.give('pk_parameters', 'poisson', 0.9)
    for n, v in ia.items():
        b.give('intrinsic_alignment_parameters', n, v)
    hod = cfg.get('hod_model', 'Cacciato')
    for n, v in hodp.items():
        b.give('hod_parameters', n, v)
    for n, v in zh.items():
        b.family('hod_parameters', n, v)
    rc = opi.execute(b, opi.setup(o))
    E.true('execute reports success', rc == 0)
    zv, kv = np.linspace(0.0, 1.0, 3), np.logspace(-3, 2, 12)
    from scipy.interpolate import interp1d
    pl = np.exp(interp1d(np.log(k), np.log(interp1d(z, p, axis=0)(zv)), axis=1, fill_value='extrapolate')(np.log(kv)))
    par = dict(z_vec=zv, k_vec=kv, matter_power_lin=pl, lnk_min=np.log(1e-8), lnk_max=np.log(1e8), dlnk=0.05, transfer_model='FromArray',
               transfer_params={'k': kt, 'T': 1 / (1 + (kt / 0.05) ** 2)}, growth_model='FromArray', growth_params={'z': zz, 'd': 1 / (1 + zz)}, Mmin=10.0, Mmax=15.0,
               dlog10m=0.125, log10T_AGN=7.8, mb=10.0 ** 13.87, hod_model=hod, hod_params=dict(hodp if hod == 'Cacciato' else zh, A_cen=None, A_sat=None), hod_settings=lim['hod'],
               poisson_model='constant', poisson_params={'poisson': 0.9}, nonlinear_mode=cfg.get('nonlinear_mode'), delta_c=1.686,
               halo_profile_model_dm='NFW', halo_profile_model_sat='NFW', mdef_model='SOMean', overdensity=200.0, hmf_model='Tinker10', bias_model='Tinker10',
               halo_concentration_model_dm='Duffy08', halo_concentration_model_sat='Duffy08', one_halo_ktrunc=0.1, two_halo_ktrunc=2.0, one_halo_ktrunc_ia=4.0,
               two_halo_ktrunc_ia=6.0, t_eff=0.0,
               align_params=dict(central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass', beta_cen=ia['beta'], mpivot_cen=13.5, beta_sat=0.7, mpivot_sat=13.5,
                                 gamma_1h_slope=-2.0, gamma_1h_amplitude=0.001, gamma_2h_amplitude=5.33, nmass=5, n_hankel=350, nk=10, ell_max=6))
    par.update({COSMO[n]: v for n, v in cos.items()})
    if cfg.get('nonlinear_mode') == 'fortuna':
        par.update(matter_power_nl=2.0 * pl)
    # the alignments use a second set of bins
    one, two = pk.Spectra(**par), pk.Spectra(**dict(par, hod_settings=lim['ia']))

    def up(t):
        a = interp1d(zv, t, axis=1, bounds_error=False, fill_value='extrapolate')(z)
        return interp1d(np.log10(kv), a, axis=2, bounds_error=False, fill_value='extrapolate')(np.log10(k))
    for m in ALL:
        src = getattr(two if m in ('ii', 'gi', 'mi') else one, 'power_spectrum_' + m)
        for h in ('1h', '2h', 'tot'):
            want = up(getattr(src, 'pk_' + h))
            for i in range(len(want)):
                sec = 'matter_power_nl' if m == 'mm' else f'{NAME[m]}_{i + 1}'
                got = b.out.get((sec, 'p_k' + {'tot': ''}.get(h, '_' + h)))
                # (interpolated values near a sign change are compared at the scale of the spectrum)
                ok = got is not None and got.shape == want[i].shape and np.allclose(got, want[i], rtol=1e-7, atol=1e-10 * np.nanmax(np.abs(want[i])), equal_nan=True)
                E.true(f'{m} {h} bin {i + 1}', ok)
    for s, sec, pw in (('hod', 'hs', one), ('ia', 'hsia', two)):
        for i in range(2):
            E.true(f'number of galaxies {s} {i + 1}', np.allclose(b.out[sec, f'n_tot_{i + 1}'], pw.hod.hod[i], rtol=1e-9))
            E.true(f'number density {s} {i + 1}', np.allclose(b.out[sec, f'number_density_tot_{i + 1}'], pw.hod.number_density[i], rtol=1e-9))


def lib_names(E):
    """the quantities the stand-in offers are those of the library"""
    for n in QUANT:
        E.true(f'Spectra.{n} exists', hasattr(pk.Spectra, n))
    for n in ['power_spectrum_' + m for m in SPEC] + ['hod', 'update', 'clone']:
        E.true(f'Spectra.{n} exists', hasattr(pk.Spectra, n))


_c19 = cases_C19


def cases_C19():
    out = _c19()
    out.append(Case('names of the library', 'C19', lib_names, FN, [], nnum=1, wide=False))
    for c in (dict(), dict(hod_model='Zheng'), dict(nonlinear_mode='fortuna')):
        out.append(Case(f'real library behind the interface {c}', 'C19', lambda E, c=c: real_run(E, c), FN, [opi, add], nnum=3, wide=False, bounded=True,
                        note='the whole library runs on sampled pipeline inputs'))
    return out
