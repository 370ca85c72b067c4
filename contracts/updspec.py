"""Contracts on histories (C11) and frames (C12): parameter updates, reads, copies and aliasing.

The real classes of /repo are executed.  Their callees are represented by their contracts:
 * a quantity of HaloModelIngredients read by Spectra is a *tracked* input of Spectra (it can be updated on its own, which is the
   strongest demand on the dependency tracking of pk.py); that it is tracked is the obligation on hmi.py, decided in the hmi units,
 * occupation, alignment and non-linear-bias objects are functions of every constructor argument.
"""
from __future__ import annotations
import contextlib
import copy
import numpy as np
from onv import shim, terms as T, tensor as X
from onv.core import Case
from onv.tensor import SymTensor, Unsupported
import hmf._internals._cache as hcache
from hmf._internals._cache import parameter
import onepower.pk as pk
import onepower.hod as hodm
import onepower.hmi as hmi
import onepower.ia as ia
import onepower.add as add
import onepower.utils.poisson as pois
from .pkctx import drop_plugin, logk
from . import hmispec as hs
from .hmispec import Codes, swap
from .pkctx import leafclass

NP = shim.NPX
_obj_eq = hcache.obj_eq


def same(a, b):
    """contract of hmf's value comparison: distinct symbolic inputs denote distinct values"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, SymTensor) or isinstance(b, SymTensor):
        return a is b
    return _obj_eq(a, b)


def token(codes, v):
    """a scalar that identifies an argument"""
    if isinstance(v, (SymTensor, np.ndarray)):
        return v[(0,) * v.ndim] if v.ndim else v
    if isinstance(v, (bool, str, type)) or v is None or callable(v):
        return float(codes(v)) if not hasattr(v, 'tok') else v.tok
    if isinstance(v, (int, float, np.number)):
        return v
    if hasattr(v, 'tok'):
        return v.tok
    return float(codes(type(v)))


def tokens(codes, kw):
    out = []
    for k in sorted(kw):
        v = kw[k]
        if isinstance(v, dict):
            out += tokens(codes, v)
        else:
            out.append(token(codes, v))
    return out


class Cos:
    """a cosmology, known by its token"""

    def __init__(self, tok):
        self.tok = tok


HODDIM = {'f_c': ('nb', 'nz'), 'f_s': ('nb', 'nz'), 'hod_cen': ('nb', 'nz', 'nm'), 'hod_sat': ('nb', 'nz', 'nm'),
          'number_density_cen': ('nb', 'nz'), 'number_density_sat': ('nb', 'nz'), 'number_density': ('nb', 'nz'),
          'avg_halo_mass_cen': ('nb', 'nz'), 'stellar_fraction': ('nb', 'nz', 'nm'), 'obs': ('nb', 'nz', 1, 'no'),
          'obs_func': ('nb', 'nz', 'no'), 'obs_func_cen': ('nb', 'nz', 'no'), 'obs_func_sat': ('nb', 'nz', 'no'), 'z': ('nb', 'nz')}
ALDIM = {'alignment_gi': ('nz',), 'beta_cen': (), 'beta_sat': (), 'mpivot_cen': (), 'mpivot_sat': (), 'wkm': ('nz', 'nm', 'nk')}
# quantities of HaloModelIngredients that Spectra reads
LEAVES = {'mass': ('nm',), 'dndlnm': ('nz', 'nm'), 'halo_bias': ('nz', 'nm'), 'u_dm': ('nz', 'nk', 'nm'), 'u_sat': ('nz', 'nk', 'nm'),
          'mean_density0': ('nz',), 'growth_factor': ('nz',), 'sigma8_z': ('nz',), 'neff': ('nz',), 'conc_cen': ('nz', 'nm'),
          'r_s_cen': ('nz', 'nm'), 'rvir_cen': ('nz', 'nm'), 'kh': ('nkk',), 'power': ('nz', 'nkk'), 'nonlinear_power': ('nz', 'nkk')}
SC = {'mb': (1., 9.), 't_eff': (.1, .9), 'one_halo_ktrunc': (.1, 1.), 'two_halo_ktrunc': (1., 3.), 'one_halo_ktrunc_ia': (1., 4.), 'two_halo_ktrunc_ia': (2., 6.),
      'n_s': (.8, 1.1), 'log10T_AGN': (7.2, 8.2), 'omega_c': (.1, .5), 'omega_b': (.02, .1), 'h0': (.5, .9), 'sigma_8': (.6, 1.), 'w0': (-1.3, -.7)}


class Wrap:
    """constructor-argument contract: every attribute is a function of all arguments"""


class World:
    """versioned inputs and stand-ins for one proof unit"""

    def __init__(self, E):
        self.E = E
        self.codes = Codes()
        E.dim('nb', 1, 2)
        E.dim('nz', 1, 3)
        E.dim('nk', 3, 5)
        E.dim('nm', 3, 5)
        E.dim('nkk', 3, 5)
        E.dim('no', 2, 3)
        self.cache = {}
        w = self

        class _UHod(hodm.HaloOccupationDistribution):
            def __init__(self, cosmo=None, mass=None, dndlnm=None, halo_bias=None, z_vec=None, hod_settings=None, **params):
                a = dict(cosmo=cosmo, mass=mass, dndlnm=dndlnm, halo_bias=halo_bias, z_vec=z_vec, params=dict(params))
                self._tok = tokens(w.codes, a)
                self._set = hod_settings        # kept by reference, as the real class does
                self._name = type(self).__qualname__

            def _all(self):
                return self._tok + tokens(w.codes, dict(s=self._set or {}))
        vals = {}
        for a in dir(hodm.HaloOccupationDistribution):
            if getattr(getattr(hodm.HaloOccupationDistribution, a), '__isabstractmethod__', False):
                vals[a] = None
        for n, d in HODDIM.items():
            vals[n] = d

        def mk(n, d, tag):
            if d is None:
                return property(lambda s: None)
            return property(lambda s: w.fun(f'{tag}_{n}', d, s._all()))
        self.hods = {}
        for nm, tag in (('LeafHod', 'H'), ('Cacciato', 'C')):
            c = type(hodm.HaloOccupationDistribution)(nm, (_UHod,), {n: mk(n, d, tag) for n, d in vals.items()})
            self.hods[nm] = c
        for n in ('_UHod', 'LeafHod'):
            drop_plugin(hodm.HaloOccupationDistribution, n)
        if hodm.HaloOccupationDistribution._plugins.get('Cacciato') is self.hods['Cacciato']:
            hodm.HaloOccupationDistribution._plugins['Cacciato'] = hodm.Cacciato

        class Al:
            def __init__(self, **kw):
                self._tok = tokens(w.codes, kw)

            def _all(self):
                return self._tok

            def upsampled_wkm(self, k, m):
                return w.fun('A_wkm', ALDIM['wkm'], self._tok + [token(w.codes, k), token(w.codes, m)])
        for n, d in ALDIM.items():
            if n != 'wkm':
                setattr(Al, n, property(lambda s, n=n, d=d: w.fun('A_' + n, d, s._tok)))
        self.Al = Al

        class Bnl:
            def __init__(self, **kw):
                self._tok = tokens(w.codes, kw)

            def _all(self):
                return self._tok

            @property
            def bnl(self):
                return w.fun('B_bnl', ('nz', 'nk', 'nm', 'nm'), self._tok)
        self.Bnl = Bnl

        class Tk:
            def __init__(self, cosmo):
                self.cosmo = cosmo

            def lnt(self, lnk):
                return shim.ufun(E, 'lnt')(lnk, self.cosmo.tok) if not E.sym else shim.uapp('lnt', lnk, self.cosmo.tok)
        self.Tk = Tk

    def fun(self, name, dims, toks):
        """leaf tensor times an uninterpreted function of the tokens"""
        f = shim.ufun(self.E, 'F_' + name, sign='+')(*toks)
        if not dims:
            return f
        if name not in self.cache:
            self.cache[name] = self.E.t('T_' + name, dims, '+')
        return self.cache[name] * f

    def v(self, name, ver):
        """version `ver` of an input of Spectra"""
        key = (name, ver)
        if key in self.cache:
            return self.cache[key]
        E = self.E
        n = f'{name}_{ver}'
        if name == 'k_vec':
            if ver == 0:
                r = logk(E)
            else:
                s = E.scalar('kshift', '+', gen=lambda r: r.uniform(1.1, 1.5))
                b = self.v('k_vec', 0)
                r = b * s
                if not E.sym:
                    r = np.array(r)
        elif name == 'z_vec':
            r = E.grid(n, 'nz', '+', 0.05, 2.0)
        elif name == 'mass':
            r = E.grid(n, 'nm', '+', 0.5, 40., log=True)
        elif name == 'kh':
            r = E.grid(n, 'nkk', '+', 0.005, 20., log=True)
        elif name in LEAVES:
            r = E.t(n, LEAVES[name], '+')
        elif name in ('matter_power_lin', 'matter_power_nl'):
            r = E.t(n, ('nz', 'nk'), '+')
        elif name == 'beta_nl':
            r = E.t(n, ('nz', 'nk', 'nm', 'nm'))
        elif name in SC:
            lo, hi = SC[name]
            r = E.scalar(n, '+' if lo > 0 else None, gen=lambda g: g.uniform(lo, hi))
        elif name == 'omega_m':
            r = E.scalar(n, '+', gen=lambda g: g.uniform(.2, .6))
        elif name == 'cosmo_model':
            r = Cos(E.scalar(n, '+'))
        elif name == 'poisson_params':
            r = {'poisson': E.scalar(n, '+')}
        elif name == 'poisson_pl':
            r = {'poisson': E.scalar(n, '+'), 'pivot': E.scalar(n + 'p', gen=lambda g: g.uniform(0, 1)), 'slope': E.scalar(n + 's')}
        elif name == 'hod_params':
            r = {'a': E.scalar(n, '+')}
        elif name in ('hod_settings', 'hod_settings_mm', 'obs_settings'):
            r = {'observables_file': None, 'obs_min': E.t(n, ('nb',), '+')}
        elif name == 'align_params':
            r = {'beta_two': E.scalar(n), 'method': 'hankel', 'ell_max': 6}
        else:
            raise KeyError(name)
        self.cache[key] = r
        return r

    @contextlib.contextmanager
    def on(self):
        with swap(hcache, obj_eq=same), swap(pk, SatelliteAlignment=self.Al, NonLinearBias=self.Bnl, HAVE_DARKEMU=True, Tk_EH_nowiggle=self.Tk):
            yield

    def cls(self):
        """Spectra with the hmi quantities it reads as tracked inputs"""
        ns = {}
        names = [n for n in list(LEAVES) + ['omega_m', 'cosmo_model'] if not isparam(pk.Spectra, n)]
        for n in names:
            def f(self, val):
                return val
            f.__name__ = n
            ns[n] = parameter('param')(f)

        def init(obj, **kw):
            mine = {n: kw.pop(n) for n in names if n in kw}
            pk.Spectra.__init__(obj, **kw)
            for n, v in mine.items():
                setattr(obj, n, v)
        ns['__init__'] = init
        return type(pk.Spectra)('Spectra', (pk.Spectra,), ns)


def isparam(cls, n):
    p = getattr(cls, n, None)
    return isinstance(p, property) and p.fset is not None


def quantities(cls, stop=None):
    """all read-only quantities a class defines (parameters have a setter)"""
    out = []
    for c in cls.__mro__:
        if stop is not None and c is stop:
            break
        for n, p in vars(c).items():
            if isinstance(p, property) and p.fset is None and n not in out and not n.startswith('parameter_'):
                out.append(n)
    return out


# ------------------------------------------------------------------ observation of values
def snap(v, depth=0):
    """an immutable picture of a value: later writes to the value do not change it"""
    if isinstance(v, SymTensor):
        return v.copy()
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: snap(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snap(x, depth + 1) for x in v]
    if isinstance(v, pk.PowerSpectrumResult):
        return {k: snap(x, depth + 1) for k, x in sorted(vars(v).items())}
    if isinstance(v, hs.FHM):
        return ['halo model'] + [snap(x, depth + 1) for x in v.args(hs.FULL)]
    if isinstance(v, hs.FCosmo):
        return list(v.args)
    if hasattr(v, '_all'):
        return ['obj ' + type(v).__name__] + [snap(x, depth + 1) for x in v._all()]
    if isinstance(v, Cos):
        return v.tok
    if callable(v):
        return 'function'
    return v


def compare(E, name, a, b):
    """obligation(s): two pictures are equal"""
    if isinstance(a, dict) and isinstance(b, dict):
        E.true(name + ' (keys)', sorted(a) == sorted(b), note=f'{sorted(a)} / {sorted(b)}') if sorted(a) != sorted(b) else None
        for k in a:
            if k in b:
                compare(E, f'{name}.{k}', a[k], b[k])
        return
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            E.true(name + ' (length)', False)
        for i, (x, y) in enumerate(zip(a, b)):
            compare(E, f'{name}[{i}]' if len(a) > 1 else name, x, y)
        return
    num = (SymTensor, np.ndarray, int, float, np.number)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        if a is b:
            E.true(name, True)
        else:
            E.eq(name, a, b)
        return
    try:
        ok = type(a) is type(b) and bool(a == b)
    except Exception:  # noqa
        ok = a is b
    E.true(name, ok, note=f'{a!r} / {b!r}')


class Raised:
    def __init__(self, e):
        self.t = type(e).__name__

    def __eq__(self, o):
        return isinstance(o, Raised) and o.t == self.t

    def __repr__(self):
        return 'raises ' + self.t


def read(obj, n):
    try:
        return getattr(obj, n)
    except Unsupported:
        raise
    except Exception as e:  # noqa
        c, k = e, 0
        while c is not None and k < 8:
            if isinstance(c, Unsupported):
                raise c
            c, k = c.__cause__ or c.__context__, k + 1
        return Raised(e)


# ------------------------------------------------------------------ Spectra
ALWAYS = ['z_vec', 'k_vec', 'mb', 't_eff', 'n_s', 'log10T_AGN', 'omega_c', 'omega_b', 'h0', 'sigma_8', 'w0', 'one_halo_ktrunc', 'two_halo_ktrunc',
          'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia', 'matter_power_lin', 'matter_power_nl', 'poisson_params', 'hod_params', 'hod_settings',
          'hod_settings_mm', 'obs_settings', 'align_params', 'omega_m', 'cosmo_model'] + list(LEAVES)
CFG = {
    'plain': {},
    'response': dict(response=True),
    'bnl': dict(nonlinear_mode='bnl', beta_nl=0),
    'bnl emulator': dict(nonlinear_mode='bnl'),
    'fortuna': dict(nonlinear_mode='fortuna'),
    'hmcode': dict(nonlinear_mode='hmcode', hmcode_ingredients='mead2020'),
    'feedback': dict(nonlinear_mode='hmcode', hmcode_ingredients='mead2020_feedback'),
    'fit': dict(hmcode_ingredients='fit', hod_model='Cacciato', compute_observable=True),
    'internal power': dict(matter_power_lin=None, matter_power_nl=None, response=True),
    'pointmass': dict(pointmass=True, one_halo_ktrunc=None, two_halo_ktrunc=None, one_halo_ktrunc_ia=None, two_halo_ktrunc_ia=None, dewiggle=True,
                      poisson_model='power_law', poisson_params='pl'),
}
DEFAULT = dict(nonlinear_mode=None, response=False, hmcode_ingredients=None, pointmass=False, dewiggle=False, compute_observable=False,
               hod_model='LeafHod', poisson_model='constant', beta_nl=None)
SPECTRA = ['power_spectrum_' + s for s in ('lin', 'mm', 'gg', 'gm', 'mi', 'ii', 'gi')]
FN = ['onepower.pk.Spectra.* (every cached quantity and parameter)', 'onepower.utils.cache.cached_quantity', 'hmf parameter/update/clone (dependency, executed)']


class Model:
    """the configuration side of a history: current parameter versions"""

    def __init__(self, w, cfg):
        self.w = w
        self.kind = {p: p for p in ALWAYS}
        self.cur = {}
        for p in ALWAYS:
            self.cur[p] = w.v(p, 0)
        for k, v in {**DEFAULT, **CFG[cfg]}.items():
            self.cur[k] = self.conv(k, v)

    def conv(self, k, v):
        if k == 'hod_model' and isinstance(v, str):
            return self.w.hods[v]
        if k == 'poisson_params' and v == 'pl':
            return self.w.v('poisson_pl', 0)
        if k == 'beta_nl' and isinstance(v, int):
            return self.w.v('beta_nl', v)
        return v

    def target(self, cfg):
        t = {k: self.conv(k, v) for k, v in DEFAULT.items()}
        for p in ('matter_power_lin', 'matter_power_nl', 'one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia', 'poisson_params'):
            t[p] = self.w.v(p, 0)
        t.update({k: self.conv(k, v) for k, v in CFG[cfg].items()})
        return t

    def fresh(self, cls):
        return cls(**{k: (dict(v) if isinstance(v, dict) else v) for k, v in self.cur.items()})

    def change(self, **kw):
        for k, v in kw.items():
            if isinstance(v, dict) and isinstance(self.cur.get(k), dict) and v:
                self.cur[k] = {**self.cur[k], **v}
            else:
                self.cur[k] = v


def single(cfg, params):
    """every quantity, after each single-parameter update in turn"""
    def fn(E):
        w = World(E)
        with w.on():
            cls = w.cls()
            m = Model(w, cfg)
            obj = m.fresh(cls)
            Q = quantities(pk.Spectra, hmi.HaloModelIngredients)
            for q in Q:
                read(obj, q)
            for p in params:
                if m.cur.get(p) is None and p != 'beta_nl':
                    continue
                v = w.v('poisson_pl' if p == 'poisson_params' and 'slope' in m.cur[p] else p, 1)
                obj.update(**{p: v})
                m.change(**{p: v})
                f = m.fresh(cls)
                for q in Q:
                    compare(E, f'after update({p}): {q}', snap(read(obj, q)), snap(read(f, q)))
    return Case(f'Spectra[{cfg}] update of {params[0]}..{params[-1]}', 'C11', fn, FN, [pk, pois], nnum=2, wide=False)


CHUNKS = [ALWAYS[0:12], ALWAYS[12:24], ['omega_m', 'cosmo_model', 'u_dm', 'u_sat', 'kh', 'power', 'nonlinear_power', 'beta_nl'], ['mass', 'growth_factor', 'conc_cen'],
          ['dndlnm', 'sigma8_z', 'r_s_cen'], ['halo_bias', 'neff', 'rvir_cen'], ['mean_density0']]


def switched(a, b, params):
    """configuration a, everything read, change to configuration b in one update, then single-parameter updates: the spectra"""
    def fn(E):
        w = World(E)
        with w.on():
            cls = w.cls()
            m = Model(w, a)
            obj = m.fresh(cls)
            for q in quantities(pk.Spectra, hmi.HaloModelIngredients):
                read(obj, q)
            t = {k: v for k, v in m.target(b).items() if v is not m.cur.get(k)}
            obj.update(**t)
            m.change(**t)
            f = m.fresh(cls)
            for q in quantities(pk.Spectra, hmi.HaloModelIngredients):
                compare(E, f'after the change to {b}: {q}', snap(read(obj, q)), snap(read(f, q)))
            for p in params:
                if m.cur.get(p) is None and p != 'beta_nl':
                    continue
                v = w.v('poisson_pl' if p == 'poisson_params' and 'slope' in m.cur[p] else p, 1)
                obj.update(**{p: v})
                m.change(**{p: v})
                f = m.fresh(cls)
                for q in SPECTRA + ['hod', 'obs_func', 'fstar', 'mass_avg']:
                    compare(E, f'then update({p}): {q}', snap(read(obj, q)), snap(read(f, q)))
    return Case(f'Spectra[{a} -> {b}] then {params[0]}..', 'C11', fn, FN, [pk, pois], nnum=1, wide=False)


def walk(cfg):
    """random histories of reads, updates, changes of configuration and copies (concrete values)"""
    def fn(E):
        if E.sym:
            return E.skip('random histories run on concrete values')
        w = World(E)
        rng = np.random.default_rng([E.seed, 77])
        with w.on():
            cls = w.cls()
            Q = quantities(pk.Spectra, hmi.HaloModelIngredients)
            live = [(Model(w, cfg), None)]
            live[0] = (live[0][0], live[0][0].fresh(cls))
            names = list(CFG)
            for step in range(14):
                i = int(rng.integers(len(live)))
                m, obj = live[i]
                op = rng.choice(['update', 'update', 'update', 'config', 'clone', 'read'])
                if op == 'update':
                    kw = {}
                    for p in rng.choice(ALWAYS + ['beta_nl'], size=int(rng.integers(1, 4)), replace=False):
                        if m.cur.get(p) is None:
                            continue
                        ver = int(rng.integers(2))
                        kw[p] = w.v('poisson_pl' if p == 'poisson_params' and 'slope' in m.cur[p] else p, ver)
                    obj.update(**kw)
                    m.change(**kw)
                elif op == 'config':
                    t = {k: v for k, v in m.target(names[int(rng.integers(len(names)))]).items() if v is not m.cur.get(k)}
                    obj.update(**t)
                    m.change(**t)
                elif op == 'clone' and len(live) < 3:
                    m2 = Model(w, cfg)
                    m2.cur = dict(m.cur)
                    live.append((m2, obj.clone()))
                qs = rng.choice(Q, size=int(rng.integers(1, 9)), replace=False) if rng.uniform() < .8 else Q
                f = m.fresh(cls)
                for q in qs:
                    compare(E, f'step {step}: {q}', snap(read(obj, q)), snap(read(f, q)))
            for m, obj in live:
                f = m.fresh(cls)
                for q in Q:
                    compare(E, f'end: {q}', snap(read(obj, q)), snap(read(f, q)))
    return Case(f'Spectra random histories from {cfg}', 'C11', fn, FN, [pk, pois], nnum=4, wide=False, bounded=True, note='histories of 14 operations on up to three copies')


def cloned(cfg):
    """a copy updated on its own: the copy follows its parameters, the original keeps its values"""
    def fn(E):
        w = World(E)
        with w.on():
            cls = w.cls()
            Q = quantities(pk.Spectra, hmi.HaloModelIngredients)
            m = Model(w, cfg)
            obj = m.fresh(cls)
            before = {q: snap(read(obj, q)) for q in Q}
            c = obj.clone()
            kw = {p: w.v(p, 1) for p in ('halo_bias', 'u_dm', 'omega_b', 'log10T_AGN', 'n_s', 'hod_params', 'hod_settings', 'align_params', 't_eff')}
            for p in ('one_halo_ktrunc', 'matter_power_lin', 'matter_power_nl'):
                if m.cur[p] is not None:
                    kw[p] = w.v(p, 1)
            for p, v in kw.items():
                c.update(**{p: v})
            m2 = Model(w, cfg)
            m2.cur = dict(m.cur)
            m2.change(**kw)
            f, f0 = m2.fresh(cls), m.fresh(cls)
            for q in Q:
                compare(E, f'updated copy: {q}', snap(read(c, q)), snap(read(f, q)))
                compare(E, f'original: {q}', snap(read(obj, q)), snap(read(f0, q)))
                compare(E, f'original as read before: {q}', snap(read(obj, q)), before[q])
    return Case(f'Spectra[{cfg}] copy', 'C11', fn, FN, [pk, pois], nnum=2, wide=False)


# ------------------------------------------------------------------ HaloModelIngredients
HPAR = ['h0', 'omega_c', 'omega_b', 'w0', 'wa', 'n_s', 'tcmb', 'Neff', 'm_nu', 'sigma_8', 'log10T_AGN', 'lnk_min', 'lnk_max', 'dlnk', 'Mmin', 'Mmax', 'dlog10m',
        'overdensity', 'delta_c', 'norm_cen', 'norm_sat', 'eta_cen', 'eta_sat']
HOPT = {'hmf_model': 'HMF2', 'bias_model': 'BIAS2', 'halo_profile_model_dm': 'P2', 'halo_profile_model_sat': 'P3', 'halo_concentration_model_dm': 'Bullock01',
        'halo_concentration_model_sat': 'Bullock01', 'transfer_model': 'TR2', 'transfer_params': {'a': 5}, 'growth_model': 'GR2', 'growth_params': {'b': 7}}
HCFG = [(None, 'SOMean'), (None, 'SOVirial'), ('fit', 'SOCritical'), ('mead2020', 'SOMean'), ('mead2020_feedback', 'SOMean')]


class HWorld:
    def __init__(self, E, hm, mdef, nz=2):
        self.E = E
        self.c = hs.Ctx(E, hm, mdef, nz)
        names = [n for n in ('get_mead_growth_fnc',) if hasattr(hmi.HaloModelIngredients, n)]
        ns = {}
        for n in names:
            def f(self, val):
                return val
            f.__name__ = n
            ns[n] = parameter('param')(f)

        def init(obj, **kw):
            mine = {n: kw.pop(n) for n in names if n in kw}
            hmi.HaloModelIngredients.__init__(obj, **kw)
            for n, v in mine.items():
                setattr(obj, n, v)
        ns['__init__'] = init
        self.cls = type(hmi.HaloModelIngredients)('HaloModelIngredients', (hmi.HaloModelIngredients,), ns)
        self.cur = dict(self.c.kwargs)
        self.names = names
        self.gf = [shim.ufun(E, f'growth_{i}', sign='+') for i in range(2)]
        for n in names:
            self.cur[n] = self.gf[0]
        self.v1 = {}

    def v(self, p):
        if p not in self.v1:
            E = self.E
            if p in self.names:
                self.v1[p] = self.gf[1]
            elif p in HOPT:
                self.v1[p] = HOPT[p]
            elif p == 'z_vec':
                self.v1[p] = E.t('z_vec_1', (self.c.nzs,), '+', gen=lambda r, s: np.sort(r.uniform(0.01, 2.5, s)))
            elif p == 'k_vec':
                self.v1[p] = E.grid('k_vec_1', 'nk', '+', 0.01, 5.0)
            elif p == 'hmcode_ingredients':
                self.v1[p] = None
            else:
                b = self.c.S[p]
                x = E.scalar(p + '_1', '+', gen=lambda r: r.uniform(1.02, 1.1))
                self.v1[p] = x * b if not E.sym else E.scalar(p + '_2', T.SIGN.get(p))
        return self.v1[p]

    @contextlib.contextmanager
    def on(self):
        E = self.E
        q = shim.ufun(E, 'quadG', sign='+')

        def quad(f, lo, hi, *a, **k):
            return q(lo, hi, f(hi)), 0.0
        with swap(hcache, obj_eq=same), self.c.ctx(), swap(hmi, quad=quad):
            yield

    def fresh(self):
        return self.cls(**{k: (dict(v) if isinstance(v, dict) else v) for k, v in self.cur.items()})

    def change(self, **kw):
        for k, v in kw.items():
            self.cur[k] = {**self.cur[k], **v} if isinstance(v, dict) and v and isinstance(self.cur.get(k), dict) else v


HFN = ['onepower.hmi.HaloModelIngredients.* (every cached quantity and parameter)', 'onepower.hmi.CosmologyBase.*', 'onepower.utils.cache.cached_quantity']


def hmi_hist(start, to, params):
    def fn(E):
        w = HWorld(E, *start)
        with w.on():
            Q = quantities(hmi.HaloModelIngredients)
            obj = w.fresh()
            for q in Q:
                read(obj, q)
            if to is not None:
                t = dict(hmcode_ingredients=to[0], mdef_model=to[1])
                obj.update(**t)
                w.change(**t)
                f = w.fresh()
                for q in Q:
                    compare(E, f'after the change to {to}: {q}', snap(read(obj, q)), snap(read(f, q)))
            for p in params:
                if p in ('get_mead_growth_fnc',) and p not in w.names:
                    continue
                obj.update(**{p: w.v(p)})
                w.change(**{p: w.v(p)})
                f = w.fresh()
                for q in Q:
                    compare(E, f'after update({p}): {q}', snap(read(obj, q)), snap(read(f, q)))
    nm = f'ingredients[{start[0]},{start[1]}' + (f' -> {to[0]},{to[1]}' if to else '') + f'] {params[0]}..'
    return Case(nm, 'C11', fn, HFN, [hmi], nnum=1, wide=False, bounded='sym', note='two redshifts, all values symbolic')


HALL = ['z_vec', 'k_vec', 'get_mead_growth_fnc'] + HPAR + list(HOPT)


def cases_C11():
    out = []
    for cfg in CFG:
        for ch in CHUNKS:
            if cfg.startswith('bnl') and len(ch) > 6:
                out.append(single(cfg, ch[:len(ch) // 2]))
                ch = ch[len(ch) // 2:]
            out.append(single(cfg, ch))
        out.append(cloned(cfg))
        out.append(walk(cfg))
    names = list(CFG)
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if a != b and (a == 'plain' or b == 'plain' or (j - i) % len(names) in (1, 3)):
                ps = [p for ch in CHUNKS[:3] for p in ch] + ['growth_factor', 'sigma8_z', 'neff', 'rvir_cen']
                if b.startswith('bnl'):
                    ps = ['beta_nl', 'k_vec', 'omega_b', 'h0', 'hod_settings', 'align_params', 'u_dm', 'matter_power_lin', 'growth_factor']
                out.append(switched(a, b, ps))
    for a in HCFG:
        for k in range(0, len(HALL), 12):
            out.append(hmi_hist(a, None, HALL[k:k + 12]))
        for b in HCFG:
            if a != b:
                out.append(hmi_hist(a, b, ['overdensity', 'delta_c', 'norm_cen', 'log10T_AGN', 'sigma_8', 'omega_b', 'eta_sat', 'get_mead_growth_fnc', 'z_vec', 'hmf_model']))
    return out
