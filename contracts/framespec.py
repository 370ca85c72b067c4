"""C12: frames.  Nothing the caller supplied and nothing already returned changes when models are built, read, updated or copied."""
from __future__ import annotations
import copy
import os
import numpy as np
from onv import shim
from onv.core import Case
from onv.tensor import SymTensor, Unsupported
import hmf._internals._cache as hcache
from hmf._internals._framework import Framework
import onepower.pk as pk
import onepower.hod as hodm
import onepower.hmi as hmi
import onepower.ia as ia
import onepower.add as add
import onepower.bnl as bnl
import onepower.utils.poisson as pois
from .hmispec import swap
from . import updspec as us
from . import updspec2 as u2
from . import hodspec
from .updspec import World, HWorld, Model, CFG, HCFG, quantities, read, same, Raised


def pic(v):
    """a deep picture of a value, later writes do not reach it"""
    if isinstance(v, (SymTensor, np.ndarray)):
        return v.copy()
    if isinstance(v, dict):
        return {k: pic(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [pic(x) for x in v]
    if isinstance(v, pk.PowerSpectrumResult):
        return {k: pic(x) for k, x in vars(v).items()}
    return v


def unchanged(E, name, now, was):
    """obligation: `now` still shows the picture `was`"""
    if isinstance(now, pk.PowerSpectrumResult):
        now = vars(now)
    if isinstance(was, dict):
        ok = isinstance(now, dict) and list(now) == list(was)
        E.true(name, ok, note=f'{list(now) if isinstance(now, dict) else now!r} instead of {list(was)}')
        if ok:
            for k in was:
                unchanged(E, f'{name}.{k}', now[k], was[k])
        return
    if isinstance(was, list):
        ok = isinstance(now, (list, tuple)) and len(now) == len(was)
        E.true(name, ok) if not ok else None
        if ok:
            for i, (a, b) in enumerate(zip(now, was)):
                unchanged(E, f'{name}[{i}]', a, b)
        return
    if isinstance(was, SymTensor):
        if not isinstance(now, SymTensor):
            E.true(name, False, note='replaced')
        else:
            E.eq(name, now, was)
        return
    if isinstance(was, np.ndarray):
        ok = isinstance(now, np.ndarray) and now.shape == was.shape and now.dtype == was.dtype
        if ok:
            ok = bool(np.array_equal(now, was, equal_nan=True)) if was.dtype != object else bool(np.all(now == was))
        E.true(name, ok, note='array modified')
        return
    try:
        ok = now is was or (type(now) is type(was) and bool(now == was)) or (isinstance(now, float) and now != now and was != was)
    except Exception:  # noqa
        ok = now is was
    E.true(name, ok, note=f'{now!r} instead of {was!r}'[:200])


def attempt(f, *a, **k):
    """a helper called for its effects on its arguments only"""
    try:
        return f(*a, **k)
    except Exception:  # noqa
        return None


class Keeper:
    """values handed out (or in), with their pictures at that time"""

    def __init__(self, E):
        self.E, self.items = E, []

    def keep(self, name, v):
        if isinstance(v, (Raised, Framework, str, bool, type(None))) or callable(v):
            return v
        self.items.append((name, v, pic(v)))
        return v

    def check(self, when):
        for n, v, p in self.items:
            unchanged(self.E, f'{n} {when}', v, p)


# ------------------------------------------------------------------ Spectra
FN = ['onepower.pk.Spectra.* (every cached quantity and parameter)', 'onepower.utils.poisson.*']


def spectra(cfg, half):
    def fn(E):
        w = World(E)
        with w.on():
            cls = w.cls()
            m = Model(w, cfg)
            K = Keeper(E)
            for p, v in m.cur.items():
                K.keep(f'caller\'s {p}', v)
            obj = cls(**m.cur)
            Q = quantities(pk.Spectra, hmi.HaloModelIngredients)
            if half:
                Q = Q[::-1]
            for q in Q:
                K.keep(f'result {q}', read(obj, q))
            K.check('after all reads')
            # a second model from the same inputs, read in another order, gives the same results
            two = cls(**m.cur)
            rng = np.random.default_rng(len(cfg) + 10 * half)
            for q in (Q[i] for i in rng.permutation(len(Q))):
                us.compare(E, f'{q} in another order of reads', us.snap(read(two, q)), us.snap(read(obj, q)))
            # updates: dictionaries given to update() stay the caller's, results already handed out stay valid
            for p in ('hod_params', 'hod_settings', 'hod_settings_mm', 'obs_settings', 'align_params', 'poisson_params', 'matter_power_lin', 'matter_power_nl', 'k_vec', 'halo_bias', 'u_dm', 'beta_nl'):
                if m.cur.get(p) is None:
                    continue
                v = w.v('poisson_pl' if p == 'poisson_params' and 'slope' in m.cur[p] else p, 1)
                K.keep(f'caller\'s new {p}', v)
                obj.update(**{p: v})
                if p in ('hod_params', 'hod_settings', 'align_params'):
                    for q in us.SPECTRA:
                        read(obj, q)
            for q in Q:
                read(obj, q)
            K.check('after updates and further reads')
            c = two.clone()
            c.update(align_params={'beta_two': w.v('n_s', 1)}, hod_params={'a': w.v('n_s', 1)})
            for q in us.SPECTRA:
                read(c, q)
            K.check('after a copy was updated')
            E.frame()
    return Case(f'Spectra[{cfg}] {"reverse" if half else "forward"} reads', 'C12', fn, FN, [pk, pois], nnum=3, wide=False)


# ------------------------------------------------------------------ HaloModelIngredients
def ingredients(start):
    def fn(E):
        w = HWorld(E, *start)
        with w.on():
            K = Keeper(E)
            for p, v in w.cur.items():
                K.keep(f'caller\'s {p}', v)
            obj = w.cls(**w.cur)
            Q = quantities(hmi.HaloModelIngredients)
            for q in Q:
                K.keep(f'result {q}', read(obj, q))
            two = w.cls(**w.cur)
            for q in Q[::-1]:
                K.keep(f'result of a second model {q}', read(two, q))
            for p in ('z_vec', 'k_vec', 'overdensity', 'norm_cen', 'transfer_params', 'growth_params', 'delta_c'):
                v = w.v(p)
                K.keep(f'caller\'s new {p}', v)
                obj.update(**{p: v})
                for q in Q:
                    read(obj, q)
            K.check('after all reads')
            for q in Q:
                us.compare(E, f'{q} in another order of reads', us.snap(read(w.fresh(), q)), us.snap(read(two, q)))
            E.frame()
    return Case(f'ingredients[{start[0]},{start[1]}]', 'C12', fn, us.HFN, [hmi], nnum=2, wide=False, bounded='sym', note='two redshifts, all values symbolic')


# ------------------------------------------------------------------ occupation models
def hod_case(model, file, unit):
    def fn(E):
        c = hodspec.Hod(E, model, file=file, unit=unit, scalar=file and model != 'Cacciato')
        try:
            K = Keeper(E)
            K.keep('caller\'s settings', c.settings)
            K.keep('caller\'s parameters', c.P)
            for n in ('mass', 'zv', 'dn', 'hb'):
                K.keep(f'caller\'s {n}', getattr(c, n))
            dflt = {k: pic(v) for k, v in type(c.obj)._defaults.items()}
            Q = [q for q in quantities(type(c.obj)) if not q.startswith('__')]
            first = {}
            for q in Q:
                first[q] = K.keep(f'result {q}', read(c.obj, q))
            for q in Q[::-1]:
                read(c.obj, q)
            K.check('after all reads')
            for q in Q:
                if not isinstance(first[q], Raised):
                    us.compare(E, f'{q} read again', us.snap(read(c.obj, q)), us.snap(first[q]))
            unchanged(E, 'class defaults', type(c.obj)._defaults, dflt)
            E.frame()
        finally:
            c.close()
    return Case(f'occupation {model} file={file} {unit}', 'C12', fn, [f'onepower.hod.{model}.*', 'onepower.hod.HaloOccupationDistribution.*'], [hodm], nnum=2, wide=False)


# ------------------------------------------------------------------ alignment
def amplitudes(E, dep):
    from .iaspec import amps
    for who in ('cen', 'sat'):
        o = amps(E, who, dep, two=dep == 'luminosity' and who == 'cen')
        K = Keeper(E)
        Q = quantities(ia.AlignmentAmplitudes, Framework)
        for q in Q + ['z_vec']:
            if dep != 'luminosity' and 'lum' in q:
                continue
            K.keep(f'{who} {q}', read(o, q))
        for q in Q[::-1]:
            if dep != 'luminosity' and 'lum' in q:
                continue
            read(o, q)
        K.check('after all reads')
    E.frame()


def satellites(E):
    if E.sym:
        return E.skip('concrete values')
    rng = np.random.default_rng(E.seed)
    nz, nm = 2, int(rng.integers(4, 9))
    arr = lambda lo, hi: np.sort(10 ** rng.uniform(lo, hi, (nz, nm)), axis=1)
    with u2.scratch() as d:
        for f in ('c0', 's0'):
            u2.fits_file(os.path.join(d, f + '.fits'), rng)
        F = lambda f: os.path.join(d, f + '.fits')
        for trunc in (False, True):
            for method in ('hankel', 'fftlog'):
                for slope in (0, -2., -1.7):
                    cur = dict(mass_in=np.logspace(11, 15, nm), c_in=arr(.5, 1), r_s_in=arr(-2, -1), rvir_in=arr(-.5, .5)[0], n_hankel=60, nmass=4, nk=6, ell_max=4, truncate=trunc,
                               method=method, z_vec=np.array([.2, .6]), central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity', gamma_2h_amplitude=5.,
                               beta_cen=.4, beta_two=.2, gamma_1h_amplitude=.002, gamma_1h_slope=slope, beta_sat=.3, mpivot_cen=13., mpivot_sat=13.2, lpivot_cen=10., lpivot_sat=10.2,
                               z_loglum_file_centrals=F('c0'), z_loglum_file_satellites=F('s0'))
                    K = Keeper(E)
                    for p, v in cur.items():
                        K.keep(f'caller\'s {p}', v)
                    o = ia.SatelliteAlignment(**cur)
                    Q = [q for q in quantities(ia.SatelliteAlignment, Framework)]
                    k, m = np.logspace(-2, 1, 5), np.logspace(11, 15, 6)
                    K.keep('caller\'s output wavenumbers', k)
                    K.keep('caller\'s output masses', m)
                    for q in Q:
                        K.keep(f'result {q}', read(o, q))
                    K.keep('upsampled', o.upsampled_wkm(k, m))
                    o.upsampled_wkm(k * 2, m)
                    if hasattr(o, 'gamma_r_nfw_profile'):
                        r, rs, rv = np.logspace(-3, 1, 20), np.array([[.1]]), np.array([[1.]])
                        amp = np.array([.3])
                        for n_, x in (('radii', r), ('scale radii', rs), ('virial radii', rv), ('amplitude', amp)):
                            K.keep('caller\'s ' + n_, x)
                        K.keep('profile', attempt(o.gamma_r_nfw_profile, r, rs, rv, amp, slope, truncate=trunc))
                    for q in Q[::-1]:
                        read(o, q)
                    K.check('after all reads')


# ------------------------------------------------------------------ non-linear bias
def biases(E):
    if E.sym:
        return E.skip('concrete values')
    if not bnl.HAVE_DARKEMU:
        return E.skip('emulator not installed')
    cls, D, cur = u2.smooth_bnl(E)
    with swap(bnl, darkemu=D):
        for zd in (False, True):
            K = Keeper(E)
            cur = dict(cur, z_dep=zd)
            for p, v in cur.items():
                K.keep(f'caller\'s {p}', v)
            o = cls(**cur)
            Q = quantities(cls, Framework)
            for q in Q:
                K.keep(f'result {q}', read(o, q))
            if hasattr(o, 'test_cosmo'):
                for i in range(6):
                    x = np.array([.0225, .1198, .6844, 3.094, .9645, -1.])
                    x[i] *= 3.
                    K.keep('caller\'s cosmology vector', x)
                    attempt(o.test_cosmo, x)
                    y = np.array([.0225, .1198, .6844, 3.094, .9645, -1.]).reshape(1, 6)
                    y[0, i] *= .2
                    K.keep('caller\'s cosmology row', y)
                    attempt(o.test_cosmo, y)
            if hasattr(o, 'hl_envelopes_idx'):
                s = np.sin(np.arange(40.)) + np.arange(40.)
                K.keep('caller\'s data', s)
                attempt(o.hl_envelopes_idx, s)
            if hasattr(o, 'compute_bnl_darkquest'):
                k, a, b = np.concatenate((np.logspace(-3, 2, 300), np.linspace(101, 199, 20))), np.linspace(12, 14, 3), np.linspace(12, 14, 3)
                for n, x in (('k', k), ('a', a), ('b', b)):
                    K.keep(f'caller\'s {n}', x)
                K.keep('beta', attempt(o.compute_bnl_darkquest, .2, a, b, k, 20.))
            K.check('after all reads')


# ------------------------------------------------------------------ upsampling
def upsampled(E, two):
    from . import addspec as ad
    E.dim('nzo', 1, 4)
    z, k = ad.grids(E)
    m2 = ad.Model(E, '2')
    m1 = ad.Model(E, '1', other=m2)
    fz, f = ad.frac(E)
    p1, p2 = {'amp': 1.0, 'hod_params': {'x': 2.}}, {'hod_params': {'x': 3.}}
    K = Keeper(E)
    for n, v in (('z', z), ('k', k), ('fraction', f), ('fraction_z', fz), ('first parameters', p1), ('second parameters', p2)):
        K.keep('caller\'s ' + n, v)
    for t, m in (('first', m1), ('second', m2)):
        K.keep(f'{t} model z', m.z_vec)
        K.keep(f'{t} model k', m.k_vec)
        for mode in ad.MODES:
            K.keep(f'{t} model {mode}', getattr(m, 'power_spectrum_' + mode))
    o = add.UpsampledSpectra(z=z, k=k, fraction=f if two else None, fraction_z=fz if two else None, model=m1, model_1_params=p1, model_2_params=p2 if two else None)
    modes = list(ad.MODES)
    comps = ['tot', '1h', '2h']
    K.keep('requested spectra', modes)
    K.keep('requested components', comps)
    for mode in ad.MODES:
        o.results([mode], comps)
        K.keep(f'upsampled {mode}', getattr(o, 'power_spectrum_' + mode))
    for q in ('frac_1', 'frac_2'):
        K.keep(q, read(o, q))
    o.results(modes, comps)
    o.results(['mm'], ['tot'])
    K.check('after all requests')
    E.frame()


# ------------------------------------------------------------------ the assembled library
def assembled(part):
    def fn(E):
        if E.sym:
            return E.skip('concrete values')
        rng = np.random.default_rng([E.seed, part, 5])
        base = u2.real_base()[0]
        al = u2.real_alts()
        for n in rng.choice(sorted(al), size=4, replace=False):
            base[str(n)] = al[str(n)]
        K = Keeper(E)
        mods = {'occupation defaults': hodm.hod_settings_defaults, **{f'{c} defaults': getattr(hodm, c)._defaults for c in hodspec.MODELS + ('Cacciato',) if hasattr(hodm, c)}}
        for n, v in mods.items():
            K.keep(n, v)
        for p, v in base.items():
            K.keep(f'caller\'s {p}', v)
        obj = pk.Spectra(**base)
        Q = [q for q in quantities(pk.Spectra, Framework)]
        Q = [Q[i] for i in rng.permutation(len(Q))]
        for q in Q:
            v = read(obj, q)
            if isinstance(v, (np.ndarray, pk.PowerSpectrumResult, dict, tuple)) or isinstance(v, list) and all(isinstance(x, np.ndarray) for x in v):
                K.keep(f'result {q}', v)
        other = {str(n): al[str(n)] for n in rng.choice([n for n in sorted(al) if n != 'nonlinear_mode'], size=2, replace=False)}
        for p, v in other.items():
            K.keep(f'caller\'s new {p}', v)
        c = obj.clone()
        c.update(**other)
        obj.update(**other)
        for q in Q:
            read(c, q), read(obj, q)
        d0 = pk.Spectra(z_vec=base['z_vec'], k_vec=base['k_vec'], Mmin=10., Mmax=15., dlog10m=.25, transfer_model='EH', growth_model='GrowthFactor')
        for q in ('power_spectrum_gg', 'power_spectrum_mm'):
            read(d0, q)
        up = add.UpsampledSpectra(z=np.array([.2, .5]), k=np.logspace(-2, .5, 5), model=obj, model_2_params={'h0': .71})
        try:
            up.results(['mm', 'gg'], ['tot'])
        except Exception:  # noqa
            pass
        K.check('after everything')
    return Case(f'assembled library {part}', 'C12', fn, ['onepower.pk.Spectra.*', 'onepower.hmi.*', 'onepower.hod.*', 'onepower.ia.*', 'onepower.add.*'], [], nnum=1, wide=False, bounded=True,
                note='one configuration, order of reads and pair of updates per unit, real hmf/halomod')


def cases_C12():
    out = [spectra(c, h) for c in CFG for h in (0, 1)]
    out += [ingredients(a) for a in HCFG]
    for m in hodspec.MODELS + ('Cacciato',):
        for file in (False, True):
            out.append(hod_case(m, file, '1/h^2'))
    out.append(hod_case('Cacciato', False, '1/h'))
    for d in ('constant', 'luminosity', 'halo_mass'):
        out.append(Case(f'amplitudes {d}', 'C12', lambda E, d=d: amplitudes(E, d), ['onepower.ia.AlignmentAmplitudes.*'], [ia], nnum=2, wide=False))
    out.append(Case('satellite alignment', 'C12', satellites, ['onepower.ia.SatelliteAlignment.*'], [], nnum=2, wide=False, bounded=True, note='two redshifts, up to eight masses'))
    out.append(Case('non-linear bias', 'C12', biases, ['onepower.bnl.NonLinearBias.*'], [], nnum=2, wide=False, bounded=True, note='smooth emulator stand-in'))
    for two in (True, False):
        out.append(Case(f'upsampling two={two}', 'C12', lambda E, two=two: upsampled(E, two), ['onepower.add.UpsampledSpectra.*'], [add], nnum=2, wide=False))
    out += [assembled(i) for i in range(12)]
    return out
