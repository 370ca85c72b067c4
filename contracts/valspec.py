"""Contracts on input validation (C18): every invalid option value / shape is rejected, every documented one accepted.

Options range over a finite set of documented values; everything else is represented by one value that differs from all
of them (the code can only compare it), so the case split over documented values + `OTHER` covers all option values.
"""
from __future__ import annotations
import itertools
import warnings
import numpy as np
from onv import shim, terms as T
from onv.core import Case
from onv.tensor import SymTensor, Unsupported, lift
import onepower.pk as pk
import onepower.hmi as hmi
import onepower.hod as hodm
import onepower.ia as ia
import onepower.add as add
import onepower.bnl as bnl
import onepower.utils.poisson as pois
from .pkctx import leafclass, Ctx, logk
from .hmispec import swap

S = 'onepower.pk.Spectra.'
OTHER = 'zq-unknown-option'
MODES = ['bnl', 'hmcode', 'fortuna', None]
INGR = ['mead2020_feedback', 'mead2020', 'fit', None]
BADMODE = [OTHER, 'BNL', 'hmcode ', 'Fortuna', 'none', '', 'linear', 0, False, 1]
BADINGR = [OTHER, 'mead2020_Feedback', 'mead', 'mead2020 ', 'Fit', '', 'none', 0, False, 1, 'hmcode']


def good(m, i):
    return not (m == 'hmcode' and i in (None, 'fit'))


def attempt(f):
    """-> (exception or None)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            f()
        except Unsupported:
            raise
        except Exception as e:  # noqa
            return e
    return None


def verdict(E, name, f, ok, exc=ValueError):
    e = attempt(f)
    if ok:
        E.true(f'accepted: {name}', e is None, note=f'{type(e).__name__}: {e}')
    else:
        E.true(f'rejected: {name}', isinstance(e, exc), note='no exception' if e is None else f'{type(e).__name__}: {e}')


def case(name, fn, funcs, mods=(pk, hmi), **kw):
    kw.setdefault('nnum', 1)
    kw.setdefault('wide', False)
    return Case(name, 'C18', fn, funcs, list(mods), **kw)


def cases_C18():
    out = []

    def construct(E):
        for m, i in itertools.product(MODES + BADMODE, INGR + BADINGR):
            ok = (m in MODES and not isinstance(m, bool) and m != 0 or m is None) and i in INGR and good(m, i)
            verdict(E, f'nonlinear_mode={m!r} hmcode_ingredients={i!r} at construction', lambda: pk.Spectra(nonlinear_mode=m, hmcode_ingredients=i), ok)
        for i in INGR:
            verdict(E, f'ingredients alone {i!r}', lambda: hmi.HaloModelIngredients(hmcode_ingredients=i), True)
        for i in BADINGR:
            verdict(E, f'ingredients alone {i!r}', lambda: hmi.HaloModelIngredients(hmcode_ingredients=i), False)
    out.append(case('modes at construction', construct, [S + 'validate', S + 'nonlinear_mode', 'onepower.hmi.HaloModelIngredients.hmcode_ingredients']))

    def update(E):
        states = [(m, i) for m in MODES for i in INGR if good(m, i)]
        for m0, i0 in states:
            base = pk.Spectra(nonlinear_mode=m0, hmcode_ingredients=i0)
            for m, i in itertools.product(MODES + [OTHER, 'BNL', ''], INGR + [OTHER, 'Fit', '']):
                ok = m in MODES and i in INGR and good(m, i)
                o = base.clone()
                verdict(E, f'update {m0!r}/{i0!r} -> {m!r}/{i!r}', lambda: o.update(nonlinear_mode=m, hmcode_ingredients=i), ok)
                o = base.clone()
                verdict(E, f'update (reversed) {m0!r}/{i0!r} -> {m!r}/{i!r}', lambda: o.update(hmcode_ingredients=i, nonlinear_mode=m), ok)
            for m in MODES + BADMODE:
                o = base.clone()
                ok = (m in MODES if isinstance(m, str) else m is None) and good(m, i0)
                verdict(E, f'mode only {m0!r}/{i0!r} -> {m!r}', lambda: o.update(nonlinear_mode=m), ok)
                o = base.clone()
                verdict(E, f'attribute set {m0!r}/{i0!r} -> {m!r}', lambda: setattr(o, 'nonlinear_mode', m), ok)
                o = base.clone()
                verdict(E, f'clone with {m0!r}/{i0!r} -> {m!r}', lambda: o.clone(nonlinear_mode=m), ok)
            for i in INGR + BADINGR:
                o = base.clone()
                ok = (i in INGR if isinstance(i, str) else i is None) and good(m0, i)
                verdict(E, f'ingredients only {m0!r}/{i0!r} -> {i!r}', lambda: o.update(hmcode_ingredients=i), ok)
    out.append(case('modes on update', update, [S + 'validate', S + 'nonlinear_mode', 'onepower.hmi.HaloModelIngredients.hmcode_ingredients']))

    # ---- shapes of supplied power
    def shapes(E, which, nd, mode, dew):
        E.dim('nz', 1, 3)
        E.dim('nk', 3 if dew or mode == 'hmcode' else 1, 4)
        dims = [f's{j}' for j in range(nd)]
        for d in dims:
            E.dim(d, 1, 4)
        if not E.sym and nd == 2:
            # concrete runs: cover the agreeing shape and the near misses
            k = E.seed % 4
            if k in (0, 1):
                E.scalars['s0'] = E.scalars['nz']
            if k in (0, 2):
                E.scalars['s1'] = E.scalars['nk']
        p = E.t('pin', dims, '+')
        V = {'z_vec': E.grid('z_vec', 'nz', '+', 0.05, 2.0), 'k_vec': logk(E)}
        o = leafclass(pk.Spectra, V, 'Spectra')(nonlinear_mode=mode, hmcode_ingredients='mead2020' if mode == 'hmcode' else None, dewiggle=dew,
                                                 response=which == 'response', **{'matter_power_nl' if which != 'lin' else 'matter_power_lin': p})
        q = '_pk_lin' if which == 'lin' else '_pk_nl'
        if not hasattr(pk.Spectra, q):
            if E.sym:
                raise Unsupported('renamed')
            return E.skip('renamed')
        e = attempt(lambda: getattr(o, q))
        if nd != 2:
            return E.true(f'rejected: {nd}-dimensional power', e is not None, note=f'{e!r}')
        a = T.and_(T.eq(E.dn('s0'), E.dn('nz')), T.eq(E.dn('s1'), E.dn('nk')))
        if e is not None and E.sym and not isinstance(e, ValueError):
            raise e
        E.true('rejected: only a shape that differs from (redshifts, wavenumbers)' if e is not None else 'accepted: only the shape (redshifts, wavenumbers)',
               SymTensor.make((), lambda idx: T.not_(a) if e is not None else a, 'b'), note=f'{e!r}')
        if e is None and not dew and mode != 'hmcode':
            E.eq('accepted power is used verbatim', getattr(o, q), E.s('pin'), hyps=[a])
    for which, mode in (('lin', None), ('lin', 'bnl'), ('lin', 'fortuna'), ('fortuna', 'fortuna'), ('response', None), ('response', 'bnl')):
        for nd in (1, 2, 3):
            out.append(case(f'shape {which} mode={mode} ndim={nd}', lambda E, w=which, nd=nd, m=mode: shapes(E, w, nd, m, False), [S + '_pk_lin' if which == 'lin' else S + '_pk_nl'], nnum=8))

    def dew_shapes(E):
        if E.sym:
            return E.skip('numeric')
        rng = np.random.default_rng(E.seed)
        nz, nk = int(rng.integers(1, 4)), int(rng.integers(4, 9))
        k = np.logspace(-2, 0.5, nk)
        for mode, ing, dew in ((None, None, True), ('hmcode', 'mead2020', False), ('fortuna', None, True)):
            for shp in {(nz, nk), (nz + 1, nk), (nz, nk + 1), (nz, nk - 1), (1, nk), (nz, 1), (1, 1), (nk, nz), (nk,), (nz,), (nz, nk, 1), (1, nz, nk), (nz * nk,), ()}:
                o = pk.Spectra(nonlinear_mode=mode, hmcode_ingredients=ing, dewiggle=dew, k_vec=k, z_vec=np.linspace(0.1, 1.0, nz), matter_power_lin=np.abs(rng.normal(2, .3, shp)))
                if mode == 'fortuna':
                    o.update(matter_power_nl=np.ones((nz, nk)))
                verdict(E, f'dewiggled linear power of shape {shp} for {(nz, nk)} mode={mode}', lambda: o.power_spectrum_lin, shp == (nz, nk), Exception)
    out.append(case('shape of dewiggled power', dew_shapes, [S + '_pk_lin', S + 'dewiggle_plin'], nnum=6, bounded=True, note='shapes around the valid one, up to 3 x 8'))

    def plain_shapes(E):
        if E.sym:
            return E.skip('numeric')
        rng = np.random.default_rng(E.seed)
        nz, nk = int(rng.integers(1, 4)), int(rng.integers(4, 9))
        k = np.logspace(-2, 0.5, nk)
        good_p = np.abs(rng.normal(2, .3, (nz, nk)))
        for shp in {(nz, nk), (nz + 1, nk), (nz, nk + 1), (nz, nk - 1), (1, nk), (nz, 1), (1, 1), (nk, nz), (nk,), (nz,), (nz, nk, 1), (1, nz, nk), (nz * nk,), ()}:
            p = np.abs(rng.normal(2, .3, shp))
            ok = shp == (nz, nk)
            for mode in (None, 'fortuna', 'bnl'):
                o = pk.Spectra(nonlinear_mode=mode, k_vec=k, z_vec=np.linspace(0.1, 1.0, nz), matter_power_lin=p, matter_power_nl=good_p)
                verdict(E, f'linear power of shape {shp} for {(nz, nk)} mode={mode}', lambda: o.power_spectrum_lin, ok, Exception)
            o = pk.Spectra(nonlinear_mode='fortuna', k_vec=k, z_vec=np.linspace(0.1, 1.0, nz), matter_power_lin=good_p, matter_power_nl=p)
            verdict(E, f'non-linear power of shape {shp} for {(nz, nk)} in the fortuna mode', lambda: o.peff, ok, Exception)
    out.append(case('shape of supplied power', plain_shapes, [S + '_pk_lin', S + '_pk_nl', S + 'peff', S + 'power_spectrum_lin'], nnum=4, bounded=True, note='shapes around the valid one, up to 3 x 8'))

    # ---- wavenumber grid for dewiggling
    def grid(E):
        E.dim('nz', 1, 3)
        E.dim('nk', 3, 7)
        even = True
        if E.sym:
            k = E.grid('k_vec', 'nk', '+', 0.01, 5.0)
        else:
            rng = np.random.default_rng(E.seed)
            n = E.scalars['nk']
            base = np.logspace(-2, rng.uniform(-1, 1), n)
            kind = E.seed % 4
            if kind == 1:
                base[rng.integers(0, n)] *= rng.choice([0.93, 1.07])
            elif kind == 2:
                base = np.linspace(base[0], base[-1], n)
            elif kind == 3:
                base[-1] *= 1.4
            even = kind == 0
            k = base
        p = E.t('plin', ('nz', 'nk'), '+')
        V = {'z_vec': E.grid('z_vec', 'nz', '+', 0.05, 2.0), 'k_vec': k}
        o = leafclass(pk.Spectra, V, 'Spectra', {'_lnt': lambda self, x: x})(dewiggle=True, matter_power_lin=p)
        if E.sym:
            raise Unsupported('quantified path condition over the grid')
        e = attempt(lambda: o.power_spectrum_lin)
        if even:
            E.true('accepted: log-spaced grid', e is None, note=f'{e!r}')
        else:
            E.true('uneven k grid rejected', isinstance(e, ValueError), note=f'{e!r}')
    out.append(case('dewiggle grid', grid, [S + 'get_Pk_wiggle'], nnum=16, bounded=True, note='even and uneven grids of 3 to 7 points'))

    # ---- halo occupation
    def units(E):
        def mk(cls, st):
            z = np.array([0.1, 0.3])
            m = np.logspace(11, 14, 5)
            from astropy.cosmology import Planck15
            return cls(cosmo=Planck15, mass=m, dndlnm=np.ones((2, 5)), halo_bias=np.ones((2, 5)), z_vec=z, hod_settings=st)
        base = {'observables_file': None, 'obs_min': np.array([8.]), 'obs_max': np.array([9.]), 'zmin': np.array([0.]), 'zmax': np.array([.2]), 'nz': 3, 'nobs': 10}
        for cls in (hodm.Cacciato, hodm.Zheng, hodm.Zhai, hodm.Zehavi, hodm.Simple):
            for u in ('1/h', '1/h^2'):
                verdict(E, f'{cls.__name__} unit {u}', lambda: mk(cls, dict(base, observable_h_unit=u)), True)
            for u in (OTHER, '1/h^3', '', 'h', None, '1/h ', 1, '1/H'):
                verdict(E, f'{cls.__name__} unit {u!r}', lambda: mk(cls, dict(base, observable_h_unit=u)), False)
            verdict(E, f'{cls.__name__} default settings', lambda: mk(cls, None), True)
    out.append(case('hod units', units, ['onepower.hod.HaloOccupationDistribution.__init__'], mods=()))

    def models(E):
        hods = ('Cacciato', 'Zheng', 'Zhai', 'Zehavi', 'Simple')
        for n in hods:
            verdict(E, f'hod_model {n}', lambda: pk.Spectra(hod_model=n), True)
            verdict(E, f'hod_model class {n}', lambda: pk.Spectra(hod_model=getattr(hodm, n)), True)
            verdict(E, f'hod_model update {n}', lambda: pk.Spectra().update(hod_model=n), True)
        verdict(E, 'hod_model None', lambda: pk.Spectra(hod_model=None), True)
        for n in ('constant', 'power_law'):
            verdict(E, f'poisson_model {n}', lambda: pk.Spectra(poisson_model=n), True)
            verdict(E, f'poisson_model class {n}', lambda: pk.Spectra(poisson_model=getattr(pois, n)), True)
        for n in (OTHER, 'cacciato', 'Cacciato ', ''):
            verdict(E, f'hod_model {n!r}', lambda: pk.Spectra(hod_model=n), False, Exception)
            verdict(E, f'hod_model update {n!r}', lambda: pk.Spectra().update(hod_model=n), False, Exception)
        for n in (OTHER, 'Constant', 'powerlaw', ''):
            verdict(E, f'poisson_model {n!r}', lambda: pk.Spectra(poisson_model=n), False, Exception)
            verdict(E, f'poisson_model update {n!r}', lambda: pk.Spectra().update(poisson_model=n), False, Exception)
        for d in ('hod_params', 'hod_settings', 'poisson_params', 'align_params', 'transfer_params', 'growth_params', 'obs_settings', 'hod_settings_mm'):
            if d.endswith('_params'):
                verdict(E, f'{d} not a dictionary', lambda: pk.Spectra(**{d: [1]}), False, Exception)
        for kw in (OTHER.replace('-', '_'), 'zvec', 'Omega_c', 'nonlinear', 'hmcode', 'sigma8'):
            verdict(E, f'unknown argument {kw}', lambda: pk.Spectra(**{kw: 1}), False, Exception)
            verdict(E, f'unknown argument {kw} on update', lambda: pk.Spectra().update(**{kw: 1}), False, Exception)
            verdict(E, f'unknown argument {kw} on update of ingredients', lambda: hmi.HaloModelIngredients().update(**{kw: 1}), False, Exception)
            verdict(E, f'unknown argument {kw} on update of alignment', lambda: ia.SatelliteAlignment().update(**{kw: 1}), False, Exception)
            verdict(E, f'unknown argument {kw} on update of the upsampled model', lambda: add.UpsampledSpectra().update(**{kw: 1}), False, Exception)
    out.append(case('models and keywords', models, [S + 'hod_model', S + 'poisson_model'], mods=()))

    # ---- alignment options
    def align(E):
        dep = ('constant', 'luminosity', 'halo_mass')
        bad = (OTHER, 'Constant', 'mass', '', None, 'halo mass', 'lum')
        for cls in (ia.AlignmentAmplitudes, ia.SatelliteAlignment):
            n = cls.__name__
            for a, b in itertools.product(dep + bad, dep + bad):
                verdict(E, f'{n} centrals {a!r} satellites {b!r}', lambda: cls(central_ia_depends_on=a, satellite_ia_depends_on=b), a in dep and b in dep)
            for a in dep + bad:
                for arg in ('central_ia_depends_on', 'satellite_ia_depends_on'):
                    verdict(E, f'{n} update {arg} {a!r}', lambda: cls().update(**{arg: a}), a in dep)
        for m in ('hankel', 'fftlog'):
            verdict(E, f'method {m}', lambda: ia.SatelliteAlignment(method=m), True)
        for m in (OTHER, 'FFTLog', '', None, 'fft'):
            verdict(E, f'method {m!r}', lambda: ia.SatelliteAlignment(method=m), False)
            verdict(E, f'method update {m!r}', lambda: ia.SatelliteAlignment().update(method=m), False)
    out.append(case('alignment options', align, ['onepower.ia.' + f for f in ('AlignmentAmplitudes.central_ia_depends_on', 'AlignmentAmplitudes.satellite_ia_depends_on', 'SatelliteAlignment.method')], mods=(ia,)))

    def ell(E):
        v = E.scalar('ell', gen=lambda r: float(r.integers(0, 25)))
        e = attempt(lambda: ia.SatelliteAlignment(ell_max=v))
        c = T.lt(T.num(11), T.scalar('ell'))
        if e is not None and not isinstance(e, ValueError):
            raise e
        E.true('ell_max rejected only above 11' if e is not None else 'ell_max accepted only up to 11',
               SymTensor.make((), lambda idx: c if e is not None else T.not_(c), 'b'), note=f'{e!r}')
    out.append(case('ell_max', ell, ['onepower.ia.SatelliteAlignment.ell_max'], mods=(ia,), nnum=12))

    def inconsistent(E):
        A = ia.AlignmentAmplitudes
        lum = np.array([1.0])
        for who, arg, cls_read in (('central', 'cen', 'alignment_gi'), ('satellite', 'sat', 'gamma_1h_amp')):
            verdict(E, f'{who} luminosity without pivot', lambda: getattr(A(z_vec=np.array([.1]), **{f'{who}_ia_depends_on': 'luminosity', f'lpivot_{arg}': None}), cls_read), False, Exception)
            verdict(E, f'{who} luminosity without file', lambda: getattr(A(z_vec=np.array([.1]), **{f'{who}_ia_depends_on': 'luminosity', f'lpivot_{arg}': 10.}), cls_read), False, Exception)
            verdict(E, f'{who} halo mass without pivot', lambda: getattr(A(z_vec=np.array([.1]), **{f'{who}_ia_depends_on': 'halo_mass', f'mpivot_{arg}': None}), cls_read), False, Exception)
        verdict(E, 'central halo mass with a double power law', lambda: A(z_vec=np.array([.1]), central_ia_depends_on='halo_mass', beta_two=0.3).alignment_gi, False, Exception)
        for a in ('constant', 'halo_mass'):
            verdict(E, f'{a} amplitudes', lambda: (A(z_vec=np.array([.1]), central_ia_depends_on=a, satellite_ia_depends_on=a).alignment_gi,
                                                  A(z_vec=np.array([.1]), central_ia_depends_on=a, satellite_ia_depends_on=a).gamma_1h_amp), True)
    out.append(case('inconsistent alignment options', inconsistent, ['onepower.ia.AlignmentAmplitudes.alignment_gi', 'onepower.ia.AlignmentAmplitudes.gamma_1h_amp'], mods=(ia,)))

    # ---- ingredient model names
    def names(E):
        kw = dict(z_vec=np.array([0.1, 0.5]), k_vec=np.logspace(-2, 1, 4), Mmin=11., Mmax=14., dlog10m=.5, dlnk=.2, transfer_model='EH', growth_model='GrowthFactor')
        reads = {'hmf_model': 'dndlnm', 'bias_model': 'halo_bias', 'halo_profile_model_dm': 'u_dm', 'halo_profile_model_sat': 'u_sat', 'mdef_model': 'dndlnm',
                 'halo_concentration_model_dm': 'conc_cen', 'halo_concentration_model_sat': 'conc_sat', 'transfer_model': 'power', 'growth_model': 'growth_factor'}
        for n, q in reads.items():
            for v in (OTHER, 'tinker10x'):
                verdict(E, f'{n}={v!r}', lambda: getattr(hmi.HaloModelIngredients(**dict(kw, **{n: v})), q), False, Exception)
        verdict(E, 'documented ingredient models', lambda: [getattr(hmi.HaloModelIngredients(**kw), q) for q in set(reads.values())], True)
        for n, v in (('hmf_model', 'SMT'), ('bias_model', 'Tinker05'), ('halo_profile_model_dm', 'Moore'), ('mdef_model', 'SOCritical'), ('mdef_model', 'SOVirial'), ('halo_concentration_model_dm', 'Bullock01')):
            verdict(E, f'{n}={v}', lambda: getattr(hmi.HaloModelIngredients(**dict(kw, **{n: v})), reads[n]), True)
        verdict(E, 'poisson power law without pivot', lambda: pk.Spectra(**kw, poisson_model='power_law', poisson_params={'poisson': 1.0}).poisson_func, False, Exception)
    out.append(case('ingredient model names', names, ['onepower.hmi.HaloModelIngredients._hmf_generator'], mods=(), bounded=True, note='real halomod library, two unknown names per option'))

    if bnl.HAVE_DARKEMU:
        def emu(E):
            verdict(E, 'neither A_s nor sigma_8', lambda: bnl.NonLinearBias(mass=np.array([1e13, 1e14]), z_vec=np.array([0.]), k_vec=np.array([.1, 1.]), sigma_8=None, A_s=None).emulator, False, Exception)
        out.append(case('emulator normalisation', emu, ['onepower.bnl.NonLinearBias.emulator'], mods=(), bounded=True, note='one configuration'))
    return out
