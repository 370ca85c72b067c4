"""Constructor and update contracts: the value given for a parameter is the value the object works with, whatever the other
parameters are, at construction and after an update, and a parameter that is not given keeps its value."""
from __future__ import annotations
import numpy as np
from onv import shim, terms as T
from onv.core import Case
import onepower.pk as pk
import onepower.hmi as hmi
import onepower.ia as ia
import onepower.add as add
import onepower.hod as hodm
import onepower.utils.poisson as pois

NP = shim.NPX


# kinds of values: s scalar; b switch; a array; d dictionary; ('v', x, y) two admissible values
SPECTRA = {
    'one_halo_ktrunc': 's', 'two_halo_ktrunc': 's', 'one_halo_ktrunc_ia': 's', 'two_halo_ktrunc_ia': 's', 't_eff': 's', 'mb': 's',
    'dewiggle': 'b', 'response': 'b', 'pointmass': 'b', 'compute_observable': 'b',
    'matter_power_lin': 'a', 'matter_power_nl': 'a', 'beta_nl': 'a',
    'nonlinear_mode': ('v', 'bnl', 'fortuna'), 'hmcode_ingredients': ('v', 'mead2020', 'fit'),
    'poisson_params': 'd', 'hod_params': 'd', 'hod_settings': 'd', 'hod_settings_mm': 'd', 'obs_settings': 'd', 'align_params': 'd',
}
HMI = {
    'k_vec': 'a', 'lnk_min': 's', 'lnk_max': 's', 'dlnk': 's', 'Mmin': 's', 'Mmax': 's', 'dlog10m': 's', 'overdensity': 's', 'delta_c': 's',
    'mdef_model': ('v', 'SOMean', 'SOVirial'), 'hmf_model': ('v', 'Tinker08', 'ST'), 'bias_model': ('v', 'ST99', 'Tinker10'),
    'halo_profile_model_dm': ('v', 'NFW', 'Hernquist'), 'halo_profile_model_sat': ('v', 'Hernquist', 'NFW'),
    'halo_concentration_model_dm': ('v', 'Duffy08', 'Bullock01'), 'halo_concentration_model_sat': ('v', 'Bullock01', 'Duffy08'),
    'transfer_model': ('v', 'EH', 'CAMB'), 'growth_model': ('v', 'GrowthFactor', 'CambGrowth'), 'transfer_params': 'd', 'growth_params': 'd',
    'norm_cen': '1', 'norm_sat': '1', 'eta_cen': '1', 'eta_sat': '1', 'hmcode_ingredients': ('v', 'mead2020', 'fit'),
}
COSMO = {'z_vec': 'a', 'h0': 's', 'omega_c': 's', 'omega_b': 's', 'n_s': 's', 'sigma_8': 's', 'w0': 's', 'wa': 's', 'tcmb': 's', 'm_nu': 's', 'Neff': 's', 'log10T_AGN': 's'}
SATAL = {'mass_in': 'a', 'c_in': 'a', 'r_s_in': 'a', 'rvir_in': 'a', 'n_hankel': ('v', 100, 200), 'nmass': ('v', 3, 4), 'nk': ('v', 12, 15), 'ell_max': ('v', 4, 8), 'truncate': 'b',
         'method': ('v', 'hankel', 'fftlog'), 'z_vec': 'a', 'central_ia_depends_on': ('v', 'constant', 'luminosity'), 'satellite_ia_depends_on': ('v', 'luminosity', 'constant'),
         'gamma_2h_amplitude': 's', 'beta_cen': 's', 'beta_two': 's', 'gamma_1h_amplitude': 's', 'gamma_1h_slope': 's', 'beta_sat': 's',
         'z_loglum_file_centrals': ('v', 'a.fits', 'b.fits'), 'z_loglum_file_satellites': ('v', 'c.fits', 'd.fits')}
UPS = {'z': 'a', 'k': 'a', 'fraction_z': 'a', 'fraction': 'a', 'extrapolate_option': ('v', 0.0, 'extrapolate')}


def values(E, spec, tag):
    """for every parameter a value of its own (symbolic) and the test that it is the stored one"""
    out = {}
    for i, (n, kind) in enumerate(spec.items()):
        nm = f'{tag}_{n}'
        if kind in ('s', '1'):
            v = E.scalar(nm, gen=lambda r, i=i: 0.0 if r.uniform() < 0.2 else r.uniform(-1, 1) * (i + 1))
            out[n] = (v, (lambda x, nm=nm: E.s(nm)[None]) if kind == '1' else (lambda x, nm=nm: E.s(nm)), 'eq')
        elif kind == 'a':
            E.dim(f'n{i}', 2, 5)
            v = E.t(nm, (f'n{i}',), '+')
            out[n] = (v, lambda x, nm=nm: E.s(nm), 'eq')
        elif kind == 'b':
            v = tag == 'a'
            out[n] = (v, lambda x, v=v: x is v or (x == v and type(x) is type(v)), 'true')
        elif kind == 'd':
            v = {f'k{i}': float(i) + (0.5 if tag == 'b' else 0.0)}
            out[n] = (v, lambda x, v=dict(v): dict(x) == v, 'true')
        else:
            v = kind[1 if tag == 'a' else 2]
            out[n] = (v, lambda x, v=v: x == v, 'true')
    return out


def compare(E, o, vals, names, what):
    for n in names:
        v, t, how = vals[n]
        got = getattr(o, n)
        if how == 'eq':
            E.eq(f'{n} {what}', got, t(got))
        else:
            E.true(f'{n} {what}', bool(t(got)), note=f'{got!r} {v!r}')


def stores(prop, cls, spec, names=None, mods=(), label=''):
    """`names`: the parameters of this property; all of `spec` is passed to the constructor"""
    names = list(names or spec)
    cname = f'{cls.__module__}.{cls.__name__}'

    def fn(E):
        a = values(E, spec, 'a')
        o = cls(**{n: v[0] for n, v in a.items()})
        compare(E, o, a, names, 'given at construction')
        for n in names:                                     # each alone: nothing else may stand in for it
            p = cls(**{n: a[n][0]})
            compare(E, p, a, [n], 'given alone')
        E.frame()

    def upd(E):
        if E.sym:
            return E.skip('numeric')
        a, b = values(E, spec, 'a'), values(E, spec, 'b')
        same = lambda o, vals, ns: [n for n in ns if not stored(getattr(o, n), vals[n][0])]
        for n in names:
            q = cls(**{m: v[0] for m, v in a.items()})
            q.update(**{n: b[n][0]})
            E.true(f'{n} after its update', stored(getattr(q, n), b[n][0]), note=f'{getattr(q, n)!r} {b[n][0]!r}')
            E.true(f'nothing else changed by an update of {n}', not same(q, a, [m for m in spec if m != n]), note=f'{same(q, a, [m for m in spec if m != n])}')
        o = cls(**{n: v[0] for n, v in a.items()})
        o.update(**{n: v[0] for n, v in b.items()})
        E.true('after updating everything', not same(o, b, names), note=f'{same(o, b, names)}')
        o = cls(**{n: v[0] for n, v in a.items()}).clone(**{n: v[0] for n, v in b.items()})
        E.true('in an updated copy', not same(o, b, names), note=f'{same(o, b, names)}')
        E.frame()
    fns = [cname + '.__init__'] + [f'{cname}.{n}' for n in names]
    mods = list(mods) or [pk, hmi]
    return [Case(f'{cls.__name__} keeps its parameters{label}', prop, fn, fns, mods, nnum=2),
            Case(f'{cls.__name__} updates its parameters{label}', prop, upd, fns, mods, nnum=1, bounded=True, note='one pair of values per parameter')]


def stored(got, v):
    if isinstance(v, np.ndarray) or isinstance(got, np.ndarray):
        return np.array_equal(np.atleast_1d(got), np.atleast_1d(v))
    return got == v


# which parameters belong to which property
OWN = {
    'C02': ('beta_nl', 'nonlinear_mode', 'hmcode_ingredients', 'hod_settings_mm', 'mb'),
    'C03': ('hod_params', 'hod_settings', 'poisson_params', 'pointmass'),
    'C04': ('align_params', 't_eff'),
    'C05': ('response', 'matter_power_nl'),
    'C07': ('one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia'),
    'C10': ('obs_settings', 'compute_observable'),
    'C16': ('mb', 'hmcode_ingredients', 'pointmass'),
    'C17': ('poisson_params',),
    'C21': ('matter_power_lin', 'matter_power_nl', 't_eff', 'dewiggle'),
}


def cases_for(prop):
    out = []
    if prop in OWN:
        out += stores(prop, pk.Spectra, SPECTRA, OWN[prop])
    if prop == 'C20':
        out += stores(prop, hmi.HaloModelIngredients, {**HMI, **cosmo_params()})
        out += stores(prop, pk.Spectra, {**HMI, **cosmo_params()})
    if prop == 'C15':
        out += stores(prop, ia.SatelliteAlignment, SATAL, mods=[ia])
    if prop == 'C13':
        out += stores(prop, add.UpsampledSpectra, UPS, mods=[add])
    return out


def cosmo_params():
    import inspect
    have = inspect.signature(hmi.CosmologyBase.__init__).parameters
    return {n: k for n, k in COSMO.items() if n in have}


for _p in list(OWN) + ['C20', 'C15', 'C13']:
    globals()['cases_' + _p] = (lambda p: lambda: cases_for(p))(_p)
