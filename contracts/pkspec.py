"""Contracts on the power spectra (onepower.pk.Spectra)."""
from __future__ import annotations
from onv.core import Case
from .pkctx import Ctx, KTR, MODS, NP, pk

SP = 'onepower.pk.Spectra.'
FN_CORE = [SP + f for f in ('compute_1h_term', 'compute_A_term', 'missing_mass_integral', 'A_term', 'Im_term', 'compute_Im_term',
                            'matter_profile', 'matter_profile_2h', 'compute_matter_profile', 'one_halo_truncation', 'two_halo_truncation',
                            '_pk_lin', '_pk_nl')]
FN_BNL = [SP + f for f in ('I_NL', 'I12', 'I21', 'I22', 'prepare_I12_integrand', 'prepare_I21_integrand', 'prepare_I22_integrand',
                           '_trapezoidal_weights', 'trapezoidal_integrator', '_beta_nl_array')]
FN_FB = [SP + f for f in ('matter_profile_with_feedback', 'compute_matter_profile_with_feedback', 'fg', 'fs', 'fg_fit', 'fstar_mm', 'hod_mm', 'fstar',
                          'matter_profile_with_feedback_stellar_fraction_from_obs',
                          'compute_matter_profile_with_feedback_stellar_fraction_from_obs')]
FN_GAL = [SP + f for f in ('central_galaxy_profile', 'satellite_galaxy_profile', 'compute_Ig_term', 'Ic_term', 'Is_term', 'poisson_func', 'hod')]
FN_IA = [SP + f for f in ('central_alignment_profile', 'satellite_alignment_profile', 'compute_central_galaxy_alignment_profile',
                          'compute_satellite_galaxy_alignment_profile', 'Ic_align_term', 'Is_align_term', 'C1', 'wkm_sat', 'mass_avg',
                          'alignment_amplitude_2h', 'alignment_amplitude_2h_II', 'one_halo_truncation_ia', 'two_halo_truncation_ia',
                          'beta_cen', 'beta_sat', 'mpivot_cen', 'mpivot_sat', 'alignment_gi')]
FN_MEAD = [SP + f for f in ('one_halo_truncation_mead2020', 'two_halo_truncation_mead2020', 'transition_smoothing', 'dewiggle_plin', 'sigmaV', 'get_Pk_wiggle')]


def spectrum(E, c, name, parts=('1h', '2h', 'tot'), tag=''):
    r = getattr(c.obj, 'power_spectrum_' + name)
    p1, p2, pt = getattr(c, 'spec_' + name)()
    # results are broadcast to (nb|1, nz, nk)
    full = full_like(c, name)
    if '1h' in parts:
        E.eq(f'{tag}{name}.pk_1h', r.pk_1h, p1 * full)
    if '2h' in parts:
        E.eq(f'{tag}{name}.pk_2h', r.pk_2h, p2 * full)
    if 'tot' in parts:
        E.eq(f'{tag}{name}.pk_tot', r.pk_tot, pt * full)
    return r


def full_like(c, name):
    one = c.s('plin')[None] * 0 + 1
    if name == 'mm':
        return one
    return (c.s('h_f_c')[:, :, None] * 0 + 1) * one


def label(**k):
    return ','.join(f'{a}={b}' for a, b in k.items() if b not in (None, False)) or 'default'


def case(prop, name, fn, functions, **k):
    return Case(name, prop, fn, functions, MODS, **k)


def _spec_case(prop, spname, fns, bias=False, tag=None, **cfg):
    def fn(E):
        c = Ctx(E, **cfg)
        r = spectrum(E, c, spname)
        if bias:
            b2 = getattr(c, f'spec_{spname}_bias2')()
            E.eq(f'{spname}.galaxy_linear_bias', r.galaxy_linear_bias, NP.sqrt(b2))
        E.frame()
    return case(prop, f'{spname}[{label(**cfg)}]' + (tag or ''), fn, fns)


def configs(**over):
    """every valid combination of non-linear mode, feedback ingredients, point mass, occupation family and dewiggling"""
    for mode in (None, 'bnl', 'fortuna', 'hmcode'):
        for hm, cac in ((None, False), ('mead2020', False), ('mead2020_feedback', False), ('fit', True), ('fit', False)):
            if mode == 'hmcode' and hm not in ('mead2020', 'mead2020_feedback'):
                continue
            for pm in (False, True):
                for dw in (False, True):
                    yield dict(mode=mode, hmcode=hm, cacciato=cac, pointmass=pm, dewiggle=dw, **over)


def ktr_subsets():
    """all four truncation scales set except one, and only one set"""
    for n in KTR:
        yield tuple(x for x in KTR if x != n)
    for n in KTR:
        yield (n,)
    yield ()


def fill(out, prop, make):
    """append the units of the configurations in `make` that `out` does not have yet"""
    have = {c.name for c in out}
    for c in make:
        if c.name not in have:
            have.add(c.name)
            out.append(c)
    return out


def fns_for(cfg, *more):
    f = list(FN_CORE)
    if cfg.get('mode') == 'bnl':
        f += FN_BNL
    if cfg.get('mode') == 'hmcode' or cfg.get('dewiggle'):
        f += FN_MEAD
    if cfg.get('hmcode') in ('fit', 'mead2020_feedback') or cfg.get('pointmass'):
        f += FN_FB
    for m in more:
        f += m
    return f


def sweep(prop, spectra, groups=(), bias=()):
    for cfg in configs():
        for sp in spectra:
            yield _spec_case(prop, sp, fns_for(cfg, *groups), bias=sp in bias, **cfg)
    for mode in (None, 'bnl', 'fortuna', 'hmcode'):
        hm = 'mead2020' if mode == 'hmcode' else None
        for kt in ktr_subsets():
            for sp in spectra:
                yield _spec_case(prop, sp, fns_for(dict(mode=mode), *groups), bias=sp in bias, mode=mode, hmcode=hm, ktr=kt)


def cases_C02():
    out = []
    for mode, hm, cac in [(None, None, False), (None, 'mead2020', False), (None, 'mead2020_feedback', False), (None, 'fit', True), (None, 'fit', False),
                          ('fortuna', None, False), ('bnl', None, False), ('bnl', 'fit', True), ('hmcode', 'mead2020', False),
                          ('hmcode', 'mead2020_feedback', False)]:
        fns = FN_CORE + ([SP + '_power_spectrum_mm', SP + 'power_spectrum_mm'])
        if mode == 'bnl':
            fns = fns + FN_BNL
        if mode == 'hmcode':
            fns = fns + FN_MEAD
        if hm in ('fit', 'mead2020_feedback'):
            fns = fns + FN_FB
        out.append(_spec_case('C02', 'mm', fns, mode=mode, hmcode=hm, cacciato=cac))
    out.append(_spec_case('C02', 'mm', FN_CORE, ktr=False, tag='[no truncation]'))
    return fill(out, 'C02', sweep('C02', ['mm']))


def cases_C03():
    out = []
    for mode in (None, 'bnl', 'fortuna'):
        for sp in ('gg', 'gm'):
            out.append(_spec_case('C03', sp, FN_CORE + FN_GAL + [SP + 'power_spectrum_' + sp] + (FN_BNL if mode == 'bnl' else []), bias=True, mode=mode))
    for hm, pm, mode in [('mead2020', False, None), ('mead2020', False, 'hmcode'), ('mead2020_feedback', False, None), ('fit', False, None), (None, True, None), ('mead2020', True, None), ('fit', False, 'bnl')]:
        out.append(_spec_case('C03', 'gm', FN_CORE + FN_GAL + FN_FB, bias=True, hmcode=hm, pointmass=pm, mode=mode))
    out.append(_spec_case('C03', 'gg', FN_CORE + FN_GAL, poisson='power_law'))
    out.append(_spec_case('C03', 'gg', FN_CORE + FN_GAL, poisson=None, ktr=False))
    for mode in (None, 'bnl', 'fortuna', 'hmcode'):
        hm = 'mead2020' if mode == 'hmcode' else None
        fill(out, 'C03', [_spec_case('C03', sp, fns_for(dict(mode=mode), FN_GAL), mode=mode, hmcode=hm, poisson=po)
                          for sp in ('gg', 'gm') for po in (None, 'power_law')])
    return fill(out, 'C03', sweep('C03', ['gg', 'gm'], [FN_GAL], bias=('gg', 'gm')))


def cases_C04():
    out = []
    for mode in (None, 'bnl', 'fortuna'):
        for sp in ('mi', 'ii', 'gi'):
            out.append(_spec_case('C04', sp, FN_CORE + FN_GAL + FN_IA + [SP + 'power_spectrum_' + sp] + (FN_BNL if mode == 'bnl' else []), mode=mode))
    for sp in ('mi', 'ii', 'gi'):
        for b in (('c',), ('s',), ('C', 'S')):
            out.append(_spec_case('C04', sp, FN_CORE + FN_GAL + FN_IA, betas=b))
    for hm, pm, mode in [('mead2020', False, None), ('mead2020_feedback', False, None), ('fit', False, None), (None, True, None), ('mead2020', False, 'hmcode')]:
        out.append(_spec_case('C04', 'mi', FN_CORE + FN_GAL + FN_IA + FN_FB, hmcode=hm, pointmass=pm, mode=mode))
    out.append(_spec_case('C04', 'ii', FN_IA, ktr=False))
    for mode in (None, 'bnl', 'fortuna', 'hmcode'):
        hm = 'mead2020' if mode == 'hmcode' else None
        fill(out, 'C04', [_spec_case('C04', sp, fns_for(dict(mode=mode), FN_GAL, FN_IA), mode=mode, hmcode=hm, betas=b)
                          for sp in ('mi', 'ii', 'gi') for b in (('c', 's'), ('c',), ('s',), ('C', 'S'), ())])
    from .iaspec import alignment_in_spectra
    out.append(alignment_in_spectra('C04'))
    return fill(out, 'C04', sweep('C04', ['mi', 'ii', 'gi'], [FN_GAL, FN_IA]))


def cases_C01():
    out = []

    def mk(sp, cfg):
        def fn(E):
            c = Ctx(E, **cfg)
            r = getattr(c.obj, 'power_spectrum_' + sp)
            if sp == 'mm' and cfg.get('response'):
                E.eq('mm.pk_tot == supplied non-linear power', r.pk_tot, c.pnl())
                E.eq('mm.pk_1h == 0', r.pk_1h, c.pnl() * 0)
                E.eq('mm.pk_2h == 0', r.pk_2h, c.pnl() * 0)
            elif sp == 'mm' and cfg.get('mode') == 'hmcode':
                pre = c.k() ** 3 / (2 * NP.pi ** 2)
                al = 1.875 * 1.603 ** c.s('neff')[None, :, None]
                p1, p2, _ = c.spec_mm_base()
                E.eq('mm.pk_tot == smoothed transition of its parts', r.pk_tot, ((pre * p1) ** al + (pre * p2) ** al) ** (1 / al) / pre)
            else:
                E.eq(f'{sp}.pk_tot == pk_1h + pk_2h', r.pk_tot, r.pk_1h + r.pk_2h)
        return case('C01', f'{sp}[{label(**cfg)}]', fn, [SP + 'power_spectrum_' + sp])
    for mode in (None, 'bnl', 'fortuna', 'hmcode'):
        for resp in (False, True):
            for sp in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi'):
                cfg = dict(mode=mode, response=resp)
                if mode == 'hmcode':
                    cfg['hmcode'] = 'mead2020'
                out.append(mk(sp, cfg))
    for sp in ('mm', 'gm', 'mi'):
        out.append(mk(sp, dict(hmcode='fit', cacciato=True)))
        out.append(mk(sp, dict(hmcode='mead2020_feedback', mode='hmcode')))
    for resp in (False, True):
        fill(out, 'C01', [mk(sp, cfg) for cfg in configs(response=resp) for sp in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')])
        fill(out, 'C01', [mk(sp, dict(ktr=kt, response=resp)) for kt in ktr_subsets() for sp in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')])
    return out


def cases_C05():
    out = []

    def mk(sp, cfg):
        def fn(E):
            c = Ctx(E, response=True, **cfg)
            d = Ctx(E, response=False, **cfg)
            q = getattr(d.obj, 'power_spectrum_' + sp)
            mm = d.obj.power_spectrum_mm.pk_tot
            ratio = c.V['matter_power_nl'] / mm
            r = getattr(c.obj, 'power_spectrum_' + sp)
            E.eq('pk_1h', r.pk_1h, q.pk_1h * ratio)
            E.eq('pk_2h', r.pk_2h, q.pk_2h * ratio)
            E.eq('pk_tot', r.pk_tot, q.pk_tot * ratio)
            if sp in ('gg', 'gm'):
                E.eq('bias not rescaled', r.galaxy_linear_bias, q.galaxy_linear_bias)
            E.eq('mm total is the supplied power', c.obj.power_spectrum_mm.pk_tot, c.pnl())
            E.frame()
        return case('C05', f'{sp}[{label(**cfg)}]', fn, [SP + 'power_spectrum_' + sp, SP + '_power_spectrum_mm', SP + 'power_spectrum_mm', SP + '_pk_nl'])
    SPS = ('gg', 'gm', 'mi', 'ii', 'gi')
    for mode, hm in ((None, None), ('bnl', None), ('fortuna', None), ('hmcode', 'mead2020')):
        for sp in SPS:
            out.append(mk(sp, dict(mode=mode, hmcode=hm)))
    fill(out, 'C05', [mk(sp, cfg) for cfg in configs() for sp in SPS])
    fill(out, 'C05', [mk(sp, dict(ktr=kt)) for kt in ktr_subsets() for sp in SPS])

    def order(E):
        a = Ctx(E, response=True)
        b = Ctx(E, response=True)
        names = ['mm', 'gg', 'gm', 'mi', 'ii', 'gi']
        ra = {n: getattr(a.obj, 'power_spectrum_' + n) for n in names}
        rb = {n: getattr(b.obj, 'power_spectrum_' + n) for n in reversed(names)}
        ra2 = {n: getattr(a.obj, 'power_spectrum_' + n) for n in names}
        for n in names:
            for q in ('pk_1h', 'pk_2h', 'pk_tot'):
                E.eq(f'{n}.{q} independent of request order', getattr(ra[n], q), getattr(rb[n], q))
                E.eq(f'{n}.{q} stable on a second request', getattr(ra2[n], q), getattr(rb[n], q))
        E.frame()
    out.append(case('C05', 'order of requests', order, [SP + 'power_spectrum_*']))
    return out
