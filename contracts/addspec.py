"""Contracts on onepower.add.UpsampledSpectra (C13)."""
from __future__ import annotations
import itertools
import numpy as np
from onv import shim
from onv.tensor import SymTensor
from onv.core import Case
import onepower.add as add
import onepower.pk as pk

NP = shim.NPX
A = 'onepower.add.UpsampledSpectra.'
FN = [A + f for f in ('results', 'extrapolate_spectra', 'add_spectra', 'frac_1', 'frac_2', 'power_1', 'power_2')]
MODES = ('mm', 'gm', 'gg', 'mi', 'ii', 'gi')
COMPS = ('tot', '1h', '2h')


class Model:
    """stand-in for Spectra: its spectra and grids are leaves, clone/update follow the contract of Spectra"""

    def __init__(self, E, tag, other=None, total=False, z=None, k=None):
        # z / k: name of a grid that already exists and that this model shares (an equal array of its own)
        nz, nk = 'nz' + (z or tag), 'nk' + (k or tag)
        E.dim('nb', 1, 3)
        E.dim(nz, 2, 4)
        E.dim(nk, 2, 5)
        self.E, self.tag, self.other, self.log = E, tag, other, []
        self.z_vec = shared(E, 'z' + z, 'z' + tag) if z else E.grid('z' + tag, nz, '+', 0.01, 2.0)
        self.k_vec = shared(E, 'k' + k, 'k' + tag) if k else E.grid('k' + tag, nk, '+', 0.01, 8.0, log=True)
        for m in MODES:
            r = {c: E.t(f'p{tag}_{m}_{c}', ('nb', nz, nk)) for c in COMPS}
            if total:
                r['tot'] = r['1h'] + r['2h']
            setattr(self, 'power_spectrum_' + m, pk.PowerSpectrumResult(**{'pk_' + c: v for c, v in r.items()}))

    def clone(self, **kw):
        self.log.append(('clone', kw))
        if kw:
            self.other.update(**kw)
        return self.other

    def update(self, **kw):
        self.log.append(('update', kw))


def shared(E, src, new):
    """an equal copy of an existing grid under another name"""
    E.specs[new] = E.specs[src]
    if E.sym:
        r = E.owned[new] = SymTensor.make(E.specs[src].dims, E.specs[src].numfn(), name=new)
        return r
    E.leaves[new] = E.leaves[src].copy()
    r = E.owned[new] = E.leaves[src].copy()
    return r


def grids(E):
    E.dim('nzo', 1, 4)
    E.dim('nko', 1, 5)
    z = E.grid('zo', 'nzo', '+', 0.005, 2.5)
    k = E.grid('ko', 'nko', '+', 0.005, 12.0, log=True)
    return z, k


def frac(E):
    E.dim('nf', 2, 4)
    fz = E.grid('fz', 'nf', '+', 0.01, 2.0)
    f = E.t('f', ('nf',), gen=lambda r, s: r.uniform(0, 1, s))
    return fz, f


def up(E, tag, m, c, fill='extrapolate', total=False):
    p = E.s(f'p{tag}_{m}_{c}') if not (total and c == 'tot') else E.s(f'p{tag}_{m}_1h') + E.s(f'p{tag}_{m}_2h')
    a = shim.SymInterp1d(E.s('z' + tag), p, axis=1, bounds_error=False, fill_value=fill)(E.s('zo'))
    return shim.SymInterp1d(NP.log10(E.s('k' + tag)), a, axis=2, bounds_error=False, fill_value='extrapolate')(NP.log10(E.s('ko')))


def fz_at(E):
    return shim.SymInterp1d(E.s('fz'), E.s('f'), axis=0, bounds_error=False, fill_value='extrapolate')(E.s('zo'))[None, :, None]


def mix(E, m, p1, p2):
    f = fz_at(E)
    if m == 'mm':
        return p1
    if m in ('gm', 'mi'):
        return f * p1 + (1 - f) * p2
    return f ** 2 * p1 + (1 - f) ** 2 * p2


def case(name, fn, **k):
    return Case(name, 'C13', fn, FN, [add], **k)


def cases_C13():
    out = []
    for fill in ('extrapolate', 0.0):
        def one(E, fill=fill):
            z, k = grids(E)
            m1 = Model(E, '1')
            u = add.UpsampledSpectra(z=z, k=k, model=m1, extrapolate_option=fill)
            u.results(list(MODES), list(COMPS))
            for m in MODES:
                for c in COMPS:
                    E.eq(f'{m} {c}: first model alone', getattr(getattr(u, 'power_spectrum_' + m), 'pk_' + c), up(E, '1', m, c, fill))
            E.frame()
        out.append(case(f'upsampling, one population, fill={fill}', one))

    def two(E):
        z, k = grids(E)
        fz, f = frac(E)
        m2 = Model(E, '2')
        m1 = Model(E, '1', other=m2)
        par = {'a': 1.0, 'hod_params': {'x': 2.0}}
        u = add.UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=f, model=m1, model_2_params=par)
        u.results(list(MODES), list(COMPS))
        for m in MODES:
            for c in COMPS:
                E.eq(f'{m} {c}: weighted mixture', getattr(getattr(u, 'power_spectrum_' + m), 'pk_' + c),
                     mix(E, m, up(E, '1', m, c), up(E, '2', m, c)))
        E.true('second model is a clone of the first updated with the second parameters',
               m2.log == [('update', {'a': 1.0, 'hod_params': {'x': 2.0}})] and [x[0] for x in m1.log] == ['clone'], note=f'{m1.log} {m2.log}')
        E.true('parameters of the second model unchanged', par == {'a': 1.0, 'hod_params': {'x': 2.0}})
        E.frame()
    out.append(case('two populations', two))

    for m in MODES:
        for c in COMPS:
            def single(E, m=m, c=c):
                z, k = grids(E)
                fz, f = frac(E)
                m1 = Model(E, '1', other=Model(E, '2'))
                u = add.UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=f, model=m1, model_2_params={'a': 1.0})
                u.results([m], [c])
                E.eq(f'{m} {c} requested alone', getattr(getattr(u, 'power_spectrum_' + m), 'pk_' + c), mix(E, m, up(E, '1', m, c), up(E, '2', m, c)))
            if m in ('mm', 'gg') or c == 'tot':
                out.append(case(f'single request {m} {c}', single, nnum=2))

    def nofrac(E):
        z, k = grids(E)
        m1 = Model(E, '1', other=Model(E, '2'))
        u = add.UpsampledSpectra(z=z, k=k, model=m1, model_2_params={'a': 1.0})
        u.results(list(MODES), ['tot'])
        for m in MODES:
            E.eq(f'{m}: no fraction gives the first model alone', getattr(u, 'power_spectrum_' + m).pk_tot, up(E, '1', m, 'tot'))
    out.append(case('second population without fraction', nofrac))

    def two_fill(E):
        z, k = grids(E)
        fz, f = frac(E)
        m1 = Model(E, '1', other=Model(E, '2'))
        u = add.UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=f, model=m1, model_2_params={'a': 1.0}, extrapolate_option=0.0)
        u.results(list(MODES), list(COMPS))
        for m in MODES:
            for c in COMPS:
                E.eq(f'{m} {c}: weighted mixture', getattr(getattr(u, 'power_spectrum_' + m), 'pk_' + c), mix(E, m, up(E, '1', m, c, 0.0), up(E, '2', m, c, 0.0)))
        E.frame()
    out.append(case('two populations, zero outside the range', two_fill))

    # grids that coincide: the second model has the grid of the first; the output has the grid of a model; the fraction is given on a grid of the others
    for z2, k2, zo, ko, fzs in itertools.product((None, '1'), (None, '1'), (None, '1', '2'), (None, '1', '2'), (None, 'o', '1')):
        if (z2, k2, zo, ko, fzs) == (None,) * 5 or (z2 and zo == '2') or (k2 and ko == '2'):
            continue

        def same(E, z2=z2, k2=k2, zo=zo, ko=ko, fzs=fzs):
            m2tag = dict(z=z2, k=k2)
            E.dim('nzo', 1, 4), E.dim('nko', 1, 5)
            m1 = Model(E, '1')
            m2 = Model(E, '2', **m2tag)
            m1.other = m2
            z = shared(E, 'z' + zo, 'zo') if zo else E.grid('zo', 'nzo', '+', 0.005, 2.5)
            k = shared(E, 'k' + ko, 'ko') if ko else E.grid('ko', 'nko', '+', 0.005, 12.0, log=True)
            if fzs and not (fzs == 'o' and not zo):
                fz = shared(E, 'z' + fzs, 'fz')
                d = 'nz' + ((zo if not (zo == '2' and z2) else z2) if fzs == 'o' else fzs)
                f = E.t('f', (d,), gen=lambda r, s: r.uniform(0, 1, s))
            else:
                fz, f = frac(E)
            u = add.UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=f, model=m1, model_2_params={'a': 1.0})
            u.results(['gg', 'gm', 'mm'], ['tot'])
            for m in ('gg', 'gm', 'mm'):
                E.eq(f'{m}: weighted mixture', getattr(u, 'power_spectrum_' + m).pk_tot, mix(E, m, up(E, '1', m, 'tot'), up(E, '2', m, 'tot')))
            E.frame()
        nm = ','.join(f'{a}={b}' for a, b in (('z2', z2), ('k2', k2), ('zout', zo), ('kout', ko), ('zfrac', fzs)) if b)
        out.append(case(f'coinciding grids {nm}', same, nnum=2))

    def unsorted(E):
        """a fraction tabulated in any order of redshift"""
        if E.sym:
            return E.skip('numeric')
        rng = np.random.default_rng(E.seed)
        z, k = grids(E)
        m1 = Model(E, '1', other=Model(E, '2'))
        n = int(rng.integers(2, 6))
        fz = np.sort(rng.uniform(0.01, 2.0, n)) + np.arange(n) * 0.1
        f = rng.uniform(0, 1, n)
        ref = add.UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=f, model=m1, model_2_params={'a': 1.0})
        ref.results(list(MODES), ['tot'])
        for perm in (np.arange(n)[::-1], rng.permutation(n)):
            a, b = fz[perm], f[perm]
            a0, b0 = a.copy(), b.copy()
            u = add.UpsampledSpectra(z=z, k=k, fraction_z=a, fraction=b, model=m1, model_2_params={'a': 1.0})
            u.results(list(MODES), ['tot'])
            for m in MODES:
                E.true(f'{m}: order of the tabulated fraction is irrelevant', np.allclose(getattr(u, 'power_spectrum_' + m).pk_tot, getattr(ref, 'power_spectrum_' + m).pk_tot, rtol=1e-10, atol=1e-12))
            E.true('fraction untouched', np.array_equal(a, a0) and np.array_equal(b, b0))
    out.append(case('fraction in any order', unsorted, nnum=6, bounded=True, note='fractions of up to 5 redshifts'))

    def own(E):
        m1 = Model(E, '1')
        u = add.UpsampledSpectra(z=m1.z_vec, k=m1.k_vec, model=m1)
        u.results(list(MODES), list(COMPS))
        for m in MODES:
            for c in COMPS:
                E.eq(f'{m} {c}: reproduces the model at its own grid points', getattr(getattr(u, 'power_spectrum_' + m), 'pk_' + c), E.s(f'p1_{m}_{c}'))
    out.append(case('own grid', own))

    def lin(E):
        z, k = grids(E)
        fz, f = frac(E)
        m1 = Model(E, '1', other=Model(E, '2', total=True), total=True)
        u = add.UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=f, model=m1, model_2_params={'a': 1.0})
        u.results(list(MODES), list(COMPS))
        for m in MODES:
            r = getattr(u, 'power_spectrum_' + m)
            E.eq(f'{m}: total stays the sum of its parts', r.pk_tot, r.pk_1h + r.pk_2h)
    out.append(case('linear combinations', lin))

    def onefrac(E):
        """one population and a fraction: the first population with its weight, nothing added"""
        z, k = grids(E)
        fz, f = frac(E)
        m1 = Model(E, '1')
        u = add.UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=f, model=m1)
        u.results(list(MODES), ['tot'])
        for m in MODES:
            E.eq(f'{m}: the second population contributes nothing', getattr(u, 'power_spectrum_' + m).pk_tot, mix(E, m, up(E, '1', m, 'tot'), up(E, '1', m, 'tot') * 0))
        E.true('the first model alone is used', not m1.log, note=str(m1.log))
    out.append(case('one population with a fraction', onefrac))

    def fractions(E):
        """the two public weights"""
        z, k = grids(E)
        fz, f = frac(E)
        m1 = Model(E, '1')
        u = add.UpsampledSpectra(z=z, k=k, fraction_z=fz, fraction=f, model=m1)
        w = fz_at(E)[0, :, 0]
        E.eq('weight of the first population', u.frac_1, w)
        E.eq('weight of the second population', u.frac_2, 1 - w)
        u = add.UpsampledSpectra(z=z, k=k, model=m1)
        E.eq('weight of a single population', u.frac_1, E.s('zo') * 0 + 1)
        E.eq('no second population', u.frac_2, E.s('zo') * 0)
    out.append(case('weights', fractions))

    def ctor(E):
        seen = []

        class S(Model):
            def __init__(self, **kw):
                seen.append(kw)
                Model.__init__(self, E, '1')
        add.Spectra, keep = S, add.Spectra
        try:
            z, k = grids(E)
            par = {'omega_c': 0.2, 'hod_params': {'x': 1}}
            u = add.UpsampledSpectra(z=z, k=k, model_1_params=par)
            u.results(['gg'], ['tot'])
            E.eq('gg from the parameters', u.power_spectrum_gg.pk_tot, up(E, '1', 'gg', 'tot'))
        finally:
            add.Spectra = keep
        E.true('Spectra built once from model_1_params', seen == [{'omega_c': 0.2, 'hod_params': {'x': 1}}], note=str(seen))
        E.true('parameters of the first model unchanged', par == {'omega_c': 0.2, 'hod_params': {'x': 1}})
    out.append(case('built from parameters', ctor))
    return out
