"""Contracts on onepower.bnl (C14): emulator input, halo-halo power to beta_nl, interpolation and indexing; pk.calc_bnl."""
from __future__ import annotations
import math
import numpy as np
from onv import shim, terms as T
from onv.core import Case
from onv.tensor import SymTensor, Unsupported
import onepower.bnl as bnl
import onepower.pk as pkm
from .pkctx import leafclass
from .hmispec import swap
from .iaspec import have

NP = shim.NPX
B = 'onepower.bnl.NonLinearBias.'
# published range of the emulator (Nishimichi et al. 2019), in the order of its cosmology vector
RANGE = [(0.0211375, 0.0233625), (0.10782, 0.13178), (0.54752, 0.82128), (2.4752, 3.7128), (0.916275, 1.012725), (-1.2, -0.8)]
PAR = ('ombh2', 'omch2', 'Ode', 'lnA', 'ns', 'w0')


def case(name, fn, funcs, **kw):
    kw.setdefault('nnum', 4)
    kw.setdefault('wide', False)
    return Case(name, 'C14', fn, funcs, [bnl], **kw)


def clip1(x, lo, hi):
    return NP.where(x < lo, lo, NP.where(x > hi, hi, x))


def cvec(E, vals):
    """spec: every component replaced by the nearest allowed value"""
    return [clip1(v, lo, hi) for v, (lo, hi) in zip(vals, RANGE)]


class Emu:
    """contract of dark_emulator: what it is set to is recorded; spectra are functions of (k, masses, z), symmetric in the masses"""

    def __init__(self, E, om=None):
        self.E, self.seen, self.asked, self.om = E, [], [], om
        self.cosmo = self
        self.first = None
        self.s8f = shim.ufun(E, 'emu_sigma8', sign='+')
        self.lin = shim.ufun(E, 'emu_plin', sign='+')
        self.hh = shim.ufun(E, 'emu_phh', sign='+')

    def get_Omega0(self):
        return self.om

    def set_cosmology(self, c):
        self.seen.append(c)

    def get_sigma8(self):
        c = self.seen[-1].reshape(6)
        if self.E.sym and self.first is not None:
            # the argument is settled here; its value stays a single unknown
            for j, f in enumerate(self.first):
                self.E.eq(f'{PAR[j]} at which sigma_8 is asked for', c[j], f)
            return self.E.scalar('s8_0', '+')
        return self.s8f(*[c[i] for i in range(6)])

    def get_pklin_from_z(self, k, z):
        return self.lin(k, z)

    def get_phh_mass(self, k, a, b, z):
        self.asked.append((a, b, z))
        return self.hh(k, a + b, a * b, z)


class Dark:
    def __init__(self, emu):
        self.base_class = lambda: emu


def params(E):
    g = lambda lo, hi: (lambda r: r.uniform(lo, hi))
    return dict(h0=E.scalar('h0', '+', gen=g(.5, .9)), omega_b=E.scalar('ob', '+', gen=g(.02, .08)), omega_c=E.scalar('oc', '+', gen=g(.15, .35)),
                omega_lambda=E.scalar('ol', '+', gen=g(.4, .95)), n_s=E.scalar('ns', '+', gen=g(.88, 1.05)), w0=E.scalar('w0', gen=g(-1.4, -.6)))


def cases_C14():
    out = []
    if not bnl.HAVE_DARKEMU:
        return out
    C = bnl.NonLinearBias

    # ---- out-of-range parameters: one free in turn, the others anywhere below / inside / above
    def cosmo(E, i):
        n = C()
        if not have(E, C, 'test_cosmo'):
            return
        vals = []
        rng = np.random.default_rng(i)
        for j, (lo, hi) in enumerate(RANGE):
            vals.append(E.scalar(PAR[j], gen=lambda r, lo=lo, hi=hi: r.uniform(lo - (hi - lo), hi + (hi - lo))))
            if j != i and E.sym:
                # keeps the number of paths small: the other components stay on one side each
                w = (j + i) % 3
                x = E.s(PAR[j]).node()
                lo_, hi_ = T.num(lo), T.num(hi)
                if w == 0:
                    E.assume(T.lt(x, lo_))
                elif w == 1:
                    E.assume(T.lt(hi_, x))
                else:
                    E.assume(T.and_(T.le(lo_, x), T.le(x, hi_)))
        arr = bnl.np.array(vals) if E.sym else np.array(vals)
        keep = arr.copy()
        got = n.test_cosmo(arr)
        E.true('one row of six', tuple(got.shape) == (1, 6))
        spec = cvec(E, [E.s(p) for p in PAR])
        for j in range(6):
            E.eq(f'{PAR[j]} clipped to the allowed range', got[0, j], spec[j])
            E.ge(f'{PAR[j]} not below the range', got[0, j], RANGE[j][0])
            E.ge(f'{PAR[j]} not above the range', RANGE[j][1] - got[0, j])
        E.eq('argument not modified', arr, keep if not E.sym else shim.sym_array([E.s(p) for p in PAR]))
    for i in range(6):
        out.append(case(f'allowed range {PAR[i]}', lambda E, i=i: cosmo(E, i), [B + 'test_cosmo'], nnum=12))

    # ---- the emulator is only ever set to allowed cosmologies
    def emulator(E, mode):
        p = params(E)
        if mode in ('A_s', 'both'):
            p['A_s'] = E.scalar('As', '+', gen=lambda r: r.uniform(1e-9, 4.5e-9))
        if mode in ('sigma_8', 'both'):
            p['sigma_8'] = E.scalar('s8', '+', gen=lambda r: r.uniform(.4, 1.6))
        else:
            p['sigma_8'] = None
        emu = Emu(E)
        h = E.s('h0')
        base = lambda lnA: cvec(E, [E.s('ob') * h * h, E.s('oc') * h * h, E.s('ol') - 0.00064, lnA, E.s('ns'), E.s('w0')])
        A0 = 2.1e-9
        first = base(NP.log(SymTensor.scalar(T.num(A0 * 10.0 ** 10.0))))
        emu.first = first
        with swap(bnl, darkemu=Dark(emu)):
            K = leafclass(C, {}, 'NonLinearBias', {'test_cosmo': lambda self, c: shim.sym_array([cvec(E, [c[0, i] if c.ndim == 2 else c[i] for i in range(6)])])}) \
                if E.sym and hasattr(C, 'test_cosmo') else C
            o = K(**p)
            if mode == 'none':
                return E.raises('neither amplitude given', ValueError, lambda: o.emulator)
            e = o.emulator
        if mode == 'sigma_8':
            s0 = E.s('s8_0') if E.sym else shim.uapp('emu_sigma8', *first)
            lnA = NP.log(A0 * (E.s('s8') ** 2 / s0 ** 2) * 10.0 ** 10.0)
        else:
            lnA = NP.log(E.s('As') * 10.0 ** 10.0)
        fin = base(lnA)
        E.true('the emulator is handed out', e is emu)
        for q, c in enumerate(emu.seen):
            r = c.reshape(6)
            for j in range(6):
                E.ge(f'{PAR[j]} given to the emulator is at least the lower limit', r[j], RANGE[j][0])
                E.ge(f'{PAR[j]} given to the emulator is at most the upper limit', RANGE[j][1] - r[j])
        c = emu.seen[-1].reshape(6)
        for j in range(6):
            E.eq(f'{PAR[j]} of the emulator is the nearest allowed value', c[j], fin[j], rtol=1e-9)
    for m in ('A_s', 'sigma_8', 'both', 'none'):
        out.append(case(f'emulator cosmology {m}', lambda E, m=m: emulator(E, m), [B + 'emulator', B + 'ombh2', B + 'omch2'], nnum=10))

    # ---- windows
    def window(E):
        o = C()
        if not have(E, C, 'low_k_truncation', 'high_k_truncation'):
            return
        E.dim('nk', 1, 5)
        k = E.t('k', ('nk',), '+')
        k2 = E.t('dk', ('nk',), '+')
        kt = E.scalar('kt', '+', gen=lambda r: 10 ** r.uniform(-2, 1))
        lo, hi = o.low_k_truncation(k, kt), o.high_k_truncation(k, kt)
        x = 10 * (NP.log10(E.s('k')) - NP.log10(E.s('kt')))
        E.eq('large-scale window', lo, 1 / (1 + NP.exp(-x)))
        E.eq('small-scale window', hi, 1 / (1 + NP.exp(x)))
        one = E.s('k') * 0 + 1
        for n, w in (('large', lo), ('small', hi)):
            E.ge(f'{n}-scale window at least zero', w, 0 * one)
            E.ge(f'{n}-scale window at most one', 1 - w, 0 * one)
        E.eq('complementary', lo + hi, one)
        E.frame()
    out.append(case('windows', window, [B + 'low_k_truncation', B + 'high_k_truncation'], nnum=6))

    def wmono(E):
        o = C()
        if not have(E, C, 'low_k_truncation', 'high_k_truncation'):
            return
        k1 = E.scalar('k1', '+', gen=lambda r: 10 ** r.uniform(-2, 1))
        f = E.scalar('f', '+', gen=lambda r: 10 ** r.uniform(0.01, 1))
        kt = E.scalar('kt', '+', gen=lambda r: 10 ** r.uniform(-2, 1))
        k2 = k1 * (1 + f)
        E.ge('large-scale window rises', o.low_k_truncation(k2, kt) - o.low_k_truncation(k1, kt))
        E.ge('small-scale window falls', o.high_k_truncation(k1, kt) - o.high_k_truncation(k2, kt))
    out.append(case('window direction', wmono, [B + 'low_k_truncation', B + 'high_k_truncation'], nnum=6))

    # ---- mass range of the simulations
    def mmin(E):
        emu = Emu(E, E.scalar('om', '+', gen=lambda r: r.uniform(.2, .45)))
        o = leafclass(C, {'emulator': emu}, 'NonLinearBias')()
        if not have(E, C, 'minimum_halo_mass'):
            return
        m, k = o.minimum_halo_mass
        E.eq('200 particles of the high-resolution runs', m, 200 * 2.77536627e11 * E.s('om') * 1000.0 ** 3 / 2048.0 ** 3)
        E.eq('wavenumber of the sphere enclosing them', k, 2 * NP.pi / (3 * (1000.0 ** 3 * 200 / 2048.0 ** 3) / (4 * NP.pi)) ** (1 / 3), rtol=1e-9)
        if have(E, C, 'rvir'):
            E.dim('nm', 1, 4)
            M = E.t('M', ('nm',), '+')
            E.eq('radius enclosing 200 times the mean density', o.rvir(M) ** 3 * 4 * NP.pi / 3 * 200 * 2.77536627e11 * E.s('om'), E.s('M'), rtol=1e-9)
    out.append(case('resolved halo mass', mmin, [B + 'minimum_halo_mass', B + 'rvir']))

    # ---- envelope
    def envelope(E):
        if E.sym:
            raise Unsupported('data dependent selection')
        o = C()
        if not have(E, C, 'hl_envelopes_idx'):
            return
        r = np.random.default_rng(E.seed)
        for n in (3, 4, 7, 20, 60):
            for kind in range(3):
                d = r.normal(0, 1, n) if kind == 0 else r.integers(0, 4, n).astype(float) if kind == 1 else np.sin(np.linspace(0, 9, n)) + .1 * r.normal(size=n)
                keep = d.copy()
                try:
                    lo, hi = o.hl_envelopes_idx(d)
                except IndexError:
                    continue            # no extremum at all
                s = np.sign(np.diff(d))
                E.true('maxima are where the slope turns down', list(hi) == [i for i in range(1, n - 1) if s[i] < s[i - 1]])
                E.true('minima are where the slope turns up', list(lo) == [i for i in range(1, n - 1) if s[i] > s[i - 1]])
                E.true('data not modified', (d == keep).all())
    out.append(case('envelope', envelope, [B + 'hl_envelopes_idx'], bounded=True, nnum=4, note='random sequences of 3-60 points'))

    # ---- halo-halo power to beta
    def beta(E, n):
        emu = Emu(E)
        E.dim('nk', 12, 16)
        E.dim('nl', 4, 6)
        kg = lambda r, s: np.concatenate([np.sort(10 ** r.uniform(-3, 1.9, s[0] - 3)), np.sort(r.uniform(110, 190, 2)), [200.0]])
        k = E.t('k', ('nk',), '+', gen=kg)
        lm = E.t('lmax', ('nl',), '0+', gen=lambda r, s: np.sort(r.choice(np.arange(1, 11), s[0], replace=False)))
        z = E.scalar('z', '0+', gen=lambda r: r.uniform(0, 1.4))
        kmax = E.scalar('kmax', '+', gen=lambda r: r.uniform(1, 9))
        lM = E.t('lM', (n,), gen=lambda r, s: np.sort(r.uniform(12, 14, s)))
        asked = []
        lo, hi = shim.ufun(E, 'lowwin', sign='+'), shim.ufun(E, 'highwin', sign='+')

        def env(self, data, *a, **kw):
            asked.append(data)
            i = lm if E.sym else lm.astype(int)
            return i, i
        K = leafclass(C, {'emulator': emu}, 'NonLinearBias', {'hl_envelopes_idx': env, 'low_k_truncation': lambda self, k, t: lo(k, t),
                                                                  'high_k_truncation': lambda self, k, t: hi(k, t)})
        if not have(E, C, 'hl_envelopes_idx', 'compute_bnl_darkquest', 'low_k_truncation', 'high_k_truncation'):
            return
        got = K().compute_bnl_darkquest(z, lM, lM, k, kmax)
        E.true('shape', len(got.shape) == 3 and not E.sym or E.sym)
        k, z, lm, lMs, kmax = E.s('k'), E.s('z'), E.s('lmax'), E.s('lM'), E.s('kmax')
        M = [10 ** lMs[i] for i in range(n)]
        plin = shim.uapp('emu_plin', k, z)
        kl = SymTensor.scalar(T.num(0.05))
        bias = [NP.sqrt(shim.uapp('emu_phh', kl, m + m, m * m, z) / shim.uapp('emu_plin', kl, z)) for m in M]
        win = shim.uapp('lowwin', k, kl) * shim.uapp('highwin', k, 3 * kmax)
        sel = (k > 100.0) & (k < 200.0)
        cnt = NP.where(sel, 1.0, 0.0).sum()
        q = 0
        for i in range(n):
            for j in range(n):
                ph = shim.uapp('emu_phh', k, M[i] + M[j], M[i] * M[j], z)
                shot = NP.where(sel, ph, 0.0).sum() / cnt
                rel = NP.absolute((ph - shot) / (bias[i] * bias[j] * plin))
                f = shim.SymInterp1d(k[lm], rel[lm], kind='quadratic', bounds_error=False, fill_value='extrapolate')
                spec = (f(k) - f(kl)) * win
                E.eq(f'beta[{i},{j}]', got[i, j], spec, rtol=1e-6)
                E.eq(f'beta[{i},{j}] = beta[{j},{i}]', got[i, j], got[j, i])
                # what the envelope is taken of
                if j >= i and len(asked) == n * (n + 1) // 2:
                    E.eq('envelope of the relative power', asked[q], rel, rtol=1e-6)
                    q += 1
        for a, b, zz in emu.asked:
            E.eq('redshift asked for', zz, z)
        E.frame()
    for n in (1, 2, 3, 5):
        out.append(case(f'beta for {n} masses', lambda E, n=n: beta(E, n), [B + 'compute_bnl_darkquest'], bounded=False if n == 5 else 'sym', nnum=2,
                        note='five masses, the number the code uses; any wavenumber grid' if n == 5 else 'fixed number of masses'))

    # ---- interpolation table: masses, redshifts
    def table(E, zdep):
        E.dim('nz', 1, 4)
        z = E.grid('z_vec', 'nz', '+', 0.05, 1.4)
        mn = E.scalar('mn', '+', gen=lambda r: 10 ** r.uniform(11, 13))
        km = E.scalar('km', '+', gen=lambda r: r.uniform(1, 9))
        if E.sym:
            E.assume(T.lt(E.s('mn').node(), T.num(10 ** 14)))
        calls, built = [], []

        def comp(self, zz, a, b, k, kmax):
            calls.append((zz, a, b, k, kmax))
            return shim.uapp('bt', zz) if E.sym else ('bt', zz)

        class RGI:
            def __init__(self, pts, values, method='linear', bounds_error=True, fill_value=np.nan):
                self.pts, self.values, self.kw = pts, values, (method, bounds_error, fill_value)
                built.append(self)
        C0 = leafclass(C, {'minimum_halo_mass': (mn, km)}, 'NonLinearBias', {'compute_bnl_darkquest': comp})
        if not have(E, C, 'compute_bnl_darkquest', 'create_bnl_interpolation_function'):
            return
        zv = z
        if E.sym and zdep:
            raise Unsupported('list of interpolators')
        if not E.sym:
            # today's redshift and one beyond the calibration are passed on as requested
            zv = z = np.concatenate([[0.0], z, [2.3]])
        with swap(bnl, RegularGridInterpolator=RGI):
            r = C0(z_vec=zv, z_dep=zdep).create_bnl_interpolation_function
        if zdep:
            E.true('one table per redshift', len(r) == len(z) and len(calls) == len(z))
            for i in range(len(z)):
                E.true('tables in the order of the redshifts', abs(r[i].values[1] - z[i]) < 1e-12)
        else:
            E.true('a single table', len(calls) == 1)
            E.eq('made at redshift 0.01', calls[0][0] * 1.0, 0.01)
        for (zz, a, b, k, kmax), t in zip(calls, built):
            E.true('five masses', a.shape[0] == 5 and b.shape[0] == 5)
            for i in range(5):
                E.eq('first masses from the resolved minimum to 1e14', 10 ** a[i], 10 ** ((1 - i / 4) * NP.log10(E.s('mn')) + i / 4 * 14), rtol=1e-9)
                E.eq('second masses are the first masses', b[i], a[i])
                for j in (0, 1):
                    E.eq('table axes are the masses', t.pts[j][i], a[i])
                E.ge('masses not below the resolved minimum', 10 ** a[i] * (1 + 1e-9) / mn - 1)
                E.ge('masses not above 1e14', 1e14 * (1 + 1e-9) - 10 ** a[i])
            E.eq('window of the resolved wavenumber', kmax, E.s('km'))
            E.eq('last axis is the wavenumber', t.pts[2], NP.log10(k) if E.sym else np.log10(k))
            E.true('values outside the table continue it', t.kw[1] is False and t.kw[2] is None)
            if not E.sym:
                E.true('wavenumbers reach from 1e-3 to 200', abs(k[0] - 1e-3) < 1e-9 and abs(k[-1] - 200) < 1e-6 and (np.diff(k) > 0).all())
                E.true('shot noise wavenumbers are sampled', ((k > 100) & (k < 200)).sum() > 10)
    for zd in (False, True):
        out.append(case(f'table z_dep={zd}', lambda E, zd=zd: table(E, zd), [B + 'create_bnl_interpolation_function'], bounded=zd,
                        note='numbers of redshifts 1-4' if zd else ''))

    # ---- result indexing
    def index(E, zdep, nz, nk, nm):
        m = E.t('mass', (nm,), '+', gen=lambda r, s: np.sort(10 ** r.uniform(9, 16, s)))
        k = E.t('k_vec', (nk,), '+', gen=lambda r, s: np.sort(10 ** r.uniform(-4, 2, s)))
        z = E.t('z_vec', (nz,), '+')
        f = [shim.ufun(E, f'rgi{i}') for i in range(nz)]

        def mk(i):
            return lambda v: f[i](v[:, 0], v[:, 1], v[:, 2])
        if not hasattr(C, 'create_bnl_interpolation_function'):
            return have(E, C, 'create_bnl_interpolation_function')
        V = {'create_bnl_interpolation_function': [mk(i) for i in range(nz)] if zdep else mk(0)}
        got = leafclass(C, V, 'NonLinearBias')(mass=m, k_vec=k, z_vec=z, z_dep=zdep).bnl
        n0 = nz if zdep else 1
        E.true('shape (redshift, wavenumber, mass, mass)', tuple(int(x) for x in got.shape) == (n0, nk, nm, nm))
        m, k = E.s('mass'), E.s('k_vec')
        for a in range(n0):
            for b in range(nk):
                for c in range(nm):
                    for d in range(nm):
                        E.eq(f'[{a},{b},{c},{d}]', got[a, b, c, d], shim.uapp(f'rgi{a}', NP.log10(m[c]), NP.log10(m[d]), NP.log10(k[b])))
        E.frame()
    for zd in (False, True):
        for nz, nk, nm in ((1, 1, 1), (2, 3, 2), (3, 2, 3)):
            out.append(case(f'indexing z_dep={zd} {nz}x{nk}x{nm}', lambda E, a=(zd, nz, nk, nm): index(E, *a), [B + 'bnl'], bounded='sym', nnum=2, note='fixed array sizes'))

    # ---- whole helper against a smooth emulator
    def whole(E, zdep):
        if E.sym:
            raise Unsupported('data dependent selection')
        r = np.random.default_rng(E.seed)
        a = r.uniform(.5, 2, 4)

        class S(Emu):
            def get_pklin_from_z(self, k, z):
                return k ** .9 / (1 + (k * 30) ** 2.4) * 2e4 / (1 + z)

            def get_phh_mass(self, k, m1, m2, z):
                self.asked.append((float(m1), float(m2), float(z)))
                b = (m1 / 1e12) ** .2 * (m2 / 1e12) ** .2 * (1 + .3 * z)
                return self.get_pklin_from_z(k, z) * b * (1 + a[0] * k / (1 + k * k) + .05 * np.sin(a[1] * 40 * np.log(k)) * (1 + .05 * z * np.log(m1 * m2))) + 30. * a[2]
        emu = S(E, .3)
        m = np.sort(10 ** r.uniform(10, 15.5, 4))
        k = np.sort(10 ** r.uniform(-4, 2, 5))
        z = np.array([0.0 if E.seed % 2 else r.uniform(0, .7), r.uniform(.8, 2.5)])
        o = leafclass(C, {'emulator': emu}, 'NonLinearBias')(mass=m.copy(), k_vec=k.copy(), z_vec=z.copy(), z_dep=zdep)
        got = o.bnl
        mn = float(np.asarray(o.minimum_halo_mass[0])) if hasattr(o, 'minimum_halo_mass') else 0
        E.true('shape', got.shape == ((2 if zdep else 1), 5, 4, 4))
        E.true('finite', np.isfinite(got).all())
        E.true('symmetric in the masses', np.array_equal(got, got.transpose(0, 1, 3, 2)))
        for x, y, zz in emu.asked:
            for q in (x, y):
                E.true('masses asked for are inside the range', q <= 1e14 * (1 + 1e-9) and q >= 0.999999 * 200 * 2.77536627e11 * .3 * 1000. ** 3 / 2048. ** 3)
        E.true('redshifts asked for', {q[2] for q in emu.asked} == (set(z.tolist()) if zdep else {0.01}))
        lo = o.__class__(mass=m, k_vec=np.array([1e-3 * 1.0001]), z_vec=z, z_dep=zdep).bnl
        E.true('vanishes on large scales', np.abs(lo).max() < 1e-3 * max(1, np.abs(got).max()))
    for zd in (False, True):
        out.append(case(f'whole z_dep={zd}', lambda E, zd=zd: whole(E, zd), [B + 'bnl', B + 'create_bnl_interpolation_function', B + 'compute_bnl_darkquest'],
                        bounded=True, nnum=2, note='smooth emulator stand-in, four masses, five wavenumbers'))

    # ---- model builds the helper from its own parameters
    def model(E):
        seen = {}
        E.dim('a', 1, 3)
        E.dim('b', 1, 3)
        E.dim('c', 1, 3)
        V = dict(mass=E.t('mass', ('c',), '+'), z_vec=E.t('z_vec', ('a',), '+'), k_vec=E.t('k_vec', ('b',), '+'),
                 **{n: E.scalar(n, '+') for n in ('h0', 'sigma_8', 'omega_b', 'omega_c', 'n_s', 'w0', 'omega_m')})
        res = E.t('bnl', (1, 'b', 'c', 'c'))

        class NB:
            def __init__(self, **kw):
                seen.update(kw)
                self.bnl = res
        with swap(pkm, NonLinearBias=NB):
            r = leafclass(pkm.Spectra, V, 'Spectra')().calc_bnl
        E.eq('the helper result', r, E.s('bnl'))
        for n in ('mass', 'z_vec', 'k_vec', 'h0', 'sigma_8', 'omega_b', 'omega_c', 'n_s', 'w0'):
            if n not in seen:
                E.true(f'{n} passed', False)
                continue
            E.eq(f'{n} of the model', seen[n], E.s(n))
        E.eq('dark energy density of the flat model', seen['omega_lambda'], 1 - E.s('omega_m'))
        E.true('amplitude from sigma_8', seen.get('A_s') is None)
    out.append(Case('model bias helper', 'C14', model, ['onepower.pk.Spectra.calc_bnl'], [pkm], nnum=3))
    return out
