"""C11, second part: the caching protocol itself, cosmology, alignment, non-linear bias and upsampling objects."""
from __future__ import annotations
import contextlib
import itertools
import os
import pickle
import shutil
import tempfile
import warnings
import numpy as np
from onv import shim, terms as T
from onv.core import Case
from onv.tensor import SymTensor, Unsupported
import hmf._internals._cache as hcache
from hmf._internals._cache import parameter
from hmf._internals._framework import Framework
import onepower.pk as pk
import onepower.hmi as hmi
import onepower.ia as ia
import onepower.add as add
import onepower.bnl as bnl
from .hmispec import swap
from .updspec import quantities, isparam, snap, compare, read, same, Raised
from .bnlspec import Emu, Dark

NP = shim.NPX


def the_decorator():
    """the caching decorator the classes of the tree use"""
    return add.cached_quantity


# ------------------------------------------------------------------ the caching protocol, all histories of small clients
def clients():
    cq = the_decorator()

    class Par(Framework):
        def __init__(self, a=0, b=0, sel=0, d=None):
            super().__init__()
            self.a, self.b, self.sel, self.d_params = a, b, sel, d or {}

        @parameter('param')
        def a(self, v):
            return v

        @parameter('param')
        def b(self, v):
            if v == 9:
                raise ValueError('rejected')
            return v

        @parameter('param')
        def sel(self, v):
            return v

        @parameter('param')
        def d_params(self, v):
            return dict(v)

    class Chain(Par):
        """quantities on quantities, dependencies selected by a parameter"""
        @cq
        def p(self):
            return ('p', self.a)

        @cq
        def q(self):
            return ('q', self.p) if self.sel == 0 else ('q', self.b)

        @cq
        def r(self):
            return ('r', self.q, self.s if self.sel == 2 else None)

        @cq
        def s(self):
            return ('s', tuple(sorted(self.d_params.items())))

    class Fail(Par):
        """a quantity that cannot be evaluated for some values"""
        @cq
        def p(self):
            if self.b == 1:
                raise RuntimeError('no value')
            return ('p', self.a, self.b)

        @cq
        def q(self):
            return ('q', self.sel, self.p) if self.sel else ('q', self.a)

        @cq
        def r(self):
            try:
                return ('r', self.p)
            except RuntimeError:
                return ('r', self.b)

    class Base(Par):
        @cq
        def p(self):
            return ('p', self.a) if self.sel else ('p', self.b)

        @cq
        def q(self):
            return ('q', self.p)

    class Child(Base):
        """a quantity extended in a subclass"""
        @cq
        def p(self):
            return ('P', super().p, self.d_params.get('x') if self.sel else None)
    return {'selected': (Chain, 'pqr', {'a': (0, 1), 'b': (0, 1), 'sel': (0, 1)}), 'chain': (Chain, 'qrs', {'a': (0, 1), 'sel': (0, 2), 'd_params': ({}, {'x': 1})}), 'failing': (Fail, 'pqr', {'a': (0, 1), 'b': (0, 1, 9), 'sel': (0, 1)}),
            'extended': (Child, 'pq', {'a': (0, 1), 'b': (0, 1), 'sel': (0, 1), 'd_params': ({}, {'x': 1}, {'x': 2})})}


def key(o):
    """the complete state of an object"""
    def f(x):
        if isinstance(x, dict):
            return tuple(sorted((repr(k), f(v)) for k, v in x.items()))
        if isinstance(x, (set, frozenset)):
            return tuple(sorted(map(repr, x)))
        return repr(x)
    return f(vars(o))


def protocol(which):
    def fn(E):
        cls, qs, vals = clients()[which]
        ops = [('read', q) for q in qs] + [('set', p, v) for p, vs in vals.items() for v in vs] + [('two', 'a', 'b', x, y) for x in (0, 1) for y in (0, 1) if 'b' in vals]
        o0 = cls()
        todo = [(o0, dict(a=0, b=0, sel=0, d={}), ())]
        seen = {key(o0)}
        n = checked = 0
        bad = {}
        import copy
        while todo:
            o, cur, h = todo.pop()
            n += 1
            if n > 20000:
                E.skip('stopped after 20000 states')
                break
            # every quantity of this state, read on a private copy, against a fresh object
            f = cls(**cur)
            for q in qs:
                x, y = read(copy.deepcopy(o), q), read(f, q)
                checked += 1
                if not (type(x) is type(y) and x == y):
                    bad.setdefault(q, (h + (('read', q),), x, y))
            if len(bad) == len(qs):
                break
            for op in ops:
                c = copy.deepcopy(o)
                k = dict(cur)
                try:
                    if op[0] == 'read':
                        getattr(c, op[1])
                    elif op[0] == 'set':
                        c.update(**{op[1]: copy.copy(op[2])})
                        if op[1] == 'd_params':
                            k['d'] = {**k['d'], **op[2]} if op[2] else {}
                        else:
                            k[op[1]] = op[2]
                    else:
                        c.update(a=op[3], b=op[4])
                        k.update(a=op[3], b=op[4])
                except Unsupported:
                    raise
                except Exception:  # noqa
                    pass
                s = key(c)
                if s not in seen:
                    seen.add(s)
                    todo.append((c, k, h + (op,)))
        for q in qs:
            E.true(f'{q}: every reachable state gives the value of a fresh object ({which})', q not in bad, note=str(bad.get(q))[:300])
        E.true('states were explored', checked > 100)
    return Case(f'caching protocol [{which}]', 'C11', fn, ['onepower.utils.cache.cached_quantity', 'hmf parameter/update (dependency, executed)'], [],
                nnum=1, wide=False, bounded=True, note='all histories of any length over a small client class with two or three values per parameter (reachable states exhausted)')


# ------------------------------------------------------------------ numeric histories
def apart(f):
    """f() in a process of its own: nothing an earlier model left behind in this process can reach it, nothing it leaves behind is kept"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            try:
                out = pickle.dumps(('ok', f()))
            except BaseException as e:  # noqa
                out = pickle.dumps(('error', f'{type(e).__name__}: {e}'))
            with os.fdopen(w, 'wb') as g:
                g.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as g:
        data = g.read()
    os.waitpid(pid, 0)
    tag, v = pickle.loads(data) if data else ('error', 'the process ended early')
    if tag == 'error':
        raise Unsupported('fresh object: ' + v)
    return v


def hist(E, cls, cur, alts, Q, order=None, post=None, post0=None, extra=lambda o: None):
    """read everything, then apply single updates one after the other, comparing each time with an object freshly built in a process of its own"""
    cp = lambda v: v.copy() if isinstance(v, (np.ndarray, dict)) else v
    new = lambda c: cls(**{k: cp(v) for k, v in c.items()})

    def picture(c):
        f = new(c)
        extra(f)
        return [(post0 or post or snap)(read(f, q)) for q in Q]
    want, c = [], dict(cur)
    for p, v in alts:
        c[p] = {**c[p], **v} if isinstance(v, dict) and v and isinstance(c.get(p), dict) else v
        want.append(apart(lambda c=dict(c): picture(c)))
    obj = new(cur)
    for q in Q:
        read(obj, q)
    extra(obj)
    for (p, v), w in zip(alts, want):
        obj.update(**{p: cp(v)})
        for q, y in zip(Q, w):
            compare(E, f'after update({p}={str(v)[:30]}): {q}', (post or snap)(read(obj, q)), y)
    return obj


def fsnap(v):
    """a function is known by its values"""
    if callable(v) and not isinstance(v, (np.ndarray, type)):
        try:
            return np.asarray(v(np.linspace(2e-4, 1.0, 37)))
        except Exception:  # noqa
            return 'function'
    if type(v).__module__.startswith('astropy'):
        return repr(v)
    return snap(v)


def cosmology(E):
    if E.sym:
        return E.skip('concrete values')
    rng = np.random.default_rng(E.seed)
    u = lambda lo, hi: float(rng.uniform(lo, hi))
    g = {'h0': (.5, .9), 'omega_c': (.15, .4), 'omega_b': (.02, .08), 'w0': (-1.2, -.8), 'wa': (-.2, .2), 'n_s': (.85, 1.05), 'tcmb': (2.5, 2.9), 'Neff': (2.5, 3.5),
         'm_nu': (0.02, .3), 'sigma_8': (.6, 1.), 'log10T_AGN': (7.3, 8.3)}
    cur = {k: u(*r) for k, r in g.items()}
    cur['z_vec'] = np.sort(rng.uniform(0.01, 3., 3))
    alts = [(k, u(*r)) for k, r in g.items()] + [('z_vec', np.sort(rng.uniform(0.01, 3., 3)))]
    rng.shuffle(alts)
    alts = [(str(k), v) for k, v in alts]
    alts = [(k, float(v) if not isinstance(v, np.ndarray) else v) for k, v in alts]
    hist(E, hmi.CosmologyBase, cur, alts, quantities(hmi.CosmologyBase), post=fsnap)


def fits_file(path, rng):
    from astropy.table import Table
    n = 400
    Table({'z': rng.uniform(0, 2, n), 'loglum': rng.uniform(9, 11, n)}).write(path, overwrite=True)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='onv_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def amplitudes(E, dep):
    """AlignmentAmplitudes; the luminosity distributions are tracked inputs"""
    names = [n for n in ('lum_centrals', 'lum_pdf_z_centrals', 'lum_satellites', 'lum_pdf_z_satellites') if hasattr(ia.AlignmentAmplitudes, n)]
    E.dim('nz', 2, 4)
    E.dim('nl', 3, 7)
    ns = {}
    for n in names:
        def f(self, val):
            return val
        f.__name__ = n
        ns[n] = parameter('param')(f)

    def init(o, **kw):
        mine = {n: kw.pop(n) for n in names if n in kw}
        ia.AlignmentAmplitudes.__init__(o, **kw)
        for n, v in mine.items():
            setattr(o, n, v)
    ns['__init__'] = init
    cls = type(ia.AlignmentAmplitudes)('AlignmentAmplitudes', (ia.AlignmentAmplitudes,), ns)
    G = {'gamma_2h_amplitude': (-5, 6), 'gamma_1h_amplitude': (-1, 1), 'gamma_1h_slope': (-3, 0), 'beta_cen': (-1, 2), 'beta_sat': (-1, 2), 'beta_two': (-1, 2),
         'lpivot_cen': (9, 11), 'lpivot_sat': (9, 11), 'mpivot_cen': (12, 14), 'mpivot_sat': (12, 14)}

    def val(n, ver):
        t = f'{n}_{ver}'
        if n == 'z_vec':
            return E.grid(t, 'nz', '+', .05, 1.5)
        if n in names:
            return E.t(t, ('nz', 'nl'), '+', gen=(lambda r, s: np.cumsum(10 ** r.uniform(9, 10, s), axis=-1)) if 'pdf' not in n else None)
        return E.scalar(t, gen=lambda r: r.uniform(*G[n]))
    allp = ['z_vec'] + names + list(G)
    cur = {n: val(n, 0) for n in allp}
    cur.update(central_ia_depends_on=dep[0], satellite_ia_depends_on=dep[1], beta_two=cur['beta_two'] if dep[2] else None)
    Q = [q for q in quantities(ia.AlignmentAmplitudes, Framework) if q not in names]
    with swap(hcache, obj_eq=same):
        obj = cls(**cur)
        for q in Q:
            read(obj, q)

        def step(**kw):
            obj.update(**kw)
            cur.update(kw)
            f = cls(**cur)
            for q in Q + ['mpivot_cen', 'mpivot_sat', 'lpivot_cen', 'lpivot_sat', 'beta_cen', 'beta_sat']:
                compare(E, f'after update({", ".join(kw)}): {q}', snap(read(obj, q)), snap(read(f, q)))
        for n in allp:
            if cur[n] is not None:
                step(**{n: val(n, 1)})
        step(beta_two=None if cur['beta_two'] is not None else val('beta_two', 1))
        for d in ('halo_mass', 'luminosity', 'constant', 'luminosity'):
            step(central_ia_depends_on=d)
            step(satellite_ia_depends_on=d)
            for n in ('gamma_2h_amplitude', 'gamma_1h_amplitude', 'beta_cen', 'beta_sat', 'lpivot_cen', 'lpivot_sat') + tuple(names):
                step(**{n: cur_alt(val, cur, n)})
            step(beta_two=val('beta_two', 0))
            step(beta_two=None)


def cur_alt(val, cur, n):
    a = val(n, 0)
    return a if cur[n] is not a else val(n, 1)


def satellites(E):
    if E.sym:
        return E.skip('concrete values')
    rng = np.random.default_rng(E.seed)
    u = lambda lo, hi: float(rng.uniform(lo, hi))
    nz, nm = 2, 8
    arr = lambda lo, hi: np.sort(10 ** rng.uniform(lo, hi, (nz, nm)), axis=1)
    with scratch() as d:
        for f in ('c0', 'c1', 's0', 's1'):
            fits_file(os.path.join(d, f + '.fits'), rng)
        F = lambda f: os.path.join(d, f + '.fits')
        cur = dict(mass_in=np.logspace(11, 15, nm), c_in=arr(.5, 1), r_s_in=arr(-2, -1), rvir_in=arr(-.5, .5)[0], n_hankel=60, nmass=4, nk=6, ell_max=2, truncate=False,
                   method='hankel' if E.seed % 2 else 'fftlog', z_vec=np.array([.2, .6]), central_ia_depends_on='luminosity', satellite_ia_depends_on='luminosity',
                   gamma_2h_amplitude=5., beta_cen=.4, beta_two=.2, gamma_1h_amplitude=.002, gamma_1h_slope=-2., beta_sat=.3, mpivot_cen=13., mpivot_sat=13.2,
                   lpivot_cen=10., lpivot_sat=10.2, z_loglum_file_centrals=F('c0'), z_loglum_file_satellites=F('s0'))
        alts = [('mass_in', np.logspace(11.5, 15.5, nm)), ('c_in', arr(.5, 1)), ('r_s_in', arr(-2, -1)), ('rvir_in', arr(-.5, .5)[0]), ('n_hankel', 80), ('nmass', 5), ('nk', 5),
                ('ell_max', 4), ('truncate', True), ('method', 'fftlog' if E.seed % 2 else 'hankel'), ('z_vec', np.array([.3, .8])), ('gamma_2h_amplitude', u(1, 6)), ('beta_cen', u(0, 1)),
                ('beta_two', u(0, 1)), ('beta_two', None), ('gamma_1h_amplitude', u(0, .1)), ('gamma_1h_slope', -1.7), ('beta_sat', u(0, 1)), ('lpivot_cen', u(9, 11)), ('lpivot_sat', u(9, 11)),
                ('z_loglum_file_centrals', F('c1')), ('z_loglum_file_satellites', F('s1')), ('central_ia_depends_on', 'constant'), ('satellite_ia_depends_on', 'halo_mass'),
                ('mpivot_cen', u(12, 14)), ('mpivot_sat', u(12, 14)), ('satellite_ia_depends_on', 'luminosity'), ('z_loglum_file_satellites', F('s0')), ('gamma_1h_slope', -2.)]
        idx = rng.permutation(len(alts)) if E.seed % 3 else range(len(alts))
        alts = [alts[i] for i in idx]
        k, m = np.logspace(-2, 1, 5), np.logspace(11, 15, 6)
        o = hist(E, _WithUp.make(ia.SatelliteAlignment, k, m), cur, alts, [q for q in quantities(ia.SatelliteAlignment, Framework)] + ['_up'], post=asnap)
        E.true('the profiles evaluate', isinstance(read(o, '_up'), np.ndarray), note=str(read(o, '_up'))[:100])


class _WithUp:
    @staticmethod
    def make(cls, k, m):
        return type(cls)(cls.__name__, (cls,), {'_up': property(lambda s: s.upsampled_wkm(k, m) if hasattr(s, 'upsampled_wkm') else None)})


def asnap(v):
    if isinstance(v, (list, tuple)):
        return [asnap(x) for x in v]
    if isinstance(v, np.ndarray) and v.dtype != object:
        return np.array(v)
    if isinstance(v, (int, float, complex, str, bool, np.number, Raised)) or v is None:
        return v
    return 'object ' + type(v).__name__


def smooth_bnl(E):
    """NonLinearBias with a smooth stand-in for the emulator that depends on the cosmology it was given"""
    class S(Emu):
        def __init__(self):
            super().__init__(E, .3)

        def par(self):
            return np.asarray(self.seen[-1], dtype=float).reshape(6)

        def get_sigma8(self):
            return float(.8 + .1 * np.tanh(self.par().sum()))

        def get_pklin_from_z(self, k, z):
            return k ** .9 / (1 + (k * 30) ** 2.4) * 2e4 / (1 + z) * np.exp(.1 * self.par()[3])

        def get_phh_mass(self, k, m1, m2, z):
            p = self.par() @ np.arange(1., 7.)
            b = (m1 / 1e12) ** .2 * (m2 / 1e12) ** .2 * (1 + .3 * z)
            return self.get_pklin_from_z(k, z) * b * (1 + (.8 + .01 * p) * k / (1 + k * k) + .05 * np.sin(40 * np.log(k)) * (1 + .05 * z * np.log(m1 * m2))) + 30.

    class D:
        @staticmethod
        def base_class():
            return S()
    return bnl.NonLinearBias, D, dict(mass=np.logspace(12, 14.5, 3), z_vec=np.array([.1, .5]), k_vec=np.logspace(-2, 1, 4), sigma_8=.8, A_s=None, h0=.68, omega_b=.048, omega_c=.26, omega_lambda=.69, n_s=.96, w0=-1., z_dep=False)


def biases(E):
    if E.sym:
        return E.skip('concrete values')
    if not bnl.HAVE_DARKEMU:
        return E.skip('emulator not installed')
    rng = np.random.default_rng(E.seed)
    _, D, cur = smooth_bnl(E)
    alts = [('mass', np.logspace(11.5, 14.8, 3)), ('k_vec', np.logspace(-1.8, 1.2, 4)), ('z_dep', True), ('z_vec', np.array([.2, .7])), ('sigma_8', .75), ('h0', .69), ('omega_b', .047), ('omega_c', .25),
            ('omega_lambda', .71), ('n_s', .97), ('w0', -.95), ('A_s', 2.2e-9), ('h0', .675), ('A_s', 2.1e-9), ('z_dep', False)]
    if E.seed % 2 == 0:
        alts = [alts[i] for i in rng.permutation(len(alts))]
    with swap(bnl, darkemu=D):
        hist(E, bnl.NonLinearBias, cur, alts, [q for q in ('bnl', 'ombh2', 'omch2', 'minimum_halo_mass') if hasattr(bnl.NonLinearBias, q)], post=asnap)


# ------------------------------------------------------------------ upsampling wrapper
MODES = ('mm', 'gm', 'gg', 'ii', 'mi', 'gi')


def upsampled(E, two):
    """the wrapper, over a stand-in for Spectra with two parameters (its own tracking is the obligation on pk.py)"""
    E.dim('nb', 1, 2)
    E.dim('nz', 2, 3)
    E.dim('nk', 2, 4)
    E.dim('nzo', 1, 3)
    E.dim('nko', 1, 3)
    E.dim('nf', 2, 3)
    leaf = {}
    cache = {}

    def t(n, mk):
        if n not in cache:
            cache[n] = mk(n)
        return cache[n]

    class Spec(Framework):
        def __init__(self, z_vec=None, k_vec=None, amp=None, hod_params=None):
            super().__init__()
            self.z_vec, self.k_vec, self.amp, self.hod_params = z_vec, k_vec, amp, hod_params or {}

        @parameter('param')
        def z_vec(self, v):
            return v

        @parameter('param')
        def k_vec(self, v):
            return v

        @parameter('param')
        def amp(self, v):
            return v

        @parameter('param')
        def hod_params(self, v):
            return dict(v)

        def __getattr__(self, n):
            if n.startswith('power_spectrum_'):
                out = {}
                for c in ('tot', '1h', '2h'):
                    p = t(f'P_{n[15:]}_{c}', lambda q: E.t(q, ('nb', 'nz', 'nk')))
                    f = shim.ufun(E, 'F_' + n[15:], sign='+')(self.amp, *[self.hod_params[k] for k in sorted(self.hod_params)], self.z_vec[0], self.k_vec[0])
                    out['pk_' + c] = p * f
                return pk.PowerSpectrumResult(**out)
            raise AttributeError(n)
    S = lambda n: t(n, lambda q: E.scalar(q, '+', gen=lambda r: r.uniform(.5, 2)))
    zin = lambda i: t(f'zin{i}', lambda q: E.grid(q, 'nz', '+', .01, 2.))
    kin = lambda i: t(f'kin{i}', lambda q: E.grid(q, 'nk', '+', .01, 8., log=True))
    zo = lambda i: t(f'zo{i}', lambda q: E.grid(q, 'nzo', '+', .01, 2.5))
    ko = lambda i: t(f'ko{i}', lambda q: E.grid(q, 'nko', '+', .01, 9., log=True))
    fz = lambda i: t(f'fz{i}', lambda q: E.grid(q, 'nf', '+', .01, 2.))
    fr = lambda i: t(f'fr{i}', lambda q: E.t(q, ('nf',), gen=lambda r, s: r.uniform(0, 1, s)))
    m1 = lambda i: dict(z_vec=zin(i), k_vec=kin(i), amp=S(f'a{i}'), hod_params={'x': S(f'x{i}')})
    m2 = lambda i: dict(amp=S(f'b{i}'), hod_params={'x': S(f'y{i}')})
    names = {'_model_1_params': 'model_1_params', '_model_2_params': 'model_2_params'}
    with swap(hcache, obj_eq=same), swap(add, Spectra=Spec):
        cur = dict(z=zo(0), k=ko(0), fraction_z=fz(0) if two else None, fraction=fr(0) if two else None, model=None, model_1_params=m1(0), model_2_params=m2(0) if two else None,
                   extrapolate_option='extrapolate')
        U = add.UpsampledSpectra
        obj = U(**cur)
        obj.results(list(MODES), ['tot', '1h'])

        def step(label, **kw):
            obj.update(**kw)
            for p, v in kw.items():
                p = names.get(p, p)
                cur[p] = {**cur[p], **v} if isinstance(v, dict) and v and isinstance(cur[p], dict) else v
            f = U(**cur)
            ms = ['mm', 'gm', 'gg']
            for o in (obj, f):
                o.results(ms, ['tot', '1h'])
            for m in ms:
                for c in ('tot', '1h'):
                    compare(E, f'after {label}: {m} {c}', snap(getattr(getattr(obj, 'power_spectrum_' + m), 'pk_' + c)), snap(getattr(getattr(f, 'power_spectrum_' + m), 'pk_' + c)))
            for q in ('frac_1', 'frac_2'):
                if hasattr(U, q):
                    compare(E, f'after {label}: {q}', snap(read(obj, q)), snap(read(f, q)))
        for p in ('_model_1_params', '_model_2_params'):
            if not isparam(U, p):
                raise Unsupported(p + ' is not a parameter')
        step('new output redshifts', z=zo(1))
        step('new output wavenumbers', k=ko(1))
        step('new fraction', fraction=fr(1), fraction_z=fz(1))
        step('new fraction redshifts', fraction_z=fz(0))
        step('new first model', _model_1_params=dict(amp=S('a1')))
        step('new first model grid', _model_1_params=dict(z_vec=zin(1), k_vec=kin(1)))
        if two:
            step('new second model', _model_2_params=dict(amp=S('b1')))
        step('no extrapolation', extrapolate_option=0.0)
        mod = Spec(**m1(0))
        keep = m1(0)
        step('a model passed in', model=mod)
        for p in ('z_vec', 'k_vec', 'amp'):
            E.true(f'the model passed in keeps its {p}', getattr(mod, p) is keep[p])
        if two:
            step('another second model', _model_2_params=dict(hod_params={'x': S('y1')}))
        step('another model passed in', model=Spec(**m1(1)))
        for p in ('z_vec', 'k_vec', 'amp'):
            E.true(f'the first model passed in keeps its {p}', getattr(mod, p) is keep[p])
        step('no model passed in', model=None)
        step('no fraction', fraction=None)


# ------------------------------------------------------------------ the assembled library
def real_base():
    z, k = np.array([0.1, 0.6]), np.logspace(-3, 1, 24)
    hod = {'observables_file': None, 'obs_min': np.array([9.0]), 'obs_max': np.array([11.0]), 'zmin': np.array([0.0]), 'zmax': np.array([1.0]), 'nz': 4, 'nobs': 20,
           'observable_h_unit': '1/h^2'}
    al = dict(central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass', mpivot_cen=13., mpivot_sat=13., beta_cen=.4, beta_sat=.3, gamma_2h_amplitude=5.,
              gamma_1h_amplitude=.01, gamma_1h_slope=-2, method='fftlog', nmass=5, n_hankel=50, nk=20, ell_max=2)
    base = dict(z_vec=z, k_vec=k, Mmin=10., Mmax=15., dlog10m=.25, dlnk=.1, lnk_min=-9, lnk_max=9, transfer_model='EH', growth_model='GrowthFactor', hod_model='Cacciato',
                hod_settings=hod, align_params=al, poisson_params={'poisson': 1.0}, obs_settings=dict(hod), one_halo_ktrunc=.1, two_halo_ktrunc=2., one_halo_ktrunc_ia=4.,
                two_halo_ktrunc_ia=6.)
    plin = np.array([1e4 * k / (1 + (k * 20) ** 2.5), .7e4 * k / (1 + (k * 20) ** 2.5)])
    return base, hod, plin, z, k


def real_alts():
    base, hod, plin, z, k = real_base()
    one = np.array([12.3])
    return dict(h0=.65, omega_c=.3, omega_b=.04, w0=-.9, wa=.1, n_s=.9, tcmb=2.6, Neff=3.2, m_nu=.2, sigma_8=.9, log10T_AGN=7.6, z_vec=z + .1, k_vec=k * 1.1, lnk_min=-8.5, lnk_max=8.5,
                dlnk=.08, Mmin=10.5, Mmax=14.5, dlog10m=.2, hmf_model='Tinker08', bias_model='ST99', halo_concentration_model_dm='Bullock01', halo_concentration_model_sat='Bullock01',
                halo_profile_model_dm='Hernquist', halo_profile_model_sat='Hernquist', transfer_model='BBKS', norm_cen=1.2, norm_sat=1.3, eta_cen=.1,
                eta_sat=.1, delta_c=1.7, overdensity=300., mb=1e13, t_eff=.3, poisson_params={'poisson': 1.3}, hod_params={'log10_m_ch': 11.5},
                hod_settings=dict(hod, obs_min=np.array([9.5])), obs_settings=dict(hod, obs_min=np.array([9.5])), align_params=dict(beta_cen=.7), hod_settings_mm=dict(hod, obs_min=np.array([8.])),
                hmcode_ingredients='mead2020_feedback', nonlinear_mode='fortuna', response=True, matter_power_lin=plin, matter_power_nl=plin * (1 + k), dewiggle=True, pointmass=True,
                compute_observable=True, mdef_model='SOVirial', one_halo_ktrunc=None, two_halo_ktrunc=None, one_halo_ktrunc_ia=.5, two_halo_ktrunc_ia=None)


REALQ = ['power_spectrum_' + m for m in ('lin', 'mm', 'gg', 'gm', 'mi', 'ii', 'gi')] + ['fstar', 'mass_avg', 'obs_func', 'mass', 'dndlnm', 'halo_bias', 'u_dm', 'u_sat', 'omega_m', 'kh', 'power',
        'conc_cen', 'growth_factor', 'neff', 'halo_overdensity_mean', 'matter_profile', 'fstar_mm']


def rsnap(v):
    if isinstance(v, pk.PowerSpectrumResult):
        return {k: rsnap(x) for k, x in vars(v).items()}
    if hasattr(v, 'hod_cen') or callable(v):
        return 'object'
    if isinstance(v, (list, tuple)):
        return [rsnap(x) for x in v]
    return asnap(v)


def real(part, nparts):
    def fn(E):
        if E.sym:
            return E.skip('concrete values')
        rng = np.random.default_rng([E.seed, part])
        base = real_base()[0]
        al = real_alts()
        names = sorted(al)
        mine = [names[i] for i in rng.permutation(len(names))[:5]]
        if part % 2:
            mine = [names[(part // 2 * 5 + j) % len(names)] for j in range(5)]
        hist(E, pk.Spectra, base, [(n, al[n]) for n in mine], [q for q in REALQ if hasattr(pk.Spectra, q)], post=rsnap)
    return Case(f'assembled library history {part}', 'C11', fn, ['onepower.pk.Spectra.*', 'onepower.hmi.HaloModelIngredients.*', 'onepower.hod.Cacciato.*', 'onepower.ia.SatelliteAlignment.*'], [],
                nnum=1, wide=False, bounded=True, note='five single updates on the assembled library with real hmf/halomod')


def cases_C11():
    out = [protocol(w) for w in ('selected', 'chain', 'failing', 'extended')]
    C = 'onepower.hmi.CosmologyBase.'
    out.append(Case('cosmology histories', 'C11', cosmology, [C + '*'], [], nnum=3, wide=False, bounded=True, note='one random order of single updates per run, three redshifts'))
    for dep in (('luminosity', 'luminosity', True), ('luminosity', 'halo_mass', False), ('constant', 'constant', False)):
        out.append(Case(f'amplitudes histories {dep}', 'C11', lambda E, dep=dep: amplitudes(E, dep), ['onepower.ia.AlignmentAmplitudes.*'], [ia], nnum=2, wide=False))
    out.append(Case('satellite alignment histories', 'C11', satellites, ['onepower.ia.SatelliteAlignment.*', 'onepower.ia.AlignmentAmplitudes.*'], [], nnum=4, wide=False, bounded=True,
                    note='one order of single updates per run; two redshifts, eight masses'))
    out.append(Case('non-linear bias histories', 'C11', biases, ['onepower.bnl.NonLinearBias.*'], [], nnum=2, wide=False, bounded=True, note='smooth emulator stand-in; one order of single updates per run'))
    for two in (True, False):
        out.append(Case(f'upsampling histories two={two}', 'C11', lambda E, two=two: upsampled(E, two), ['onepower.add.UpsampledSpectra.*'], [add], nnum=2, wide=False))
    out += [real(i, 36) for i in range(36)]
    return out
