"""Proof units (cases), path exploration, discharge of obligations, numerical confirmation on the real code."""
from __future__ import annotations
import itertools
import json
import math
import time
import traceback
import zlib
import warnings
from fractions import Fraction as Fr
import numpy as np
from . import terms as T
from . import norm as N
from . import smt
from . import tensor as X
from . import shim
from .tensor import SymTensor, Unsupported
from .evalnum import Evaluator

RTOL = 2e-7


# ------------------------------------------------------------------ obligations
class Ob:
    """kind: eq(got, spec) | ge(got, spec) | gt | true(got bool tensor or python bool)"""

    def __init__(self, name, kind, got, spec=None, hyps=(), scale=None, rtol=None):
        self.name, self.kind, self.got, self.spec, self.hyps = name, kind, got, spec, list(hyps)
        self.scale = scale
        self.rtol = rtol


class Env:
    """Supplies the leaves of a proof unit, symbolically or numerically."""

    def __init__(self, sym, seed=0, dims=None, over=None, scal=None, wide=False):
        self.wide = wide
        self.sym = sym
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.obs = []
        self.leaves = {}
        self.scalars = {}
        self.over_dims = dims or {}
        self.over = over or {}       # leaf -> {idx tuple: value}
        self.over_scal = scal or {}
        self.specs = {}
        self.funcs = {}
        self.hyps = []
        self.owned = {}              # caller-owned code-side arrays for the frame condition
        self.skipped = []
        self.covers = []

    # ---- dimensions
    def dim(self, name, lo=1, hi=4):
        node = T.scalar(name, '+', integer=True)
        if lo > 1:
            f = N.canon(T.sub(node, T.num(lo)))
            if f not in N.INTFACTS:
                N.INTFACTS.append(f)
                N.clear_memo()
        if self.sym:
            return SymTensor.scalar(node, 'i')
        if name not in self.scalars:
            v = self.over_dims.get(name)
            if v is None:
                v = int(self.rng.integers(lo, max(hi, lo) + (6 if self.wide else 1)))
            self.scalars[name] = max(int(v), lo)
        return self.scalars[name]

    def dn(self, name):
        return T.scalar(name, '+', integer=True)

    # ---- tensors
    def t(self, name, dims, sign=None, gen=None, owned=True, sort=False):
        """code-side tensor leaf; the spec side is self.s(name)"""
        nodes = [X.dimnode(T.scalar(d, '+', integer=True)) if isinstance(d, str) else X.dimnode(d) for d in dims]
        if sign and T.SIGN.get(name) != sign:
            T.SIGN[name] = sign
            N.clear_memo()
        self.specs[name] = SymTensor.make(nodes, lambda idx: T.app(name, *idx))
        if self.sym:
            r = SymTensor.leaf(name, nodes, owned=owned)
            if owned:
                self.owned[name] = r
            return r
        shape = tuple(self.scalars[d] if isinstance(d, str) else int(d) for d in dims)
        rng = np.random.default_rng([self.seed & 0xffffffff, zlib.crc32(name.encode())])
        if gen is not None:
            a = np.asarray(gen(rng, shape), dtype=float)
        elif sign == '+':
            a = np.exp(rng.normal(0, 0.7, shape))
        elif sign == '0+':
            a = np.abs(rng.normal(0, 1, shape))
        else:
            a = rng.normal(0, 1, shape)
        if sort:
            a = np.sort(a, axis=-1)
        a = np.array(a, dtype=float)
        if self.wide:
            a = a * 10.0 ** rng.uniform(-3, 3)
        for idx, v in self.over.get(name, {}).items():
            if len(idx) == a.ndim and all(0 <= i < s for i, s in zip(idx, a.shape)):
                a[idx] = v
        if sort:
            a = np.sort(a, axis=-1)
            a = a + np.arange(a.shape[-1]) * 1e-9 * (np.abs(a).max() if a.size else 1)
        self.leaves[name] = a
        c = a.copy()
        if owned:
            self.owned[name] = c
        return c

    def grid(self, name, dim, sign='+', lo=0.1, hi=5.0, log=False, ends=False):
        def gen(rng, shape):
            x = np.sort(rng.uniform(0, 1, shape), axis=-1)
            x = (x + np.linspace(0, 1, shape[-1])) / 2 if shape[-1] > 1 else x
            if ends:
                x[..., 0], x[..., -1] = 0, 1
            return lo * (hi / lo) ** x if log else lo + (hi - lo) * x
        return self.t(name, (dim,), sign, gen, sort=True)

    def s(self, name):
        return self.specs[name]

    def scalar(self, name, sign=None, lo=None, hi=None, gen=None, integer=False):
        if sign and T.SIGN.get(name) != sign:
            T.SIGN[name] = sign
            N.clear_memo()
        node = T.scalar(name, sign)
        self.specs[name] = SymTensor.scalar(node)
        if lo is not None:
            self.hyps.append(T.le(T.num(lo), node))
        if hi is not None:
            self.hyps.append(T.le(node, T.num(hi)))
        if self.sym:
            return SymTensor.scalar(node)
        rng = np.random.default_rng([self.seed & 0xffffffff, zlib.crc32(name.encode())])
        if name in self.over_scal:
            v = float(self.over_scal[name])
        elif gen is not None:
            v = float(gen(rng))
            if self.wide and lo is None and hi is None:
                v *= 10.0 ** rng.uniform(-2, 2)
        elif lo is not None and hi is not None:
            v = float(rng.uniform(lo, hi))
        elif sign == '+':
            v = float(np.exp(rng.normal(0, 0.7)))
        else:
            v = float(rng.normal())
        self.scalars[name] = v
        return v

    def fun(self, name, numeric):
        """uninterpreted external function with a numeric interpretation for replay"""
        self.funcs[name] = numeric

    # ---- obligations
    def eq(self, name, got, spec, hyps=(), rtol=None):
        self.obs.append(Ob(name, 'eq', got, spec, list(self.hyps) + list(hyps), rtol=rtol))

    def ge(self, name, got, spec=0, hyps=()):
        self.obs.append(Ob(name, 'ge', got, spec, list(self.hyps) + list(hyps)))

    def gt(self, name, got, spec=0, hyps=()):
        self.obs.append(Ob(name, 'gt', got, spec, list(self.hyps) + list(hyps)))

    def true(self, name, cond, hyps=(), note=''):
        o = Ob(name, 'true', cond, None, list(self.hyps) + list(hyps))
        o.note = note
        self.obs.append(o)

    def sign(self, name, sg):
        """assumed sign of an external function's value"""
        if T.SIGN.get(name) != sg:
            T.SIGN[name] = sg
            N.clear_memo()

    def assume(self, cond):
        self.hyps.append(cond)
        if self.sym and X.Oracle.cur is not None and isinstance(cond, T.Node):
            X.Oracle.cur.pc.append(cond)

    def raises(self, name, exc, f):
        """obligation: f() raises exc"""
        try:
            f()
        except Unsupported:
            raise
        except exc:
            self.true(name, True)
            return
        except Exception as e:
            if self.sym:
                raise
            self.true(name, False, note=f'raised {type(e).__name__}: {e}')
            return
        self.true(name, False, note='no exception')

    def frame(self, name='frame: caller-owned inputs unchanged'):
        """obligation: no write reached a caller-owned leaf"""
        if self.sym:
            self.true(name, len(X.WRITES) == 0, note='written: ' + ','.join(sorted({w[0] for w in X.WRITES})))
        else:
            bad = [k for k, a in self.owned.items() if not np.array_equal(a, self.leaves[k], equal_nan=True)]
            self.true(name, not bad, note='modified: ' + ','.join(bad))

    def skip(self, why):
        self.skipped.append(why)


class Case:
    def __init__(self, name, prop, fn, functions, modules, nnum=3, extra=None, note='', opts=None, bounded=False, rtol=None, wide=True):
        self.wide = wide
        self.name, self.prop, self.fn, self.functions, self.modules = name, prop, fn, functions, modules
        self.nnum = nnum
        self.extra = extra
        self.note = note
        self.bounded = bounded
        self.rtol = rtol

    def patch(self):
        ex = self.extra() if callable(self.extra) else (self.extra or {})
        return shim.patched(self.modules, ex)


# ------------------------------------------------------------------ exploration
class Explorer:
    def __init__(self, maxpaths=64):
        self.maxpaths = maxpaths
        self.base = []

    def branch(self, cond, p):
        k = self.pos
        self.pos += 1
        if k < len(self.prefix):
            choice = self.prefix[k]
        else:
            can_t = smt.feasible(self.pc + [cond])
            can_f = smt.feasible(self.pc + [T.not_(cond)])
            if can_t and can_f:
                choice = True
                self.todo.append(self.prefix[:k] + [False] if len(self.prefix) == k else list(self.taken) + [False])
            elif can_t:
                choice = True
            else:
                choice = False
            self.prefix = list(self.prefix) + [choice] if len(self.prefix) == k else self.prefix
        self.taken.append(choice)
        self.pc.append(cond if choice else T.not_(cond))
        return choice

    def run(self, body):
        """yields (path condition, result) for every feasible path"""
        self.todo = [[]]
        out = []
        n = 0
        while self.todo:
            n += 1
            if n > self.maxpaths:
                raise Unsupported('too many paths')
            self.prefix = self.todo.pop()
            self.pos = 0
            self.taken = []
            self.pc = []
            X.Oracle.cur = self
            X.reset_generics()
            X.WRITES.clear()
            try:
                r = body()
            finally:
                X.Oracle.cur = None
            out.append((list(self.pc), r))
        return out


# ------------------------------------------------------------------ discharge
def residual_ok(node):
    """no leftover generic loop variable"""
    bad = [f for f in node.free if N.nd(f).data[1].__class__ is str and N.nd(f).data[1].startswith('g!')]
    return not bad


def generic_index(dims, tag='x'):
    idx, rs = [], []
    for k, d in enumerate(dims):
        if X.is_one(d):
            idx.append(X.ZERO)
            continue
        v = T.ivar(f'{tag}{k}@{d.id}')
        X.IVAR_DIM[v.id] = d
        idx.append(v)
        rs.append((v, d))
    return tuple(idx), rs


def clear_denominators(p):
    for _ in range(4):
        dens = {}
        for m in p:
            for a, e in m:
                if e < 0 and N.nd(a).op == 'add':
                    k = -e
                    k = int(math.ceil(k))
                    dens[a] = max(dens.get(a, 0), k)
        if not dens:
            return p
        for a, k in dens.items():
            P = N.p_ipow(N.poly(N.nd(a)), k)
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(a, Fr(0))
                rest = {tuple(sorted(d.items())): c}
                e2 = e + k
                if e2 == 0:
                    out = N.p_add(out, rest)
                elif e2.denominator == 1:
                    out = N.p_add(out, N.p_mul(rest, N.p_ipow(N.poly(N.nd(a)), int(e2))))
                else:
                    out = N.p_add(out, N.p_mul(rest, {((a, e2),): Fr(1)}))
            p = out
    return p


def zero_poly(p):
    if not p:
        return True
    if len(p) > 3000:
        return False
    try:
        return not clear_denominators(p)
    except N.TooBig:
        return False


def merge_sums(p):
    """sum extensionality: combine sums over the same dimension (same outer factor 1) into one body polynomial"""
    groups = {}
    rest = {}
    for m, c in p.items():
        sums = [(a, e) for a, e in m if N.nd(a).op == 'sum' and e == 1]
        if len(sums) == 1:
            s = N.nd(sums[0][0])
            key = tuple(d.id for d in s.args[:-1])
            others = tuple(x for x in m if x[0] != sums[0][0])
            groups.setdefault(key, []).append((s, others, c))
        else:
            rest[m] = c
    return groups, rest


def _unity(s):
    """interpolation weights w(.., b) under a sum whose other arguments are free of the binders -> (binder, dim, w)"""
    for h, d in zip(s.data, s.args[:-1]):
        b = T.bvar(h)
        for w in T.subterms(s.args[-1]):
            if w.op == 'app' and w.data in N.UNITY and w.data != 'gauss1d' and w.args[-1] is b and w.args[0].args[0] is d \
                    and not any(T.bvar(x).id in q.free for q in w.args[:-1] for x in s.data):
                yield h, d, w


def absorb(groups, rest, ranges, hyps, depth):
    """sum_j w_j = 1 for interpolation weights: move the terms outside under the sum that carries the weights"""
    items = [it for g in groups.values() for it in g]
    for h0, d0, w0 in _unity(items[0][0]):
        v = T.fresh_ivar('q')
        X.IVAR_DIM[v.id] = d0
        wv = T.subst(w0, {T.bvar(h0).id: v})
        tot = {}
        for s, others, c in items:
            for h, d, w in _unity(s):
                if d is d0 and T.subst(w, {T.bvar(h).id: v}) is wv:
                    break
            else:
                break
            body = T.subst(s.args[-1], {T.bvar(h).id: v})
            for x, dx in reversed([(x, dx) for x, dx in zip(s.data, s.args[:-1]) if x != h]):
                u = T.fresh_ivar('q')
                X.IVAR_DIM[u.id] = dx
                body = T.sum_(u, dx, T.subst(body, {T.bvar(x).id: u}))
            tot = N.p_add(tot, N.p_mul({others: c}, N.poly(body)))
        else:
            tot = N.p_add(tot, N.p_mul(rest, N.poly(wv)))
            if prove_zero(tot, ranges + [(v, d0)], hyps, depth + 1):
                return True
    return False


def prove_zero(p, ranges, hyps, depth=0):
    p = N.simplify_ind(p, ranges)
    if zero_poly(p):
        return True
    inds = sorted(N.ind_atoms(p))
    if inds and len(inds) <= 12:
        return split_zero(p, inds, ranges, hyps, [], depth)
    if depth < 2:
        groups, rest = merge_sums(p)
        if groups and absorb(groups, rest, ranges, hyps, depth):
            return True
        if not rest and groups:
            for key, items in groups.items():
                dims = items[0][0].args[:-1]
                vs = []
                tot = {}
                for k, d in enumerate(dims):
                    v = T.fresh_ivar('q')
                    X.IVAR_DIM[v.id] = d
                    vs.append(v)
                for s, others, c in items:
                    body = s.args[-1]
                    b = T.subst(body, {T.bvar(h).id: v for h, v in zip(s.data, vs)})
                    tot = N.p_add(tot, N.p_mul({others: c}, N.poly(b)))
                if not prove_zero(tot, ranges + list(zip(vs, dims)), hyps, depth + 1):
                    return False
            return True
    return False


def _cond_of_ind(a, val):
    n = N.nd(a)
    if n.data == 'pos':
        c = T.lt(X.ZERO, n.args[0])
    elif n.data == 'eq0':
        c = T.eq(n.args[0], X.ZERO)
    else:
        return None
    return c if val else T.not_(c)


def split_zero(p, inds, ranges, hyps, taken, depth):
    if zero_poly(p):
        return True
    inds = sorted(N.ind_atoms(p))
    if not inds:
        if depth < 2:
            return prove_zero(p, ranges, hyps, depth + 1)
        return False
    a = inds[0]
    for val in (1, 0):
        c = _cond_of_ind(a, val)
        t2 = taken + ([c] if c is not None else [])
        rng = [T.lt(v, d) for v, d in ranges] + [T.le(X.ZERO, v) for v, d in ranges]
        if c is not None and not smt.feasible(hyps + rng + t2, 1000):
            continue
        if not split_zero(N.set_atom(p, a, val), inds, ranges, hyps, t2, depth):
            return False
    return True


def discharge(ob, pc, cheap=False):
    """-> (status, backend, detail); status proved | failed | unknown"""
    hyps = ob.hyps + pc
    if ob.kind == 'true':
        g = ob.got
        if isinstance(g, (bool, np.bool_)):
            if g:
                return 'proved', 'execution', ''
            if pc and not smt.feasible(hyps):
                return 'proved', 'z3', 'path infeasible'
            return 'failed', 'execution', getattr(ob, 'note', '')
        g = X.lift(g)
        idx, rs = generic_index(g.dims)
        node = g.boolfn()(idx)
        if not residual_ok(node):
            return 'unknown', 'engine', 'generic variable escaped'
        p = N.ind_poly(node)
        p = N.simplify_ind(p, rs)
        if N.is_const(p) and N.const_val(p) == 1:
            return 'proved', 'norm', ''
        return _z3goal(('cond', node), hyps, rs)
    got, spec = X.lift(ob.got), X.lift(ob.spec)
    if (any(d.op == 'num' and 1 < d.data <= 8 for d in got.dims)
            and (ob.kind != 'eq' or len(got.dims) == len(spec.dims) and all(X.same_dim(a, b) for a, b in zip(got.dims, spec.dims)))
            and not any(callable(h) for h in hyps)):
        # an axis of known small length: one goal per position
        dims = got.dims if ob.kind == 'eq' else X.bshape(got.dims, spec.dims)
        ax = next((k for k, d in enumerate(dims) if d.op == 'num' and 1 < d.data <= 8), None)
        if ax is not None:
            g2, s2 = X.broadcast_to(got, dims), X.broadcast_to(spec, dims)
            last = None
            for i in range(int(dims[ax].data)):
                sel = (slice(None),) * ax + (i,)
                o2 = Ob(ob.name, ob.kind, g2[sel], s2[sel], ob.hyps, rtol=ob.rtol)
                last = discharge(o2, pc, cheap)
                if last[0] != 'proved':
                    return last
            return last
    if ob.kind == 'eq':
        if len(got.dims) != len(spec.dims) or any(not X.same_dim(a, b) for a, b in zip(got.dims, spec.dims)):
            return 'failed', 'shape', f'shape {got.dims} instead of {spec.dims}'
        dims = got.dims
        fg, fs = got.numfn(), spec.numfn()
    else:
        dims = X.bshape(got.dims, spec.dims)
        fg, fs = X.bfn(got, dims), X.bfn(spec, dims)
    idx, rs = generic_index(dims)
    hyps = [h(idx) if callable(h) else h for h in hyps]
    a, b = fg(idx), fs(idx)
    if not (residual_ok(a) and residual_ok(b)):
        return 'unknown', 'engine', 'generic variable escaped'
    if ob.kind == 'eq' and a is b:
        return 'proved', 'identical terms', ''
    try:
        pa, pb = N.poly(a), N.poly(b)
        d = N.p_add(pa, N.p_scale(pb, -1))
        d = N.simplify_ind(d, rs)
    except N.TooBig:
        return 'unknown', 'norm', 'polynomial too large'
    if ob.kind == 'eq':
        if not d:
            return 'proved', 'norm+z3', ''
        if cheap:
            return 'unknown', 'norm', 'not attempted further: many obligations of this unit fail'
        try:
            if prove_zero(d, rs, hyps):
                return 'proved', 'norm+split', ''
        except (N.TooBig, RecursionError):
            pass
        if len(d) < 400:
            r = _z3goal(('eq', d), hyps, rs, timeout=4000)
            if r[0] == 'proved':
                return r
        return 'failed', 'norm', 'residual: ' + T.show(N.node_of(d))[:600]
    s = N.p_sgn(d)
    if s == '+' or (s == '0+' and ob.kind == 'ge'):
        return 'proved', 'norm(sign)', ''
    if cheap:
        return 'unknown', 'norm', 'not attempted further: many obligations of this unit fail'
    if len(d) > 1:
        # factor out a common factor of known sign
        com = {a: x for a, x in N._content(d).items() if N.sgn(N.nd(a)) == '+' or (ob.kind == 'ge' and N.sgn(N.nd(a)) == '0+' and x > 0)}
        if com:
            q = N._div_mono(d, com)
            s = N.p_sgn(q)
            if s == '+' or (s == '0+' and ob.kind == 'ge'):
                return 'proved', 'norm(sign)', ''
            r = _z3goal((ob.kind, q), hyps, rs, 5000)
            if r[0] == 'proved':
                return r
    return _z3goal((ob.kind, d), hyps, rs)


def _z3goal(goal, hyps, rs, timeout=20000):
    rng = [T.lt(v, d) for v, d in rs] + [T.le(X.ZERO, v) for v, d in rs]
    st, info = smt.prove(goal, hyps + rng, timeout)
    if st == 'proved':
        return 'proved', 'z3', ''
    return ('failed' if st == 'refuted' else 'unknown'), 'z3', st


# ------------------------------------------------------------------ running a case
class Result:
    def __init__(self, case):
        self.case = case
        self.obl = []          # (name, path no, status, backend, detail)
        self.paths = 0
        self.num = []          # numeric runs: (seed, n obligations, mismatches)
        self.unsupported = None
        self.violations = []   # (seed, overrides, (obligation, message, traceback))
        self.suspect = []      # undischarged obligations refuted at VC level without a failing run of the real code
        self.undecided = []    # undischarged obligations that the runs of the real code do not contradict
        self.open = []
        self.skipped = []
        self.time = 0.0
        self.exc = None


def fresh_logic():
    """forget every declared fact (leaf signs, dimension bounds): each case declares its own"""
    N.INTFACTS.clear()
    T.SIGN.clear()
    T.SIGN['pi'] = '+'
    T.INTNAMES.clear()
    X.IVAR_DIM.clear()
    N.clear_memo()


def run_symbolic(case, res):
    fresh_logic()
    ex = Explorer()

    def body():
        E = Env(True)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with case.patch():
                try:
                    case.fn(E)
                except Unsupported as u:
                    # keep what was established, mark the rest undecided
                    E.unsupported = str(u)
                    E.tb = traceback.format_exc(limit=-4)
                except (PathStop,):
                    pass
                except Exception as e:  # noqa
                    c, n = e, 0
                    while c is not None and n < 8 and not isinstance(c, Unsupported):
                        c, n = c.__cause__ or c.__context__, n + 1
                    if isinstance(c, Unsupported):
                        E.unsupported = str(c)
                    else:
                        E.exc = e
                    E.tb = traceback.format_exc(limit=-6)
        return E
    try:
        paths = ex.run(body)
    except Unsupported as u:
        res.unsupported = str(u)
        return
    res.paths = len(paths)
    for k, (pc, E) in enumerate(paths):
        if getattr(E, 'unsupported', None):
            res.unsupported = E.unsupported
            res.utb = E.tb
        if getattr(E, 'exc', None) is not None:
            res.exc = (pc, E.exc, E.tb)
            res.obl.append(('no exception', k, 'failed', 'execution', f'{type(E.exc).__name__}: {E.exc}', pc))
        res.skipped += E.skipped
        for ob in E.obs:
            try:
                st, be, det = discharge(ob, pc, len(res.open) >= 12)
            except Unsupported as u:
                st, be, det = 'unknown', 'engine', str(u)
            except N.TooBig:
                st, be, det = 'unknown', 'norm', 'too big'
            except ValueError as v:
                st, be, det = 'failed', 'shape', str(v)
            res.obl.append((ob.name, k, st, be, det, pc))
            if st != 'proved':
                res.open.append((ob, k, st, pc))


class PathStop(Exception):
    pass


def compare(got, want, kind, rtol, mask=None, wide=False):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if wide and got.shape == want.shape:
        # extreme inputs: leave out positions where floating point over- or underflowed
        with np.errstate(all='ignore'):
            bad = ~np.isfinite(got) | ~np.isfinite(want) | (np.abs(got) < 1e-250) | (np.abs(want) < 1e-250) & (want != 0)
        got = np.where(bad, want, got)
        got = np.where(np.isfinite(got), got, 0.0)
        want = np.where(np.isfinite(want), want, 0.0)
    if mask is not None:
        got, want, mask = np.broadcast_arrays(got, want, mask)
        got = np.where(mask, got, want)
    if kind == 'eq':
        if got.shape != want.shape:
            return f'shape {got.shape} instead of {want.shape}'
        bothbad = ~np.isfinite(got) & ~np.isfinite(want)
        onebad = np.isfinite(got) != np.isfinite(want)
        sc = np.maximum(np.abs(got), np.abs(want))
        fin = sc[np.isfinite(sc)]
        glob = fin.max() if fin.size else 0.0
        with np.errstate(all='ignore'):
            bad = np.abs(got - want) > rtol * sc + 1e-11 * glob
        bad = (bad & ~bothbad & ~onebad) | onebad
        if np.any(bad):
            i = tuple(int(v) for v in np.argwhere(bad)[0]) if bad.ndim else ()
            return f'at index {i}: code gives {float(got[i])!r}, contract says {float(want[i])!r}'
        return None
    got, want = np.broadcast_arrays(got, want)
    with np.errstate(all='ignore'):
        tol = 1e-9 * (np.abs(got) + np.abs(want))
        bad = got < want - tol
    if np.any(bad):
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if bad.ndim else ()
        return f'at index {i}: code gives {float(got[i])!r}, contract needs >= {float(want[i])!r}'
    return None


def run_numeric(case, seed, dims=None, over=None, scal=None, wide=False):
    """run the case on the real code with concrete inputs -> list of (obligation, message), number checked"""
    E = Env(False, seed, dims, over, scal, wide)
    bad = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        np_err = np.seterr(all='ignore')
        try:
            case.fn(E)
        except PathStop:
            pass
        except OverflowError as e:
            if not wide:
                bad.append(('no exception', f'{type(e).__name__}: {e}', traceback.format_exc(limit=-5)))
        except Unsupported as e:  # the contract, not the code
            E.skipped.append(str(e))
        except Exception as e:  # the real code raised
            bad.append(('no exception', f'{type(e).__name__}: {e}', traceback.format_exc(limit=-5)))
        finally:
            np.seterr(**np_err)
    ev = Evaluator(E.leaves, E.scalars, E.funcs)
    n = 0
    for ob in E.obs:
        if ob.kind == 'true':
            g = ob.got
            if isinstance(g, SymTensor):
                g = ev.tensor(g)
            n += 1
            if not np.all(g):
                bad.append((ob.name, 'condition false ' + str(getattr(ob, 'note', '')), ''))
            continue
        try:
            hyp_ok = all(bool(np.all(ev.node(h, [], [], 'b'))) for h in ob.hyps if not callable(h) and not h.free)
        except NotImplementedError:
            hyp_ok = True
        if not hyp_ok:
            continue
        g = ev.tensor(ob.got) if isinstance(ob.got, SymTensor) else ob.got
        w = ev.tensor(ob.spec) if isinstance(ob.spec, SymTensor) else ob.spec
        n += 1
        mask = None
        for h in ob.hyps:
            if callable(h):
                shp = np.broadcast_shapes(np.shape(g), np.shape(w))
                mk = ev.tensor(SymTensor.make([T.num(q) for q in shp], h, 'b'))
                mask = mk if mask is None else mask & mk
        try:
            m = compare(g, w, 'eq' if ob.kind == 'eq' else 'ge', max(ob.rtol or case.rtol or RTOL, 1e-4 if wide else 0), mask, wide)
        except (TypeError, ValueError) as e:
            m = f'not comparable: {e}'
        if m:
            bad.append((ob.name, m, ''))
    return bad, n, E


def model_to_over(m):
    """z3 model (atom id -> value) -> dims, leaf overrides, scalar overrides"""
    if not m:
        return None
    dims, over, scal = {}, {}, {}
    ints = {}
    for k, v in m.items():
        if isinstance(k, tuple):
            continue
        n = N.nd(k)
        if n.op == 'var':
            if n.data[0] == 's' and n.data[1] not in T.INTNAMES:
                scal[n.data[1]] = float(v)
            elif n.data[0] == 's':
                dims[n.data[1]] = max(1, min(int(math.ceil(float(v))), 40))
                ints[k] = Fr(int(math.ceil(float(v))))
            else:
                ints[k] = Fr(int(math.floor(float(v))))

    def iev(n):
        if n.op == 'num':
            return n.data
        if n.id in ints:
            return ints[n.id]
        if n.op == 'add':
            return sum((iev(a) for a in n.args), Fr(0))
        if n.op == 'mul':
            r = Fr(1)
            for a in n.args:
                r *= iev(a)
            return r
        raise KeyError(n)
    for k, v in m.items():
        if isinstance(k, tuple):
            continue
        n = N.nd(k)
        if n.op == 'app' and n.args and all(T.is_int(a) for a in n.args):
            try:
                over.setdefault(n.data, {})[tuple(int(iev(a)) for a in n.args)] = float(v)
            except KeyError:
                continue
    return dims, over, scal


def _models(ob, pc):
    """candidate inputs for an open obligation: models of the path condition, alone and with the negated goal"""
    out = []
    try:
        if pc:
            out.append(model_to_over(smt.path_model(pc)))
        if ob is not None and ob.kind in ('eq', 'ge', 'gt'):
            got, spec = X.lift(ob.got), X.lift(ob.spec)
            dims = X.bshape(got.dims, spec.dims)
            idx, rs = generic_index(dims)
            d = N.p_add(N.poly(X.bfn(got, dims)(idx)), N.p_scale(N.poly(X.bfn(spec, dims)(idx)), -1))
            d = N.simplify_ind(d, rs)
            rng = [T.lt(v, n) for v, n in rs] + [T.le(X.ZERO, v) for v, n in rs]
            inds = sorted(a for a in N.ind_atoms(d) if N.nd(a).data in ('pos', 'eq0'))[:6]
            for a in inds:
                for val in (1, 0):
                    out.append(model_to_over(smt.path_model(pc + rng + [_cond_of_ind(a, val)], 1500)))
            if len(d) < 60:
                st, m = smt.prove((ob.kind, d), [h(idx) if callable(h) else h for h in ob.hyps] + pc + rng, 3000)
                if m:
                    out.append(model_to_over(m))
        elif ob is not None and ob.kind == 'true' and isinstance(ob.got, SymTensor):
            idx, rs = generic_index(ob.got.dims)
            rng = [T.lt(v, n) for v, n in rs] + [T.le(X.ZERO, v) for v, n in rs]
            st, m = smt.prove(('cond', ob.got.boolfn()(idx)), ob.hyps + pc + rng, 3000)
            if m:
                out.append(model_to_over(m))
    except (Unsupported, N.TooBig, ValueError, TypeError, RecursionError, NotImplementedError):
        pass
    return [o for o in out if o]


def _boundaries(ob, E, limit=24):
    """inputs close to where a comparison inside an open obligation changes its outcome: one leaf entry (or scalar) of a concrete run is moved
    to just below and just above the root, everything else stays"""
    seen, out = set(), []
    roots = []
    for q in (ob.got, ob.spec):
        if q is None:
            continue
        t = X.lift(q)
        idx, rs = generic_index(t.dims)
        roots.append((t.boolfn() if t.kind == 'b' else t.snapshot())(tuple(idx)))
    sub = {}
    for r in roots:
        for n in T.subterms(r):
            sub[n.id] = n
    conds = []
    for n in sub.values():
        if n.op in ('lt', 'le', 'eq') and not all(T.is_int(a) for a in n.args):
            conds.append((n.args[0], n.args[1]))
        elif n.op == 'ind' and n.data in ('pos', 'eq0'):
            conds.append((n.args[0], T.num(0)))
    for a, b in conds[:12]:
        e = T.sub(a, b)
        terms = list({m.id: m for m in T.subterms(e)}.values())
        apps = [m for m in terms if m.op == 'app' and m.data in E.leaves and m.args and len(m.args) == E.leaves[m.data].ndim]
        bound = {}
        for m in apps:
            for pos, i in enumerate(m.args):
                if i.op == 'var' and i.data[0] in ('i', 'b'):
                    bound[i.id] = min(bound.get(i.id, 10 ** 9), E.leaves[m.data].shape[pos])
        if any(f not in bound for f in e.free):
            continue
        for pick in (0, 1):
            env = {f: (0 if pick == 0 else n - 1) for f, n in bound.items() if f in e.free}

            def val(leaf=None, at=None, v=None, sc=None):
                L, S = E.leaves, E.scalars
                if leaf is not None:
                    L = dict(L)
                    L[leaf] = L[leaf].copy()
                    L[leaf][at] = v
                if sc is not None:
                    S = {**S, sc: v}
                ev = Evaluator(L, S, E.funcs)
                ev.memo = {}
                with np.errstate(all='ignore'):
                    return float(np.asarray(ev.ev(e, {f: np.asarray(i) for f, i in env.items()}, 0)))
            ev0 = Evaluator(E.leaves, E.scalars, E.funcs)
            ev0.memo = {}
            targets = []
            for m in apps:
                try:
                    at = tuple(int(np.asarray(ev0.ev(i, {f: np.asarray(k) for f, k in env.items()}, 0))) for i in m.args)
                    targets.append((m.data, at, None, float(E.leaves[m.data][at])))
                except Exception:  # noqa
                    continue
            for m in terms:
                if m.op == 'var' and m.data[0] == 's' and m.data[1] in E.scalars and m.data[1] not in T.INTNAMES and m.data[1] != 'pi':
                    targets.append((None, None, m.data[1], float(E.scalars[m.data[1]])))
            for leaf, at, sc, v0 in targets:
                key = (leaf, at, sc, e.id)
                if key in seen or not v0:
                    continue
                seen.add(key)
                g = lambda v: val(leaf, at, v, sc)
                try:
                    vs = sorted(v0 * f for f in np.concatenate([np.geomspace(1e-18, 1e18, 73), np.linspace(0.5, 1.6, 23)]))
                    gs = [g(v) for v in vs]
                    for (x, gx), (y, gy) in zip(zip(vs, gs), zip(vs[1:], gs[1:])):
                        if not (np.isfinite(gx) and np.isfinite(gy)) or gx * gy >= 0:
                            continue
                        for _ in range(50):
                            z = 0.5 * (x + y)
                            gz = g(z)
                            if gz * gx > 0:
                                x = z
                            else:
                                y = z
                        for d in (-1e-2, 1e-2, -1e-3, 1e-3, -0.6, 1.5):
                            v = x * (1 + d)
                            out.append(({leaf: {at: v}}, {}) if leaf is not None else ({}, {sc: v}))
                        break
                except Exception:  # noqa
                    continue
                if len(out) >= limit:
                    return out
    return out


def _holds(ev, pc):
    """do the inputs of this run satisfy the path condition? None if not evaluable"""
    try:
        return all(bool(np.all(ev.node(c, [], [], 'b'))) for c in pc)
    except Exception:  # noqa
        return None


def _vc_differs(ob, ev):
    """the verification condition itself evaluated at concrete leaves: True if got and spec differ"""
    try:
        if ob.kind == 'true':
            g = ob.got
            return not np.all(ev.tensor(g) if isinstance(g, SymTensor) else g)
        g = ev.tensor(X.lift(ob.got))
        w = ev.tensor(X.lift(ob.spec))
        return compare(g, w, 'eq' if ob.kind == 'eq' else 'ge', 1e-6) is not None
    except Exception:  # noqa
        return None


def run_case(case, seed=1, nnum=None, log=None, deep=False):
    res = Result(case)
    t0 = time.time()
    nnum = nnum or case.nnum
    if case.bounded is not True:
        try:
            run_symbolic(case, res)
        except RecursionError:
            res.unsupported = 'recursion limit'
        except Exception as e:  # noqa  -- the engine, not the code: the concrete runs stand in
            res.unsupported = f'engine: {type(e).__name__}: {e}'
            res.utb = traceback.format_exc(limit=-6)
    # numerical run of the same contract on the real code (cross-check, and counterexample search)
    found = []
    runs = []

    def num(seed, **k):
        try:
            bad, n, E = run_numeric(case, seed, **k)
        except NotImplementedError as e:
            res.num.append((seed, 0, f'not evaluable: {e}'))
            return
        res.num.append((seed, n, len(bad)))
        runs.append(E)
        for b in bad:
            found.append((seed, k, b))
    undec = [o for o in res.obl if o[2] != 'proved']
    todo = nnum if not undec and not res.unsupported else max(nnum * 4, 12)
    for j in range(todo):
        num(seed * 1000 + j)
        if len(found) > 3:
            break
    if not found and case.bounded is not True:
        # inputs directed at every feasible path, and at every open obligation
        seen = set()
        for o in res.obl:
            if o[5] and o[1] not in seen and not found:
                seen.add(o[1])
                for mo in _models(None, o[5]):
                    for j in range(2):
                        num(seed * 1000 + 500 + j, dims=mo[0], over=mo[1], scal=mo[2])
        for ob, k, st, pc in res.open[:12]:
            if found:
                break
            for mo in _models(ob, pc):
                num(seed * 1000 + 600, dims=mo[0], over=mo[1], scal=mo[2])
        tb = time.time()
        cands = [o[0] for o in res.open[:8]]
        if res.unsupported and runs and not cands:
            # no verification condition: the comparisons of the contract itself
            cands = [Ob(o.name, o.kind, None, o.spec) for o in runs[0].obs if o.kind in ('eq', 'ge', 'gt') and isinstance(o.spec, SymTensor)][:8]
        for ob in cands:
            if found or time.time() - tb > 15:
                break
            for E in runs[:3]:
                if found or ob.kind not in ('eq', 'ge', 'gt') or not E.seed or time.time() - tb > 15:
                    break
                dims = {n: v for n, v in E.scalars.items() if n in T.INTNAMES}
                try:
                    cand = _boundaries(ob, E)
                except (Unsupported, N.TooBig, ValueError, TypeError, KeyError, RecursionError, NotImplementedError):
                    break
                for over, scal in cand:
                    num(E.seed, dims=dims, over=over, scal=scal)
                    if found or time.time() - tb > 15:
                        break
        if (res.open or res.unsupported) and not found and case.wide:
            for j in range(10):
                num(seed * 1000 + 700 + j, wide=True)
    if not found and res.open:
        evs = [Evaluator(E.leaves, E.scalars, E.funcs) for E in runs[:24]]
        for ob, k, st, pc in res.open:
            cov = [_holds(ev, pc) for ev in evs]
            if True in cov or not pc:
                res.undecided.append((ob.name, k, st, 'runs of the real code on this path agree with the contract'))
            elif any(_vc_differs(ob, ev) for ev in evs[:6]):
                res.suspect.append((ob.name, k, st, 'path condition: ' + ' & '.join(T.show(c)[:200] for c in pc)[:800]))
            else:
                res.undecided.append((ob.name, k, st, 'not refuted at VC level'))
        if res.exc:
            pc = res.exc[0]
            cov = [_holds(ev, pc) for ev in evs]
            if pc and True not in cov:
                res.suspect.append(('no exception', 0, 'failed', str(res.exc[1])))
    elif not found and res.exc:
        evs = [Evaluator(E.leaves, E.scalars, E.funcs) for E in runs[:24]]
        pc = res.exc[0]
        if pc and True not in [_holds(ev, pc) for ev in evs]:
            res.suspect.append(('no exception', 0, 'failed', str(res.exc[1]) + ' on path ' + ' & '.join(T.show(c)[:200] for c in pc)[:600]))
        else:
            res.undecided.append(('no exception', 0, 'failed', 'symbolic execution stopped: ' + str(res.exc[1])))
    res.violations = found
    res.time = time.time() - t0
    return res
