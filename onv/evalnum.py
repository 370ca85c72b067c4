"""Numerical evaluation of terms (vectorised over the free indices) for counterexample search and cross-checks."""
from __future__ import annotations
import numpy as np
import scipy.special
import scipy.integrate
import scipy.interpolate
import scipy.ndimage
from . import terms as T
from . import norm as N
from .terms import Node

FUN = {'exp': np.exp, 'log': np.log, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'abs': np.abs, 'erf': scipy.special.erf,
       'tanh': np.tanh, 'sinh': np.sinh, 'cosh': np.cosh, 'arctan': np.arctan, 'arcsin': np.arcsin, 'arccos': np.arccos,
       'floor': np.floor, 'ceil': np.ceil, 'rint': np.rint, 'gamma': scipy.special.gamma, 'grp': lambda x: x,
       'remainder': np.remainder, 'ceildiv': lambda a, b: np.ceil(a / b)}
FUNCTIONAL = {}


def functional(name):
    def d(f):
        FUNCTIONAL[name] = f
        return f
    return d


@functional('simpsonw')
def _simpsonw(x):
    n = len(x)
    return scipy.integrate.simpson(np.eye(n), x=x, axis=-1)


def _interp_weights(kind):
    def f(x, t, **k):
        n = len(x)
        return scipy.interpolate.interp1d(x, np.eye(n), kind=kind, axis=0, bounds_error=False, fill_value='extrapolate')(t)
    return f


class Evaluator:
    def __init__(self, leaves, scalars, funcs=None):
        """leaves: name -> ndarray; scalars: name -> number (dims included); funcs: name -> callable for uninterpreted functions"""
        self.leaves, self.scalars, self.funcs = leaves, scalars, funcs or {}
        self.wcache = {}

    def dim(self, n):
        return int(round(float(self.ev(n, {}, 0))))

    def tensor(self, t):
        """evaluate a SymTensor fully"""
        dims = [self.dim(d) for d in t.dims]
        vs = [T.ivar(f'ev{k}') for k in range(len(dims))]
        idx = [T.num(0) if d == 1 else v for v, d in zip(vs, dims)]
        node = t.snapshot()(tuple(T.num(0) if (x.op == 'num' and x.data == 1) else v for v, x in zip(vs, t.dims)))
        return self.node(node, vs, dims, t.kind)

    def node(self, node, vs, dims, kind='f'):
        nax = len(dims)
        env = {}
        for k, (v, d) in enumerate(zip(vs, dims)):
            sh = [1] * nax
            sh[k] = d
            env[v.id] = np.arange(d).reshape(sh)
        self.memo = {}
        with np.errstate(all='ignore'):
            r = self.evb(node, env, nax) if kind == 'b' else self.ev(node, env, nax)
        return np.broadcast_to(np.asarray(r), dims).copy()

    def ev(self, n: Node, env, nax):
        key = (n.id, tuple((f, id(env.get(f))) for f in n.free))
        memo = getattr(self, 'memo', None)
        if memo is not None and key in memo:
            return memo[key][0]
        r = self._ev(n, env, nax)
        if memo is not None:
            memo[key] = (r, [env.get(f) for f in n.free])
        return r

    def _ev(self, n, env, nax):
        op = n.op
        if op == 'num':
            return float(n.data)
        if op == 'var':
            if n.data[0] in ('i', 'b'):
                return env[n.id]
            if n.data[1] == 'pi':
                return np.pi
            return self.scalars[n.data[1]]
        if op == 'add':
            r = 0.0
            for a in n.args:
                r = r + self.ev(a, env, nax)
            return r
        if op == 'mul':
            r = 1.0
            for a in n.args:
                r = r * self.ev(a, env, nax)
            return r
        if op == 'pow':
            b = np.asarray(self.ev(n.args[0], env, nax), dtype=float)
            return b ** self.ev(n.args[1], env, nax)
        if op == 'ite':
            c = self.evb(n.args[0], env, nax)
            return np.where(c, self.ev(n.args[1], env, nax), self.ev(n.args[2], env, nax))
        if op == 'ind':
            x = self.ev(n.args[0], env, nax) if n.data in ('pos', 'eq0') else None
            if n.data == 'pos':
                return np.where(x > 0, 1.0, 0.0)
            if n.data == 'eq0':
                return np.where(np.abs(x) < 1e-9, 1.0, 0.0)
            raise NotImplementedError(n.data)
        if op == 'sum':
            e2 = dict(env)
            ks = n.data
            base = nax
            naxn = nax + len(ks)
            for k, a in env.items():
                e2[k] = a.reshape(a.shape + (1,) * len(ks)) if isinstance(a, np.ndarray) else a
            for j, (h, d) in enumerate(zip(ks, n.args[:-1])):
                m = self.dim_env(d, env)
                sh = [1] * naxn
                sh[base + j] = m
                e2[T.bvar(h).id] = np.arange(m).reshape(sh)
            body = self.ev(n.args[-1], e2, naxn)
            full = list(np.shape(body))
            full = [1] * (naxn - len(full)) + full
            body = np.asarray(body).reshape(full)
            tgt = full[:base] + [self.dim_env(d, env) for d in n.args[:-1]]
            body = np.broadcast_to(body, tgt)
            return body.sum(axis=tuple(range(base, naxn)))
        if op == 'app':
            return self.app(n, env, nax)
        if op in ('lt', 'eq', 'and', 'not', 'true', 'exists', 'bapp'):
            return np.where(self.evb(n, env, nax), 1.0, 0.0)
        raise NotImplementedError(op)

    def dim_env(self, d, env):
        v = self.ev(d, {k: a for k, a in env.items()}, 0)
        return int(round(float(np.max(v))))

    def lamvals(self, lam, env, outer_idx):
        """array of the lam body for one assignment of its free variables"""
        m = self.dim_env(lam.args[0], {})
        b = T.bvar(lam.data[0])
        e = {b.id: np.arange(m)}
        for f, v in outer_idx.items():
            e[f] = np.array(v)
        memo, self.memo = getattr(self, 'memo', None), {}
        r = np.broadcast_to(self.ev(lam.args[1], e, 1), (m,)).astype(float)
        self.memo = memo
        return r

    def app(self, n, env, nax):
        name = n.data
        if name in self.leaves:
            arr = self.leaves[name]
            idx = [np.rint(np.asarray(self.ev(a, env, nax), dtype=float)).astype(int) for a in n.args]
            if not idx:
                return arr[()]
            ok = True
            cl = [np.clip(i, 0, s - 1) for i, s in zip(idx, arr.shape)]
            r = arr[tuple(cl)]
            bad = False
            for i, s in zip(idx, arr.shape):
                bad = bad | (i < 0) | (i >= s)
            return np.where(bad, np.nan, r) if np.any(bad) else r
        if any(a.op == 'lam' for a in n.args):
            return self.functional(n, env, nax)
        args = [self.ev(a, env, nax) for a in n.args]
        if name in self.funcs:
            return self.funcs[name](*args)
        if name == 'simpsonu':
            m = int(np.max(args[0]))
            w = scipy.integrate.simpson(np.eye(m), dx=1.0, axis=-1)
            return w[np.rint(args[1]).astype(int)]
        if name == 'gauss1d':
            m = int(np.max(args[0]))

            w = scipy.ndimage.gaussian_filter1d(np.eye(m), float(np.max(args[1])), axis=0)
            i, j = np.broadcast_arrays(np.rint(args[2]).astype(int), np.rint(args[3]).astype(int))
            return w[i, j]
        if name in FUN:
            return FUN[name](*[np.asarray(a, dtype=float) for a in args])
        if name.startswith('const_'):
            return float(name[6:])
        if name.startswith('uninit!'):
            return np.nan
        raise NotImplementedError(f'no value for {name}')

    def functional(self, n, env, nax):
        name = n.data
        lams = [a for a in n.args if a.op == 'lam']
        others = [a for a in n.args if a.op != 'lam']
        free = sorted({f for l in lams for f in l.free})
        vals = [np.asarray(self.ev(a, env, nax), dtype=float) for a in others]
        fv = [np.asarray(env[f]) for f in free]
        allv = np.broadcast_arrays(*vals, *fv) if vals or fv else []
        shape = allv[0].shape if allv else ()
        out = np.empty(shape)
        for pos in np.ndindex(*shape):
            ov = [float(a[pos]) for a in allv[:len(vals)]]
            key0 = tuple(int(a[pos]) for a in allv[len(vals):])
            lk = (tuple(l.id for l in lams), key0)
            lv = self.wcache.get(lk)
            if lv is None:
                lv = [self.lamvals(l, env, dict(zip(free, key0))) for l in lams]
                self.wcache[lk] = lv
            out[pos] = self.fval(name, lk, lv, ov)
        return out

    def fval(self, name, lk, lv, ov):
        if name == 'simpsonw':
            k = ('sw', lk)
            w = self.wcache.get(k)
            if w is None:
                w = self.wcache[k] = _simpsonw(lv[0])
            return w[int(round(ov[0]))]
        if name.startswith('interp'):
            kind = 'linear'
            rest = name[len('interp'):].replace('_strict', '').strip('_')
            if rest:
                kind = rest
            k = ('iw', name, lk, ov[0])
            w = self.wcache.get(k)
            if w is None:
                w = self.wcache[k] = _interp_weights(kind)(lv[0], ov[0])
            return w[int(round(ov[1]))]
        if name == 'amin':
            return lv[0].min()
        if name == 'amax':
            return lv[0].max()
        if name in self.funcs:
            return self.funcs[name](*lv, *ov)
        raise NotImplementedError(name)

    def evb(self, c, env, nax):
        op = c.op
        if op == 'true':
            return np.True_
        if op == 'not':
            return ~np.asarray(self.evb(c.args[0], env, nax), dtype=bool)
        if op == 'and':
            r = np.True_
            for a in c.args:
                r = r & np.asarray(self.evb(a, env, nax), dtype=bool)
            return r
        if op == 'lt':
            return np.asarray(self.ev(c.args[0], env, nax)) < np.asarray(self.ev(c.args[1], env, nax))
        if op == 'eq':
            return np.asarray(self.ev(c.args[0], env, nax)) == np.asarray(self.ev(c.args[1], env, nax))
        if op == 'exists':
            s = T.mk('sum', c.data, (c.args[0], T.ite(c.args[1], T.num(1), T.num(0))))
            return np.asarray(self.ev(s, env, nax)) > 0
        if op == 'bapp':
            f = self.funcs.get(c.data)
            if f is None:
                raise NotImplementedError(c.data)
            return f(*[self.ev(a, env, nax) for a in c.args])
        raise NotImplementedError(op)
