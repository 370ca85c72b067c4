"""numpy / scipy / builtins stand-ins that accept symbolic tensors.

`patched(modules)` replaces the *global names* of the real modules under verification (np, simpson, interp1d, erf,
len, range, ...) for the duration of a symbolic run; the functions of the module are the ones of /repo.
The scipy stand-ins are the assumed contracts of those functions (see EXTERNAL in report.py).
"""
from __future__ import annotations
import builtins
import math
import contextlib
import numbers
import types
import sys
from fractions import Fraction as Fr
import numpy as np
import scipy.integrate
import scipy.interpolate
import scipy.special
import scipy.ndimage
from . import terms as T
from . import norm as N
from . import tensor as X
from .tensor import SymTensor, Unsupported, lift, ZERO, ONEN, is_one, same_dim, dimnode, dimval, GENERICS, SymIter, IVAR_DIM

SYM = {}


def sym(name=None):
    def d(f):
        SYM[name or f.__name__] = f
        return f
    return d


def has_sym(x, depth=0):
    if isinstance(x, (SymTensor, X.MaskSel, X.SymComplex, SymInterp1d)):
        return True
    if depth < 6:
        if isinstance(x, (list, tuple)):
            return any(has_sym(y, depth + 1) for y in x)
        if isinstance(x, dict):
            return any(has_sym(y, depth + 1) for y in x.values())
    return False


# ------------------------------------------------------------------ array creation
def pending():
    return [g for g in GENERICS if g.kind == 'comp' and not g.active and not g.consumed]


def sym_array(x, dtype=None, **kw):
    """np.array on nested sequences of tensors; generic elements of comprehensions are abstracted."""
    if isinstance(x, SymTensor):
        r = x.copy()
        return r.astype(dtype) if dtype is not None else r
    pend = pending()
    levels = []      # lengths per list level
    y = x
    while isinstance(y, (list, tuple)):
        levels.append(len(y))
        if not len(y):
            break
        y = y[0]
    gens = {}
    cand = [k for k, n in enumerate(levels) if n == 1]
    if pend:
        if len(pend) > len(cand):
            # earlier lists may still be pending for another use; take those that occur in the elements
            free = _free_of(x)
            pend2 = [g for g in pend if g.var.id in free]
            if len(pend2) > len(cand):
                raise Unsupported('generic list structure')
            if pend2:
                # single-element loops met on the way fill the remaining levels, latest first
                one = [g for g in pend if is_one(g.dim) and g not in pend2]
                keep = pend2 + one[len(one) - (len(cand) - len(pend2)):]
                pend = [g for g in pend if g in keep]
            else:
                pend = pend[-len(cand):] if cand else []
        if len(cand) > len(pend):
            # prefer outermost levels
            cand = cand[:len(pend)]
        for k, g in zip(cand, pend):
            gens[k] = g

    def build(y, lev):
        if isinstance(y, (list, tuple)):
            if lev in gens:
                g = gens[lev]
                e = build(y[0], lev + 1)
                f = e.snapshot()
                v = g.var

                def fn(idx, f=f, v=v):
                    return T.subst(f(idx[1:]), {v.id: idx[0]})
                return SymTensor.make((g.dim,) + e.dims, fn, e.kind)
            es = [build(z, lev + 1) for z in y]
            if not es:
                return SymTensor.make((T.num(0),), lambda idx: ZERO)
            return stack0(es)
        return lift(y)
    r = build(x, 0)
    for g in gens.values():
        g.consumed = True
    return r.astype(dtype) if dtype is not None else r


def _free_of(x):
    s = set()
    if isinstance(x, SymTensor):
        idx = []
        for d in x.dims:
            idx.append(T.ivar('probe'))
            s |= d.free
        s |= x.snapshot()(tuple(idx)).free
    elif isinstance(x, (list, tuple)):
        for y in x:
            s |= _free_of(y)
    elif isinstance(x, SymInterp1d):
        s |= _free_of(x.x) | _free_of(x.y)
    return s


def stack0(es):
    d0 = es[0].dims
    for e in es:
        if len(e.dims) != len(d0) or any(not same_dim(a, b) for a, b in zip(e.dims, d0)):
            raise ValueError('setting an array element with a sequence: inhomogeneous shape')
    kind = 'b' if all(e.kind == 'b' for e in es) else ('i' if all(e.kind == 'i' for e in es) else 'f')
    fs = [e.snapshot() if kind != 'f' else e.numfn() for e in es]
    n = len(es)

    def fn(idx):
        i = N.canon(idx[0])
        if i.op == 'num':
            return fs[int(i.data)](idx[1:])
        r = fs[-1](idx[1:])
        for k in range(n - 2, -1, -1):
            r = T.ite(T.eq(i, T.num(k)), fs[k](idx[1:]), r)
        return r
    return SymTensor.make((T.num(n),) + tuple(d0), fn, kind)


for _n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'copy'):
    if _n in ('array', 'copy'):
        SYM[_n] = lambda x, dtype=None, **k: sym_array(x, dtype)
    else:
        SYM[_n] = lambda x, dtype=None, **k: (x if isinstance(x, SymTensor) and dtype in (None, float) and x.kind == 'f' else sym_array(x, dtype))


def _shape(s):
    if isinstance(s, (list, tuple)):
        return [dimnode(d) for d in s]
    return [dimnode(s)]


def _full(shape, node, kind='f'):
    return SymTensor.make(_shape(shape), lambda idx: node, kind)


_ucount = [0]


def _empty(shape):
    _ucount[0] += 1
    nm = f'uninit!{_ucount[0]}'
    return SymTensor.make(_shape(shape), lambda idx: T.app(nm, *idx))


@sym()
def zeros(shape, dtype=float, **k):
    if dtype is not None and np.dtype(dtype).kind == 'c':
        return X.SymComplex(_full(shape, ZERO), _full(shape, ZERO))
    return _full(shape, ZERO, _k(dtype))


@sym()
def ones(shape, dtype=float, **k):
    return _full(shape, ONEN, _k(dtype))


def _k(dtype):
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}[np.dtype(dtype).kind] if dtype is not None else 'f'


@sym()
def empty(shape, dtype=float, **k):
    return _empty(shape)


@sym()
def full(shape, fill_value, dtype=None, **k):
    v = lift(fill_value)
    return X.broadcast_to(v, _shape(shape))


@sym()
def zeros_like(a, dtype=None, **k):
    return SymTensor.make(lift(a).dims, lambda idx: ZERO, lift(a).kind if dtype is None else _k(dtype))


@sym()
def ones_like(a, dtype=None, **k):
    return SymTensor.make(lift(a).dims, lambda idx: ONEN, lift(a).kind if dtype is None else _k(dtype))


@sym()
def empty_like(a, dtype=None, **k):
    return _empty([dimval(d) for d in lift(a).dims])


@sym()
def full_like(a, v, dtype=None, **k):
    return X.broadcast_to(lift(v), lift(a).dims)


@sym()
def atleast_1d(*a):
    r = [x if (isinstance(x, SymTensor) and x.dims) else (lift(x) if lift(x).dims else lift(x)[None]) for x in a]
    return r[0] if len(r) == 1 else r


@sym()
def atleast_2d(a):
    a = lift(a)
    return a if a.ndim >= 2 else (a[None, :] if a.ndim == 1 else a[None, None])


@sym()
def arange(*a, **k):
    a = [lift(x) for x in a]
    if len(a) == 1:
        s, e = ZERO, a[0].node()
    elif len(a) == 2:
        s, e = a[0].node(), a[1].node()
    else:
        raise Unsupported('arange with step')
    if not all(x.kind == 'i' for x in a):
        raise Unsupported('float arange')
    return SymTensor.make([N.canon(T.sub(e, s))], lambda idx: T.add(s, idx[0]), 'i')


@sym()
def linspace(start, stop, num=50, endpoint=True, **k):
    a, b = lift(start), lift(stop)
    dims = X.bshape(a.dims, b.dims)
    fa, fb = X.bfn(a, dims), X.bfn(b, dims)
    n = dimnode(num)
    den = T.sub(n, ONEN) if endpoint else n
    return SymTensor.make((n,) + dims, lambda idx: T.add(fa(idx[1:]), T.mul(idx[0], T.div(T.sub(fb(idx[1:]), fa(idx[1:])), den))))


@sym()
def logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    e = linspace(start, stop, num, endpoint)
    return X.ufunc_call('power', (base, e))


@sym()
def geomspace(start, stop, num=50, endpoint=True, **k):
    e = linspace(X.ufunc_call('log', (start,)), X.ufunc_call('log', (stop,)), num, endpoint)
    return X.ufunc_call('exp', (e,))


# ------------------------------------------------------------------ elementwise
@sym()
def where(c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where(cond)')
    c, a, b = lift(c), lift(a), lift(b)
    dims = X.bshape(c.dims, a.dims, b.dims)
    fc, fa, fb = X.bfn(c, dims, 'bool'), X.bfn(a, dims), X.bfn(b, dims)
    if a.kind == 'b' and b.kind == 'b':
        raise Unsupported('where of bools')
    return SymTensor.make(dims, lambda idx: T.ite(fc(idx), fa(idx), fb(idx)))


@sym()
def clip(a, lo=None, hi=None, **k):
    lo = k.get('min', lo)
    hi = k.get('max', hi)
    r = lift(a)
    if lo is not None:
        r = X.ufunc_call('maximum', (r, lo))
    if hi is not None:
        r = X.ufunc_call('minimum', (r, hi))
    return r


@sym()
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = lift(a), lift(b)
    d = X.ufunc_call('absolute', (a - b,))
    return X.ufunc_call('less_equal', (d, atol + rtol * X.ufunc_call('absolute', (b,))))


@sym()
def allclose(a, b, **k):
    return isclose(a, b, **k).all()


@sym()
def array_equal(a, b, **k):
    a, b = lift(a), lift(b)
    if len(a.dims) != len(b.dims):
        return False
    for x, y in zip(a.dims, b.dims):
        if not same_dim(x, y):
            if not (SymTensor.scalar(T.eq(x, y), 'b')):
                return False
            raise Unsupported('array_equal with conditionally equal shapes')
    return (a == b).all()


@sym()
def nan_to_num(a, **k):
    return lift(a).copy()


for _n in list(X.UF) + list(X.UFB) + list(X.UFL) + ['isfinite', 'isnan', 'isinf']:
    SYM[_n] = (lambda nm: lambda *a, **k: _uf(nm, a, k))(_n)


def _uf(nm, a, k):
    out = k.pop('out', None)
    k.pop('dtype', None)
    wh = k.pop('where', None)
    if k:
        raise Unsupported('ufunc options')
    r = X.ufunc_call(nm, a)
    if wh is not None:
        if out is None:
            raise Unsupported('where= without out=')
        r = where(wh, r, out)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
        out[...] = r
        return out
    return r


# ------------------------------------------------------------------ shape
@sym()
def expand_dims(a, axis):
    a = lift(a)
    axes = axis if isinstance(axis, tuple) else (axis,)
    n = a.ndim + len(axes)
    axes = [x % n for x in axes]
    return a[tuple(None if k in axes else slice(None) for k in range(n))]


@sym()
def real(a):
    return a.re if isinstance(a, X.SymComplex) else lift(a)


@sym()
def imag(a):
    return a.im if isinstance(a, X.SymComplex) else lift(a) * 0


@sym()
def squeeze(a, axis=None):
    return lift(a).squeeze(axis)


@sym()
def transpose(a, axes=None):
    return lift(a).transpose(*(axes or ()))


@sym()
def swapaxes(a, x, y):
    return lift(a).swapaxes(x, y)


@sym()
def moveaxis(a, s, d):
    a = lift(a)
    s, d = s % a.ndim, d % a.ndim
    o = [k for k in range(a.ndim) if k != s]
    o.insert(d, s)
    return a.transpose(*o)


@sym()
def reshape(a, shape, **k):
    return lift(a).reshape(shape)


@sym()
def ravel(a):
    return lift(a).ravel()


@sym()
def broadcast_to(a, shape):
    return X.broadcast_to(lift(a), _shape(shape))


@sym()
def shape(a):
    return lift(a).shape


@sym()
def size(a):
    return lift(a).size


@sym()
def ndim(a):
    return lift(a).ndim


@sym()
def tile(a, reps):
    a = lift(a)
    reps = [dimnode(r) for r in (reps if isinstance(reps, (tuple, list)) else (reps,))]
    n = max(len(reps), a.ndim)
    a = a[(None,) * (n - a.ndim)] if n > a.ndim else a
    reps = [ONEN] * (n - len(reps)) + reps
    if all(d.op == 'num' for d in a.dims) and all(r.op == 'num' for r in reps):
        for ax, (d, r) in enumerate(zip(a.dims, reps)):
            a = X.take(a, lift(np.tile(np.arange(int(d.data)), int(r.data))), ax)
        return a
    f = a.snapshot()
    dims = []
    for d, r in zip(a.dims, reps):
        if is_one(d):
            dims.append(r)
        elif is_one(r):
            dims.append(d)
        else:
            raise Unsupported('tile along a non-unit axis')

    def g(idx):
        return f(tuple(ZERO if is_one(d) else i for d, i in zip(a.dims, idx)))
    return SymTensor.make(dims, g, a.kind)


@sym()
def repeat(a, repeats, axis=None):
    a = lift(a)
    if a.ndim == 0:
        a = a[None]
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('repeat without axis')
        axis = 0
    axis %= a.ndim
    r = dimnode(repeats)
    d = a.dims[axis]
    f = a.snapshot()
    if is_one(d):
        dims = a.dims[:axis] + (r,) + a.dims[axis + 1:]
        return SymTensor.make(dims, lambda idx: f(idx[:axis] + (ZERO,) + idx[axis + 1:]), a.kind)
    if is_one(r):
        return a.copy()
    if d.op == 'num' and r.op == 'num':
        return X.take(a, lift(np.repeat(np.arange(int(d.data)), int(r.data))), axis)
    raise Unsupported('repeat along a non-unit axis')


@sym()
def concatenate(arrs, axis=0, **k):
    ts = [lift(a) for a in arrs]
    axis %= ts[0].ndim
    dims = list(ts[0].dims)
    tot = ZERO
    offs = []
    for t in ts:
        if t.ndim != len(dims):
            raise ValueError('all the input arrays must have same number of dimensions')
        for j, (a, b) in enumerate(zip(t.dims, dims)):
            if j != axis and not same_dim(a, b):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        offs.append(tot)
        tot = N.canon(T.add(tot, t.dims[axis]))
    dims[axis] = tot
    fs = [t.numfn() for t in ts]

    def g(idx):
        i = idx[axis]
        r = None
        for t, f, o in reversed(list(zip(ts, fs, offs))):
            loc = N.canon(T.sub(i, o))
            if is_one(t.dims[axis]):
                loc = ZERO
            v = f(idx[:axis] + (loc,) + idx[axis + 1:])
            if r is None:
                r = v
            else:
                r = T.ite(T.lt(i, N.canon(T.add(o, t.dims[axis]))), v, r)
        return r
    return SymTensor.make(dims, g)


@sym()
def append(a, b, axis=None):
    a, b = lift(a), lift(b)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        b = b.ravel() if b.ndim > 1 else (b[None] if b.ndim == 0 else b)
        axis = 0
    return concatenate([a, b], axis)


@sym()
def stack(arrs, axis=0, **k):
    r = sym_array(list(arrs))
    if axis in (0,):
        return r
    return moveaxis(r, 0, axis)


@sym()
def column_stack(arrs):
    return concatenate([lift(a)[:, None] if lift(a).ndim == 1 else lift(a) for a in arrs], axis=1)


@sym()
def vstack(arrs, **k):
    return concatenate([atleast_2d(a) for a in arrs], axis=0)


@sym()
def hstack(arrs, **k):
    return concatenate([atleast_1d(a) for a in arrs], axis=0 if lift(arrs[0]).ndim <= 1 else 1)


@sym()
def meshgrid(*xs, indexing='xy', **k):
    xs = [atleast_1d(x) for x in xs]
    n = len(xs)
    dims = [x.dims[0] for x in xs]
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    od = [dims[o] for o in order]
    out = []
    for k_, x in enumerate(xs):
        pos = order.index(k_)
        f = x.snapshot()
        out.append(SymTensor.make(od, (lambda f, pos: lambda idx: f((idx[pos],)))(f, pos), x.kind))
    return out


@sym()
def outer(a, b):
    a, b = lift(a), lift(b)
    return a[:, None] * b[None, :]


@sym()
def flip(a, axis=None):
    a = lift(a)
    if axis is None:
        return a[tuple(slice(None, None, -1) for _ in a.dims)]
    axis %= a.ndim
    return a[tuple(slice(None, None, -1) if k == axis else slice(None) for k in range(a.ndim))]


# ------------------------------------------------------------------ reductions
@sym('sum')
def _sum(a, axis=None, keepdims=False, **k):
    return X.reduce_sum(lift(a), axis, keepdims)


SYM['nansum'] = _sum


@sym()
def mean(a, axis=None, **k):
    if isinstance(a, X.MaskSel):
        return a.mean()
    return lift(a).mean(axis)


@sym('any')
def _any(a, axis=None, **k):
    return X.reduce_bool(lift(a), axis, True)


@sym('all')
def _all(a, axis=None, **k):
    return X.reduce_bool(lift(a), axis, False)


for _n in ('amin', 'min', 'nanmin'):
    SYM[_n] = lambda a, axis=None, **k: X.reduce_ext(lift(a), axis, 'amin')
for _n in ('amax', 'max', 'nanmax'):
    SYM[_n] = lambda a, axis=None, **k: X.reduce_ext(lift(a), axis, 'amax')


@sym()
def diff(a, n=1, axis=-1):
    a = lift(a)
    axis %= a.ndim
    hi = a[tuple(slice(1, None) if k == axis else slice(None) for k in range(a.ndim))]
    lo = a[tuple(slice(None, -1) if k == axis else slice(None) for k in range(a.ndim))]
    return hi - lo


@sym()
def tensordot(a, b, axes=2):
    a, b = lift(a), lift(b)
    if isinstance(axes, int):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    for x, y in zip(aa, bb):
        if not same_dim(a.dims[x], b.dims[y]):
            raise ValueError('shape-mismatch for sum')
    ka = [k for k in range(a.ndim) if k not in aa]
    kb = [k for k in range(b.ndim) if k not in bb]
    L = 'abcdefghijklmnopqrstuvwxyz'
    la = [None] * a.ndim
    lb = [None] * b.ndim
    c = 0
    for x, y in zip(aa, bb):
        la[x] = lb[y] = L[c]
        c += 1
    for k in ka:
        la[k] = L[c]
        c += 1
    for k in kb:
        lb[k] = L[c]
        c += 1
    return einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join([la[k] for k in ka] + [lb[k] for k in kb]), a, b)


@sym()
def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported('einsum list form')
    spec = spec.replace(' ', '')
    ts = [lift(o) for o in ops]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins, out = spec, None
    ins = ins.split(',')
    # expand ellipsis
    nell = 0
    for i, s in enumerate(ins):
        if '...' in s:
            nell = max(nell, ts[i].ndim - len(s.replace('...', '')))
    ell = 'ABCDEFGH'[:nell]
    for i, s in enumerate(ins):
        if '...' in s:
            m = ts[i].ndim - len(s.replace('...', ''))
            ins[i] = s.replace('...', ell[nell - m:] if m else '')
    if out is None:
        from collections import Counter
        c = Counter(''.join(ins))
        out = ell + ''.join(sorted(x for x in c if c[x] == 1 and x not in ell))
    else:
        out = out.replace('...', ell)
    dim = {}
    for s, t in zip(ins, ts):
        if len(s) != t.ndim:
            raise ValueError('einsum operand has wrong number of dimensions')
        for ch, d in zip(s, t.dims):
            if ch in dim and not is_one(dim[ch]):
                if not same_dim(dim[ch], d) and not is_one(d):
                    raise ValueError('operands could not be broadcast together (einsum)')
            else:
                dim[ch] = d
    summed = [ch for ch in dict.fromkeys(''.join(ins)) if ch not in out]
    fs = [t.numfn() for t in ts]

    def g(idx):
        env = dict(zip(out, idx))
        vs = []
        for ch in summed:
            v = T.fresh_ivar('s')
            IVAR_DIM[v.id] = dim[ch]
            env[ch] = v
            vs.append((v, dim[ch]))
        body = T.mul(*[f(tuple(ZERO if is_one(d) else env[ch] for ch, d in zip(s, t.dims))) for s, t, f in zip(ins, ts, fs)])
        for v, d in reversed(vs):
            if not is_one(d):
                body = T.sum_(v, d, body)
        return body
    return SymTensor.make([dim[ch] for ch in out], g)


@sym()
def dot(a, b, out=None):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tensordot(a, b, axes=([a.ndim - 1], [0 if b.ndim == 1 else b.ndim - 2]))


@sym()
def matmul(a, b):
    a, b = lift(a), lift(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if b.ndim == 1:
        return einsum('...i,i->...', a, b)
    if a.ndim == 1:
        return einsum('i,...ij->...j', a, b)
    return einsum('...ij,...jk->...ik', a, b)


@sym()
def inner(a, b):
    return einsum('...i,...i->...', lift(a), lift(b)) if lift(a).ndim == lift(b).ndim == 1 else _uns('inner')


def _uns(n):
    raise Unsupported(n)


def _prep_x(y, x, axis):
    """x along the integration axis as function (outer idx, j) -> Node"""
    x = lift(x)
    if x.ndim == 1:
        fx = x.numfn()
        if not same_dim(x.dims[0], y.dims[axis]):
            raise ValueError('If given, length of x along axis must be the same as y.')
        return lambda full, j: fx((j,))
    if x.ndim != y.ndim:
        raise ValueError('If given, shape of x must be 1-D or the same as y.')
    if not same_dim(x.dims[axis], y.dims[axis]):
        raise ValueError('If given, length of x along axis must be the same as y.')
    X.bshape(x.dims, y.dims)
    fx = x.numfn()
    ones_ = [is_one(d) for d in x.dims]

    def g(full, j):
        idx = list(full)
        idx[axis] = j
        return fx(tuple(ZERO if (o and k != axis) else i for k, (o, i) in enumerate(zip(ones_, idx))))
    return g


def sym_simpson(y, *args, x=None, dx=1.0, axis=-1, **kw):
    """contract of scipy.integrate.simpson: a linear functional sum_j w_j(x) y_j whose weights depend on x only."""
    if args:
        raise Unsupported('positional simpson arguments')
    y = lift(y)
    axis %= y.ndim
    d = y.dims[axis]
    f = y.numfn()
    gx = _prep_x(y, x, axis) if x is not None else None
    dxn = lift(dx).node() if x is None else None
    if gx is not None and lift(x).ndim == y.ndim:
        odims = X.bshape(lift(x).dims[:axis] + (ONEN,) + lift(x).dims[axis + 1:], y.dims[:axis] + (ONEN,) + y.dims[axis + 1:])
    else:
        odims = y.dims
    yones = [is_one(q) for q in y.dims]

    def g(idx):
        full = list(idx[:axis]) + [None] + list(idx[axis:])

        def body(j):
            fi = list(full)
            fi[axis] = j
            yi = [ZERO if (o and k != axis) else i for k, (o, i) in enumerate(zip(yones, fi))]
            if gx is not None:
                w = T.app('simpsonw', T.lam_fn(d, lambda q: gx(full, q)), j)
            else:
                w = T.mul(dxn, T.app('simpsonu', d, j))
            return T.mul(w, f(tuple(yi)))
        v = T.fresh_ivar('s')
        IVAR_DIM[v.id] = d
        return T.sum_(v, d, body(v))
    return SymTensor.make([q for k, q in enumerate(odims) if k != axis], g)


def sym_trapezoid(y, x=None, dx=1.0, axis=-1, **kw):
    """trapezoidal rule as sum_j w_j y_j, w_0=(x1-x0)/2, w_j=(x_{j+1}-x_{j-1})/2, w_{n-1}=(x_{n-1}-x_{n-2})/2 (n >= 2)"""
    y = lift(y)
    axis %= y.ndim
    d = y.dims[axis]
    X.assume_dim_ge(d, 2)
    f = y.numfn()
    half = T.num(Fr(1, 2))
    last = N.canon(T.add(d, T.num(-1)))
    if x is not None:
        xx = lift(x)
        gx = _prep_x(y, x, axis)
        odims = y.dims if xx.ndim == 1 else X.bshape(xx.dims[:axis] + (ONEN,) + xx.dims[axis + 1:], y.dims[:axis] + (ONEN,) + y.dims[axis + 1:])
    else:
        dxn = lift(dx).node()
        gx = lambda full, j: T.mul(dxn, j)
        odims = y.dims
    yones = [is_one(q) for q in y.dims]

    def g(idx):
        full = list(idx[:axis]) + [None] + list(idx[axis:])
        v = T.fresh_ivar('s')
        IVAR_DIM[v.id] = d
        yi = list(full)
        yi[axis] = v
        yi = [ZERO if (o and k != axis) else i for k, (o, i) in enumerate(zip(yones, yi))]
        up, dn = N.canon(T.add(v, ONEN)), N.canon(T.add(v, T.num(-1)))
        w = T.ite(T.eq(v, ZERO), T.sub(gx(full, ONEN), gx(full, ZERO)),
                  T.ite(T.eq(v, last), T.sub(gx(full, last), gx(full, N.canon(T.add(last, T.num(-1))))), T.sub(gx(full, up), gx(full, dn))))
        return T.sum_(v, d, T.mul(half, w, f(tuple(yi))))
    return SymTensor.make([q for k, q in enumerate(odims) if k != axis], g)


def sym_gauss1d(y, sigma, axis=-1, **kw):
    """contract of scipy.ndimage.gaussian_filter1d: linear along the axis with weights depending on (length, sigma) only"""
    if kw:
        raise Unsupported('gaussian_filter1d options')
    y = lift(y)
    axis %= y.ndim
    d = y.dims[axis]
    f = y.numfn()
    sg = lift(sigma).node()

    def g(idx):
        v = T.fresh_ivar('s')
        IVAR_DIM[v.id] = d
        yi = list(idx)
        yi[axis] = v
        return T.sum_(v, d, T.mul(T.app('gauss1d', d, sg, idx[axis], v), f(tuple(yi))))
    return SymTensor.make(y.dims, g)


SYM['trapezoid'] = sym_trapezoid
SYM['trapz'] = sym_trapezoid


@sym()
def interp(x, xp, fp, left=None, right=None, period=None):
    raise Unsupported('np.interp')


def X_at(q, rest):
    """entry of a fill array (broadcast against the axes that are not interpolated)"""
    if q.ndim == 0:
        return q.node()
    if q.ndim > len(rest):
        raise Unsupported('fill_value of too many axes')
    tail = rest[len(rest) - q.ndim:]
    f = q.numfn()
    return f(tuple(X.ZERO if same_dim(d, T.num(1)) else i for d, i in zip(q.dims, tail)))


class SymInterp1d:
    """contract of scipy.interpolate.interp1d(kind='linear'): value = sum_j H_j(x, xnew) y_j; linear in y, exact at the
    nodes, weights sum to one; outside the range the fill value (or linear extrapolation)."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.x, self.y = lift(x), lift(y)
        if self.x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        self.axis = axis % self.y.ndim
        if not same_dim(self.x.dims[0], self.y.dims[self.axis]):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        self.kind = kind
        self.fill = fill_value
        self.bounds_error = bounds_error
        self.fx = self.x.numfn()
        self.fy = self.y.numfn()

    def __call__(self, xn):
        xn = lift(xn)
        m = xn.ndim
        ax = self.axis
        d = self.x.dims[0]
        ydims = self.y.dims
        fxn = xn.numfn()
        name = 'interp' if self.kind == 'linear' else f'interp_{self.kind}'
        lamx = T.lam_fn(d, lambda q: self.fx((q,)))
        extrap = isinstance(self.fill, str)
        if extrap and self.fill != 'extrapolate':
            raise ValueError('fill_value')
        if not extrap and self.bounds_error in (None, True):
            if self.bounds_error is True or (isinstance(self.fill, float) and self.fill != self.fill):
                # raises outside the range: model as value inside the range
                name = name + '_strict'

        def g(idx):
            t = fxn(idx[ax:ax + m])
            v = T.fresh_ivar('s')
            IVAR_DIM[v.id] = d
            body = T.mul(T.app(name, lamx, t, v), self.fy(idx[:ax] + (v,) + idx[ax + m:]))
            s = T.sum_(v, d, body)
            if extrap or name.endswith('_strict'):
                return s
            fill = self.fill
            if isinstance(fill, tuple):
                rest = idx[:ax] + idx[ax + m:]
                lo, hi = (X_at(lift(q), rest) for q in fill)
            else:
                lo = hi = lift(fill).node()
            a, b = T.app('amin', lamx), T.app('amax', lamx)
            return T.ite(T.lt(t, a), lo, T.ite(T.lt(b, t), hi, s))
        return SymTensor.make(ydims[:ax] + xn.dims + ydims[ax + 1:], g)


def maybe(real, symf):
    def f(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return symf(*a, **k)
        return real(*a, **k)
    f.__name__ = getattr(real, '__name__', 'f')
    f.__wrapped_real__ = real
    return f


class Interp1dFactory:
    def __new__(cls, *a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return SymInterp1d(*a, **k)
        return scipy.interpolate.interp1d(*a, **k)


def _blank(a, k):
    """a small float array about to be filled in: keep it symbolic"""
    if len(a) != 1 or any(n != 'dtype' for n in k):
        return False
    try:
        if np.dtype(k.get('dtype', float)).kind != 'f':
            return False
        sh = a[0] if isinstance(a[0], (tuple, list)) else (a[0],)
        return all(isinstance(d, (int, np.integer)) for d in sh) and 0 < math.prod(int(d) for d in sh) <= 4096
    except TypeError:
        return False


# ------------------------------------------------------------------ np proxy
class NP:
    """stand-in for the numpy module object"""
    blanks = False

    def __getattr__(self, name):
        if name == 'pi':
            return SymTensor.scalar(T.scalar('pi'))
        if name == 'e':
            return SymTensor.scalar(T.app('exp', ONEN))
        if name == 'newaxis':
            return None
        real = getattr(np, name)
        if isinstance(real, types.ModuleType):
            return _Sub(real, name)
        if isinstance(real, type) or not callable(real):
            return real
        s = SYM.get(name)
        keepsym = name in ('log', 'sqrt', 'exp', 'log10', 'sin', 'cos')
        transc = name in X.UF

        def f(*a, **k):
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                if s is None:
                    raise Unsupported(f'np.{name}')
                return s(*a, **k)
            if self.blanks and name in ('zeros', 'empty', 'ones') and _blank(a, k):
                return s(*a, **k)
            if keepsym and len(a) == 1 and isinstance(a[0], numbers.Real) and not k:
                return s(*a)
            if pending() and name in ('array', 'asarray') and a and isinstance(a[0], (list, tuple)):
                return s(*a, **k)
            return real(*a, **k)
        f.__name__ = name
        return f


class _Sub:
    def __init__(self, mod, name):
        self._m, self._n = mod, name

    def __getattr__(self, a):
        real = getattr(self._m, a)
        if callable(real) and not isinstance(real, type):
            def f(*x, **k):
                if any(has_sym(y) for y in x) or any(has_sym(y) for y in k.values()):
                    raise Unsupported(f'np.{self._n}.{a}')
                return real(*x, **k)
            return f
        return real


NPX = NP()


class _NPMod(NP):
    blanks = True


NPMOD = _NPMod()


# ------------------------------------------------------------------ builtins
def s_len(x):
    if isinstance(x, SymTensor):
        if not x.dims:
            raise TypeError('len() of unsized object')
        return dimval(x.dims[0])
    if isinstance(x, SymList):
        return dimval(x.dim)
    if isinstance(x, (list, tuple)) and len(x) == 1:
        for g in pending():
            if g.var.id in _free_of(list(x)):
                return dimval(g.dim)
    return builtins.len(x)


class SymRange:
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.dim = N.canon(T.sub(b, a))

    def __iter__(self):
        fr = sys._getframe(1)
        a = self.a
        return X._GenIter(SymIter(self.dim, lambda v: SymTensor.scalar(T.add(a, v), 'i')), fr, X._is_comp(fr))


class OneRange:
    """a range of exactly one element; a comprehension over it is recorded so that np.array can tell list levels apart"""

    def __init__(self, r):
        self.r = r

    def __iter__(self):
        fr = sys._getframe(1)
        if X.Oracle.cur is not None and X._is_comp(fr):
            v = self.r[0]
            return X._GenIter(SymIter(ONEN, lambda _: v), fr, True)
        return iter(self.r)

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return self.r[i]

    def __reversed__(self):
        return reversed(self.r)

    def __contains__(self, x):
        return x in self.r


def _one_range(r):
    return OneRange(r) if len(r) == 1 and X.Oracle.cur is not None else r


def s_range(*a):
    if not any(isinstance(x, SymTensor) for x in a):
        return _one_range(builtins.range(*a))
    try:
        return _one_range(builtins.range(*[int(x) for x in a]))
    except Unsupported:
        pass
    if len(a) == 1:
        return SymRange(ZERO, lift(a[0]).node())
    if len(a) == 2:
        return SymRange(lift(a[0]).node(), lift(a[1]).node())
    raise Unsupported('range with step')


class _SymZip:
    def __init__(self, dim, item):
        self.dim, self.item = dim, item

    def __iter__(self):
        fr = sys._getframe(1)
        return X._GenIter(SymIter(self.dim, self.item), fr, X._is_comp(fr))


def _symlen_of(x):
    """(dim, getter) for symbolic-length sequences, None for concrete ones"""
    if isinstance(x, SymTensor) and x.dims and x.dims[0].op != 'num':
        return x.dims[0], (lambda v: x[SymTensor.scalar(v, 'i')])
    if isinstance(x, SymRange):
        return x.dim, (lambda v: SymTensor.scalar(T.add(x.a, v), 'i'))
    if isinstance(x, (_SymZip, SymList)):
        return x.dim, x.item
    return None


def _one_generic(x):
    """a concrete list of length one whose element is generic in a pending comprehension variable"""
    if isinstance(x, (list, tuple)) and len(x) == 1:
        fr = _free_of(list(x)) if _safe_free(x) else set()
        for g in pending():
            if g.var.id in fr or g in getattr(_LISTGEN, 'm', {}).get(id(x), ()):
                return g
    return None


class _LISTGEN:
    m = {}


def _safe_free(x):
    try:
        _free_of(list(x))
        return True
    except Exception:
        return False


def s_zip(*seqs, strict=False):
    infos = [_symlen_of(s) for s in seqs]
    if not any(infos):
        return builtins.zip(*seqs, strict=strict)
    dim = [i for i in infos if i][0][0]
    for i, s in zip(infos, seqs):
        if i is None:
            g = _one_generic(s)
            if g is None or not same_dim(g.dim, dim):
                raise Unsupported('zip of symbolic and concrete sequences')
        elif not same_dim(i[0], dim):
            raise Unsupported('zip of different symbolic lengths')

    def item(v):
        out = []
        for i, s in zip(infos, seqs):
            if i is not None:
                out.append(i[1](v))
            else:
                g = _one_generic(s)
                out.append(_subst_obj(s[0], g.var, v))
        return tuple(out)
    return _SymZip(dim, item)


def _subst_obj(o, var, v):
    if isinstance(o, SymTensor):
        f = o.snapshot()
        return SymTensor.make(o.dims, lambda idx: T.subst(f(idx), {var.id: v}), o.kind)
    if isinstance(o, dict):
        return {k: _subst_obj(x, var, v) for k, x in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(_subst_obj(x, var, v) for x in o)
    if isinstance(o, (int, float, str, type(None))):
        return o
    raise Unsupported('generic object in zip')


def s_enumerate(seq, start=0):
    i = _symlen_of(seq)
    if i is None:
        return builtins.enumerate(seq, start)
    return _SymZip(i[0], lambda v: (SymTensor.scalar(T.add(T.num(start), v), 'i'), i[1](v)))


def s_float(x=0.0):
    if isinstance(x, SymTensor):
        return SymTensor.scalar(x.node(), 'f')
    return builtins.float(x)


def s_int(x=0, *a):
    if isinstance(x, SymTensor):
        n = N.canon(x.node())
        if n.op == 'num':
            return int(n.data)
        if x.kind == 'i':
            return x
        raise Unsupported('int() of symbolic real')
    return builtins.int(x, *a)


def s_isinstance(o, c):
    if isinstance(o, SymTensor):
        cs = c if isinstance(c, tuple) else (c,)
        if o.dims:
            return any(k in (np.ndarray, object) for k in cs)
        return any(k in (float, np.floating, numbers.Number, numbers.Real, object) if o.kind == 'f' else k in (int, numbers.Integral, numbers.Number, numbers.Real) for k in cs)
    return builtins.isinstance(o, c)


def s_sum(x, start=0):
    if isinstance(x, SymTensor):
        return X.reduce_sum(x, 0) + start
    if isinstance(x, (list, tuple)) and pending() and _one_generic(x):
        g = _one_generic(x)
        e = lift(x[0])
        f = e.numfn()
        g.consumed = True
        return SymTensor.make(e.dims, lambda idx: T.sum_(g.var, g.dim, f(idx))) + start
    return builtins.sum(x, start)


def s_hasattr(o, name):
    if isinstance(o, SymTensor) and not o.dims and name in ('__len__', '__iter__'):
        return False
    return builtins.hasattr(o, name)


BUILTINS = {'hasattr': s_hasattr, 'len': s_len, 'range': s_range, 'zip': s_zip, 'enumerate': s_enumerate, 'float': s_float, 'int': s_int,
            'isinstance': s_isinstance, 'sum': s_sum}

SCIPY = {
    'simpson': sym_simpson, 'trapezoid': sym_trapezoid,
}


class _Special:
    pass


def _stand_in(obj, name):
    """symbolic-aware replacement for a global of the module under verification (or None to keep it)"""
    if obj is np:
        return NPMOD
    if obj is scipy.interpolate.interp1d:
        return Interp1dFactory
    if obj is scipy.integrate.simpson:
        return maybe(obj, sym_simpson)
    if obj is scipy.ndimage.gaussian_filter1d:
        return maybe(obj, sym_gauss1d)
    if obj is getattr(scipy.integrate, 'trapezoid', None):
        return maybe(obj, sym_trapezoid)
    if isinstance(obj, np.ufunc):
        nm = obj.__name__
        if nm in SYM:
            return maybe(obj, SYM[nm])
        return maybe(obj, lambda *a, **k: _uns(f'ufunc {nm}'))
    if isinstance(obj, types.ModuleType) and obj.__name__.startswith('scipy'):
        return _ScipyMod(obj)
    if isinstance(obj, types.ModuleType) and obj.__name__ == 'math':
        return _Math(obj)
    if callable(obj) and getattr(obj, '__module__', '') and str(getattr(obj, '__module__', '')).startswith('numpy') \
            and not isinstance(obj, type):
        nm = obj.__name__
        return maybe(obj, SYM[nm]) if nm in SYM else None
    return None


class _ScipyMod:
    def __init__(self, m):
        self._m = m

    def __getattr__(self, a):
        real = getattr(self._m, a)
        s = _stand_in(real, a)
        return real if s is None else s


class _Math:
    def __init__(self, m):
        self._m = m

    def __getattr__(self, a):
        if a == 'pi':
            return NPX.pi
        real = getattr(self._m, a)
        nm = {'fabs': 'absolute', 'pow': 'power'}.get(a, a)
        if callable(real) and nm in SYM:
            s = SYM[nm]
            keep = nm in ('log', 'sqrt', 'exp', 'log10', 'sin', 'cos')
            return lambda *x: s(*x) if keep or any(has_sym(y) for y in x) else real(*x)
        return real


@contextlib.contextmanager
def patched(modules, extra=None):
    """modules: module objects whose globals are patched; extra: {module: {name: value}}"""
    saved = []
    try:
        for m in modules:
            g = m.__dict__
            for k in list(g):
                if k.startswith('__'):
                    continue
                r = _stand_in(g[k], k)
                if r is not None:
                    saved.append((g, k, True, g[k]))
                    g[k] = r
            for k, f in BUILTINS.items():
                if k not in g:
                    saved.append((g, k, False, None))
                    g[k] = f
            for k, v in (extra or {}).get(m, {}).items():
                saved.append((g, k, k in g, g.get(k)))
                g[k] = v
        yield
    finally:
        for g, k, had, v in reversed(saved):
            if had:
                g[k] = v
            else:
                g.pop(k, None)


# ------------------------------------------------------------------ contracts on external objects
def ufun(E, name, numeric=None, sign=None):
    """external scalar function known only by its name: uninterpreted symbolically, `numeric` in concrete runs"""
    numeric = numeric or mixer(name)
    E.fun(name, numeric)
    if sign:
        E.sign(name, sign)

    def f(*args):
        if E.sym or any(isinstance(a, SymTensor) for a in args):
            return uapp(name, *args)
        return numeric(*args)
    return f


def uapp(name, *args):
    ts = [lift(a) for a in args]
    dims = X.bshape(*[t.dims for t in ts])
    fs = [X.bfn(t, dims) for t in ts]
    return SymTensor.make(dims, lambda idx: T.app(name, *[g(idx) for g in fs]))


def mixer(name):
    """a positive function of all its arguments, different for every name"""
    import zlib
    c = (zlib.crc32(name.encode()) % 1000) / 500.0

    def f(*args):
        s = c
        for k, a in enumerate(args):
            s = s + math.sqrt(2.0 + 3 * k + 0.37 * c) * np.arcsinh(np.asarray(a, dtype=float))
        return 1.6 + np.sin(s)
    return f


class SymList:
    """a read-only Python list of symbolic length, element i given by item(i)"""

    def __init__(self, dim, item):
        self.dim, self.item = X.dimnode(dim), item

    def __iter__(self):
        fr = sys._getframe(1)
        return X._GenIter(SymIter(self.dim, self.item), fr, X._is_comp(fr))

    def __getitem__(self, i):
        if isinstance(i, int) and i >= 0:
            return self.item(T.num(i))
        if isinstance(i, int):
            return self.item(T.add(self.dim, T.num(i)))
        if isinstance(i, SymTensor):
            return self.item(i.node())
        raise Unsupported('slice of a symbolic list')
