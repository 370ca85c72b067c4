"""Symbolic tensors of symbolic shape with numpy semantics (broadcasting, basic indexing, views, in-place writes).

The real code of /repo runs on these objects; an operation outside the modelled subset raises Unsupported, and a
shape error raises the exception numpy raises.
"""
from __future__ import annotations
import sys
import dis
import numbers
from fractions import Fraction as Fr
import numpy as np
from . import terms as T
from . import norm as N
from .terms import Node


class Unsupported(Exception):
    """The engine cannot model this construct: the obligation is undecided (never a violation)."""


class PathAbort(BaseException):
    pass


# ------------------------------------------------------------------ path oracle (set by explore)
class Oracle:
    cur = None


def decide(cond: Node) -> bool:
    """Truth value of a symbolic condition on the current path (forks when both are possible)."""
    p = N.ind_poly(cond)
    p = _ranges(p)
    if N.is_const(p):
        return N.const_val(p) != 0
    if Oracle.cur is None:
        raise Unsupported('symbolic condition outside exploration')
    if T_open(cond):
        raise Unsupported('branch depends on a generic loop element')
    return Oracle.cur.branch(cond, p)


IVAR_DIM = {}      # ivar id -> dim node


def _ranges(p):
    rs = []
    for a in N.ind_atoms(p):
        for f in N.nd(a).free:
            if f in IVAR_DIM:
                rs.append((N.nd(f), IVAR_DIM[f]))
    return N.simplify_ind(p, list(dict.fromkeys(rs))) if rs else p


# ------------------------------------------------------------------ generic iteration
class Generic:
    def __init__(self, var, dim, kind):
        self.var, self.dim, self.kind = var, dim, kind
        self.active = True
        self.consumed = False
        self.written = []   # storages written while active


GENERICS: list = []        # all generics of the current run
LOOPS: list = []           # active generics (innermost last)


def reset_generics():
    GENERICS.clear()
    LOOPS.clear()


def T_open(n):
    """does a condition/term mention a generic loop variable?"""
    ids = {g.var.id for g in GENERICS}
    return bool(ids & set(n.free))


def _is_comp(frame):
    """Is the __iter__ call made for a comprehension (3.12 inlines them)?"""
    if frame.f_code.co_name in ('<listcomp>', '<genexpr>', '<setcomp>', '<dictcomp>'):
        return True
    ins = list(dis.get_instructions(frame.f_code))
    for k, i in enumerate(ins):
        if i.offset == frame.f_lasti:
            j = k + 1
            while j < len(ins) and ins[j].opname in ('CACHE', 'NOP', 'EXTENDED_ARG'):
                j += 1
            if i.opname == 'GET_ITER' and ins[j].opname == 'LOAD_FAST_AND_CLEAR':
                return True
            # generator expression / list(...) call: GET_ITER before CALL
            if i.opname in ('CALL', 'LIST_EXTEND', 'CALL_FUNCTION_EX', 'SET_UPDATE'):
                return True
            if i.opname == 'GET_ITER':
                # genexpr: GET_ITER; CALL
                return ins[j].opname == 'CALL'
            return False
    return False


class SymIter:
    """Iterates a symbolic-length sequence by one generic element."""

    def __init__(self, dim, item, depth=1):
        self.dim, self.item = dim, item

    def __iter__(self):
        fr = sys._getframe(1)
        return _GenIter(self, fr, _is_comp(fr))

    def __len__(self):
        raise Unsupported('len of symbolic sequence')


_MISSING = object()


class _GenIter:
    def __init__(self, seq, frame, comp):
        self.seq, self.frame, self.comp = seq, frame, comp
        self.state = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.state == 0:
            self.state = 1
            v = T.fresh_ivar('g')
            IVAR_DIM[v.id] = self.seq.dim
            g = Generic(v, self.seq.dim, 'comp' if self.comp else 'loop')
            GENERICS.append(g)
            LOOPS.append(g)
            self.g = g
            if not self.comp:
                loc = dict(self.frame.f_locals)
                self.before = loc
                self.lens = {k: len(x) for k, x in loc.items() if isinstance(x, (list, dict, set))}
            return self.seq.item(v)
        self.state = 2
        g = self.g
        g.active = False
        if LOOPS and LOOPS[-1] is g:
            LOOPS.pop()
        elif g in LOOPS:
            LOOPS.remove(g)
        if not self.comp:
            self._close_loop()
        else:
            for st, _ in g.written:
                raise Unsupported('write inside a comprehension')
        raise StopIteration

    def _close_loop(self):
        g = self.g
        after = dict(self.frame.f_locals)
        written = {id(st) for st, _ in g.written}
        grew = 0
        for k, old in self.before.items():
            new = after.get(k, _MISSING)
            if new is not old:
                # rebinding of a variable that existed before the loop: loop-carried unless never read; be conservative
                if isinstance(new, SymTensor) and isinstance(old, SymTensor) and new.st is old.st:
                    continue
                if isinstance(old, (SymIter, _GenIter)):
                    continue
                if _same_loopvar(k, self.frame) or _defined_first(k, self.frame):
                    continue
                raise Unsupported(f'loop-carried variable {k}')
            if k in self.lens and len(new) != self.lens[k]:
                if isinstance(new, list) and len(new) == self.lens[k] + 1:
                    grew += 1
                    if self.lens[k] != 0:
                        raise Unsupported('append to a non-empty list in a symbolic loop')
                else:
                    raise Unsupported('container changed in a symbolic loop')
        if grew > 1:
            raise Unsupported('several lists appended in a symbolic loop')
        if grew == 1:
            g.kind = 'comp'
        for st, axis in dict((id(s), (s, a)) for s, a in g.written).values():
            st.generalise(g, axis)


def _same_loopvar(name, frame):
    # targets of for loops in this frame may be rebound freely
    code = frame.f_code
    ins = list(dis.get_instructions(code))
    for k, i in enumerate(ins):
        if i.opname == 'FOR_ITER':
            j = k + 1
            n = 1
            while j < len(ins) and (ins[j].opname.startswith('STORE_') or ins[j].opname.startswith('UNPACK') or ins[j].opname in ('CACHE',)):
                if ins[j].argval == name or (isinstance(ins[j].argval, tuple) and name in ins[j].argval):
                    return True
                j += 1
    return False


def _defined_first(name, frame):
    """Every iteration of the loop at hand assigns the variable before it reads it, so no value is carried over."""
    ins = list(dis.get_instructions(frame.f_code))
    at = [k for k, i in enumerate(ins) if i.offset == frame.f_lasti and i.opname == 'FOR_ITER']
    if not at:
        return False
    end = ins[at[0]].argval
    for k in range(at[0] + 1, len(ins)):
        i = ins[k]
        if i.offset >= end:
            return False
        names = i.argval if isinstance(i.argval, tuple) else (i.argval,)
        if name in names and ('FAST' in i.opname or 'DEREF' in i.opname or 'NAME' in i.opname or 'GLOBAL' in i.opname):
            if i.opname != 'STORE_FAST':
                return False
            # no jump may skip the assignment
            return not any('JUMP' in j.opname and isinstance(j.argval, int) and j.argval > i.offset for j in ins[at[0] + 1:k])
    return False


# ------------------------------------------------------------------ storage
class Storage:
    def __init__(self, shape, fn, name=None):
        self.shape = tuple(shape)
        self.memo = {}
        self.fn = fn
        self.name = name
        self.writable = True
        self.version = 0
        self.snap_in_loop = []   # (generic, fixed-axes) of reads during loops

    def get(self, idx, fn=None):
        fn = fn or self.fn
        return fn(idx)

    def write(self, region, val):
        """region(idx)-> (cond Node, sub idx tuple); val(sub)->Node"""
        old = self.fn

        def new(idx):
            c, sub = region(idx)
            if c is T.FALSE:
                return old(idx)
            if c is T.TRUE:
                return val(sub)
            return T.ite(c, val(sub), old(idx))
        self.fn = memo_fn(new)
        self.version += 1
        if self.name is not None:
            WRITES.append((self.name, self))

    def generalise(self, g, axis):
        if axis is None:
            raise Unsupported('loop write not indexed by the loop variable')
        for (gg, fixed) in self.snap_in_loop:
            if gg is g and not (axis < len(fixed) and fixed[axis] is g.var):
                raise Unsupported('loop reads an array it writes at another index')
        old = self.fn
        dim = self.shape[axis]

        def new(idx):
            t = old(tuple(idx))
            return T.subst(t, {g.var.id: idx[axis]})
        if N.canon(dim) is not N.canon(g.dim):
            raise Unsupported('partial symbolic loop over an axis')
        self.fn = memo_fn(new)


WRITES: list = []    # writes to leaf (caller-owned) storage


def memo_fn(f):
    m = {}

    def g(idx):
        k = tuple(i.id for i in idx)
        r = m.get(k)
        if r is None:
            r = f(idx)
            m[k] = r
        return r
    return g


ZERO = T.num(0)
ONEN = T.num(1)


def dimnode(d) -> Node:
    if isinstance(d, Node):
        return N.canon(d)
    if isinstance(d, SymTensor):
        return N.canon(d.node())
    if isinstance(d, numbers.Integral) or (hasattr(d, '__index__') and not isinstance(d, np.ndarray)):
        return T.num(int(d))
    raise Unsupported(f'dimension {d!r}')


def dimval(n: Node):
    if n.op == 'num':
        return int(n.data)
    return SymTensor.scalar(n, kind='i')


def same_dim(a, b):
    return a is b or N.canon(a) is N.canon(b)


class SymTensor:
    """view = list per storage axis: ('fix', Node) or ('ax', out_axis, start Node, step int); out axes not mentioned are new/broadcast."""
    __slots__ = ('st', 'dims', 'view', 'kind', '__weakref__')
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, st, dims, view=None, kind='f'):
        self.st = st
        self.dims = tuple(dims)
        self.view = view if view is not None else [('ax', k, ZERO, 1) for k in range(len(st.shape))]
        self.kind = kind

    # ---------------- construction
    @staticmethod
    def make(dims, fn, kind='f', name=None):
        dims = tuple(dimnode(d) for d in dims)
        return SymTensor(Storage(dims, memo_fn(fn), name), dims, None, kind)

    @staticmethod
    def scalar(node, kind='f'):
        return SymTensor.make((), lambda idx: node, kind)

    @staticmethod
    def leaf(name, dims, sign=None, kind='f', owned=True):
        if sign:
            if T.SIGN.get(name) not in (None, sign):
                N.clear_memo()
            T.SIGN[name] = sign
        return SymTensor.make(dims, lambda idx: T.app(name, *idx), kind, name if owned else None)

    # ---------------- access
    def _map(self, view):
        def f(idx):
            out = []
            for v in view:
                if v[0] == 'fix':
                    out.append(v[1])
                else:
                    i = idx[v[1]]
                    s, step = v[2], v[3]
                    if step != 1:
                        i = T.mul(T.num(step), i)
                    out.append(N.canon(T.add(s, i)) if s is not ZERO or step != 1 else i)
            return tuple(out)
        return f

    def snapshot(self):
        """function idx -> Node of the current contents"""
        fn = self.st.fn
        mp = self._map(self.view)
        if LOOPS:
            fixed = [v[1] if v[0] == 'fix' else None for v in self.view]
            for g in LOOPS:
                self.st.snap_in_loop.append((g, fixed))
        return lambda idx: fn(mp(tuple(idx)))

    def at(self, *idx):
        idx = tuple(T.num(i) if isinstance(i, int) else (i.node() if isinstance(i, SymTensor) else i) for i in idx)
        assert len(idx) == len(self.dims), (idx, self.dims)
        idx = tuple(ZERO if (d.op == 'num' and d.data == 1) else i for i, d in zip(idx, self.dims))
        return self.snapshot()(idx)

    def node(self):
        if self.dims and not all(d.op == 'num' and d.data == 1 for d in self.dims):
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.at(*[0] * len(self.dims))

    @property
    def shape(self):
        return tuple(dimval(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        return dimval(N.canon(T.mul(*self.dims))) if self.dims else 1

    @property
    def dtype(self):
        return np.dtype({'f': float, 'i': int, 'b': bool}[self.kind])

    @property
    def T(self):
        return self.transpose()

    @property
    def flags(self):
        raise Unsupported('flags')

    @property
    def value(self):
        return self

    def __len__(self):
        if not self.dims:
            raise TypeError('len() of unsized object')
        d = self.dims[0]
        if d.op == 'num':
            return int(d.data)
        raise Unsupported('len() of symbolic axis')

    def __iter__(self):
        if not self.dims:
            raise TypeError('iteration over a 0-d array')
        d = self.dims[0]
        if d.op == 'num':
            return iter([self[k] for k in range(int(d.data))])
        fr = sys._getframe(1)
        return _GenIter(SymIter(d, lambda v: self[SymTensor.scalar(v, 'i')]), fr, _is_comp(fr))

    def __bool__(self):
        if self.dims and not all(d.op == 'num' and d.data == 1 for d in self.dims):
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        n = self.node()
        if self.kind != 'b':
            n = T.not_(T.eq(n, ZERO))
        return decide(n)

    def __index__(self):
        n = N.canon(self.node())
        if n.op == 'num' and n.data.denominator == 1 and self.kind == 'i':
            return int(n.data)
        raise Unsupported('symbolic value used as a concrete integer')

    def __int__(self):
        n = N.canon(self.node())
        if n.op == 'num':
            return int(n.data)
        raise Unsupported('int() of symbolic value')

    def __float__(self):
        n = N.canon(self.node())
        if n.op == 'num':
            return float(n.data)
        raise Unsupported('float() of symbolic value')

    def __repr__(self):
        return f'Sym{list(self.dims)}'

    def __format__(self, spec):
        # an integer inside a string: its decimal digits if known, a placeholder that names the term otherwise
        if not self.dims and self.kind == 'i' and spec in ('', 'd'):
            n = N.canon(self.node())
            return str(int(n.data)) if n.op == 'num' else f'\u27e6{n.id}\u27e7'
        return repr(self)

    def __str__(self):
        return self.__format__('')

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling')

    # ---------------- numeric node (bools as 0/1)
    def numfn(self):
        f = self.snapshot()
        if self.kind == 'b':
            return lambda idx: T.ite(f(idx), ONEN, ZERO)
        return f

    def boolfn(self):
        f = self.snapshot()
        if self.kind != 'b':
            return lambda idx: T.not_(T.eq(f(idx), ZERO))
        return f

    # ---------------- indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (SymTensor, np.ndarray)) and (k.dtype == bool) and k.ndim > 0 for k in key):
            return None
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n_real > len(self.dims):
            raise IndexError('too many indices for array')
        if Ellipsis in [k for k in key if k is Ellipsis]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (len(self.dims) - n_real) + key[p + 1:]
        else:
            key = key + (slice(None),) * (len(self.dims) - n_real)
        return key

    def _subview(self, key):
        """basic indexing -> (dims, view) or None if advanced"""
        key = self._parse(key)
        if key is None:
            return None
        dims = []
        amap = {}   # my axis -> ('fix', node) | ('ax', new axis, start, step)
        ax = 0
        for k in key:
            if k is None:
                dims.append(ONEN)
                continue
            d = self.dims[ax]
            if isinstance(k, slice):
                s, e, step = norm_slice(k, d)
                if step == 1 and s is ZERO and e is d:
                    amap[ax] = ('ax', len(dims), ZERO, 1)
                    dims.append(d)
                else:
                    amap[ax] = ('ax', len(dims), s, step)
                    dims.append(slice_len(s, e, step))
            else:
                amap[ax] = ('fix', norm_index(k, d))
                if amap[ax][1] is None:
                    return None
            ax += 1
        view = []
        for v in self.view:
            if v[0] == 'fix':
                view.append(v)
                continue
            m = amap[v[1]]
            s0, st0 = v[2], v[3]
            if m[0] == 'fix':
                view.append(('fix', N.canon(T.add(s0, T.mul(T.num(st0), m[1])))))
            else:
                s = N.canon(T.add(s0, T.mul(T.num(st0), m[2])))
                view.append(('ax', m[1], s, st0 * m[3]))
        return dims, view

    def __getitem__(self, key):
        sv = self._subview(key)
        if sv is None:
            return self._advanced(key)
        dims, view = sv
        return SymTensor(self.st, dims, view, self.kind)

    def _advanced(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and isinstance(key[0], SymTensor) and key[0].kind == 'b':
            return MaskSel(self, key[0])
        # single integer-array index among slices
        k2 = []
        pos = None
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (len(self.dims) - n_real) + key[p + 1:]
        key = key + (slice(None),) * (len(self.dims) - sum(1 for k in key if k is not None))
        for i, k in enumerate(key):
            if isinstance(k, (list, np.ndarray, SymTensor)) and not (isinstance(k, SymTensor) and not k.dims):
                if pos is not None:
                    raise Unsupported('several advanced indices')
                pos = i
        if pos is None:
            raise Unsupported('advanced index')
        if any(k is None for k in key):
            raise Unsupported('newaxis with advanced index')
        ind = lift(key[pos])
        base = self[tuple(slice(None) if i == pos else k for i, k in enumerate(key))]
        # axis of base corresponding to pos
        axis = sum(1 for i, k in enumerate(key[:pos]) if isinstance(k, slice))
        return take(base, ind, axis)

    def __setitem__(self, key, val):
        if not self.st.writable:
            raise ValueError('assignment destination is read-only')
        if isinstance(key, SymTensor) and key.kind == 'b' or (isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], SymTensor) and key[0].kind == 'b'):
            mask = key if isinstance(key, SymTensor) else key[0]
            self._mask_write(mask, val)
            return
        if isinstance(key, np.ndarray) and key.dtype == bool:
            self._mask_write(lift(key), val)
            return
        sv = self._subview(key)
        if sv is None:
            return self._scatter(key, val)
        dims, view = sv
        v = lift(val)
        vb = broadcast_to(v, dims, assign=True)
        f = vb.numfn() if self.kind != 'b' else vb.boolfn()
        self._write(dims, view, f)

    def _scatter(self, key, val):
        """assignment through concrete integer index arrays of equal length, element by element"""
        key = key if isinstance(key, tuple) else (key,)
        arrs = [k for k in key if isinstance(k, np.ndarray)]
        if not arrs or len(key) != len(self.dims) or any(k.dtype.kind != 'i' or k.ndim != 1 or k.shape != arrs[0].shape for k in arrs) \
                or not all(isinstance(k, (int, np.integer, np.ndarray)) for k in key) or arrs[0].size > 400:
            raise Unsupported('advanced assignment')
        v = broadcast_to(lift(val), (dimnode(arrs[0].size),), assign=True)
        for q in range(arrs[0].size):
            self[tuple(int(k[q]) if isinstance(k, np.ndarray) else int(k) for k in key)] = v[q]

    def _write(self, dims, view, f):
        def region(idx):
            conds = []
            sub = [ZERO] * len(dims)
            for s, vv in zip(idx, view):
                if vv[0] == 'fix':
                    c = T.eq(s, vv[1])
                    if c is not T.TRUE and N.canon(s) is N.canon(vv[1]):
                        c = T.TRUE
                    conds.append(c)
                else:
                    o, st0, step = vv[1], vv[2], vv[3]
                    if step == 1:
                        i = N.canon(T.sub(s, st0)) if st0 is not ZERO else s
                        d = dims[o]
                        if not (st0 is ZERO and same_dim(d, self._stdim(vv, view))):
                            conds.append(T.le(ZERO, i))
                            conds.append(T.lt(i, d))
                        sub[o] = i
                    elif step == -1:
                        i = N.canon(T.sub(st0, s))
                        conds.append(T.le(ZERO, i))
                        conds.append(T.lt(i, dims[o]))
                        sub[o] = i
                    else:
                        raise Unsupported('strided write')
            return T.and_(*conds), tuple(sub)
        # loop bookkeeping
        for g in LOOPS:
            axis = None
            for a, vv in enumerate(view):
                if vv[0] == 'fix' and vv[1] is g.var:
                    axis = a
            g.written.append((self.st, axis))
        self.st.write(region, f)

    def _stdim(self, vv, view):
        return self.st.shape[view.index(vv)]

    def _mask_write(self, mask, val):
        mb = broadcast_to(mask, self.dims)
        mf = mb.boolfn()
        if isinstance(val, MaskSel):
            if val.mask is not mask:
                raise Unsupported('mask assignment from another mask')
            vf = val.full.numfn()
        else:
            v = lift(val)
            if v.dims and not all(d.op == 'num' and d.data == 1 for d in v.dims):
                raise Unsupported('mask assignment of an array')
            vf0 = v.node()
            vf = lambda idx: vf0
        cur = self.snapshot()
        view = self.view
        if any(v[0] == 'ax' and v[3] != 1 for v in view):
            raise Unsupported('mask write to strided view')
        self._write(self.dims, view, lambda idx: T.ite(mf(idx), vf(idx), cur(idx)))

    # ---------------- arithmetic
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        if method != '__call__':
            raise Unsupported(f'ufunc method {method}')
        kw.pop('dtype', None)
        if kw:
            raise Unsupported(f'ufunc options {list(kw)}')
        r = ufunc_call(ufunc.__name__, inputs)
        if out is not None:
            o = out[0]
            if not isinstance(o, SymTensor):
                raise Unsupported('out= concrete array')
            o[...] = r
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        f = shim.SYM.get(func.__name__)
        if f is None:
            raise Unsupported(f'numpy.{func.__name__}')
        return f(*args, **kwargs)

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array to ndarray')

    def _bin(self, name, other, swap=False):
        if is_complex(other):
            return cbin(name, *((other, self) if swap else (self, other)))
        if isinstance(other, (list, tuple)) or isinstance(other, (numbers.Number, np.ndarray, SymTensor, np.generic)) or hasattr(other, '__array__'):
            return ufunc_call(name, (other, self) if swap else (self, other))
        return NotImplemented

    def __add__(self, o): return self._bin('add', o)
    def __radd__(self, o): return self._bin('add', o, True)
    def __sub__(self, o): return self._bin('subtract', o)
    def __rsub__(self, o): return self._bin('subtract', o, True)
    def __mul__(self, o): return self._repeat(o) if self._repeats(o) else self._bin('multiply', o)
    def __rmul__(self, o): return self._repeat(o) if self._repeats(o) else self._bin('multiply', o, True)

    def _repeats(self, o):
        # a Python list or tuple times an integer is a repetition, not a product
        return type(o) in (list, tuple) and not self.dims and self.kind == 'i'

    def _repeat(self, o):
        if len(o) != 1:
            raise Unsupported('repetition of a list of several elements')
        e = lift(o[0])
        f = e.numfn()
        return SymTensor.make((self.node(),) + e.dims, lambda idx: f(idx[1:]), e.kind)
    def __truediv__(self, o): return self._bin('divide', o)
    def __rtruediv__(self, o): return self._bin('divide', o, True)
    def __pow__(self, o): return self._bin('power', o)
    def __rpow__(self, o): return self._bin('power', o, True)
    def __floordiv__(self, o): return self._bin('floor_divide', o)
    def __rfloordiv__(self, o): return self._bin('floor_divide', o, True)
    def __mod__(self, o): return self._bin('remainder', o)
    def __matmul__(self, o):
        from . import shim
        return shim.SYM['matmul'](self, o)
    def __rmatmul__(self, o):
        from . import shim
        return shim.SYM['matmul'](o, self)
    def __neg__(self): return ufunc_call('negative', (self,))
    def __pos__(self): return self.copy()
    def __abs__(self): return ufunc_call('absolute', (self,))
    def __lt__(self, o): return self._bin('less', o)
    def __le__(self, o): return self._bin('less_equal', o)
    def __gt__(self, o): return self._bin('greater', o)
    def __ge__(self, o): return self._bin('greater_equal', o)
    def __and__(self, o): return self._bin('logical_and', o)
    def __or__(self, o): return self._bin('logical_or', o)
    def __rand__(self, o): return self._bin('logical_and', o)
    def __ror__(self, o): return self._bin('logical_or', o)
    def __invert__(self): return ufunc_call('logical_not', (self,))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = self._bin('equal', o)
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self._bin('not_equal', o)
        return r

    def _inplace(self, name, o):
        if not self.dims and self.st.name is None and False:
            return self._bin(name, o)
        r = ufunc_call(name, (self, o))
        if len(r.dims) != len(self.dims):
            if not self.dims:
                return r        # python scalars rebind
            raise ValueError('non-broadcastable output operand')
        if not self.dims:
            return r
        for a, b in zip(r.dims, self.dims):
            if not same_dim(a, b):
                raise ValueError('non-broadcastable output operand')
        if not self.st.writable:
            raise ValueError('output array is read-only')
        f = r.numfn()
        if any(v[0] == 'ax' and v[3] != 1 for v in self.view):
            raise Unsupported('in-place op on strided view')
        mapped = {v[1] for v in self.view if v[0] == 'ax'}
        for k, d in enumerate(self.dims):
            if k not in mapped and not (d.op == 'num' and d.data == 1):
                raise Unsupported('in-place op on broadcast view')
        self._write(self.dims, self.view, f)
        return self

    def __iadd__(self, o): return self._inplace('add', o)
    def __isub__(self, o): return self._inplace('subtract', o)
    def __imul__(self, o): return self._inplace('multiply', o)
    def __itruediv__(self, o): return self._inplace('divide', o)
    def __ipow__(self, o): return self._inplace('power', o)

    # ---------------- methods
    def copy(self, order=None):
        f = self.snapshot()
        return SymTensor.make(self.dims, f, self.kind)

    def astype(self, dt, copy=True):
        k = np.dtype(dt).kind
        if k == 'f':
            return SymTensor.make(self.dims, self.numfn(), 'f')
        if k == 'b':
            return SymTensor.make(self.dims, self.boolfn(), 'b')
        if k in 'iu' and self.kind in 'ib':
            return SymTensor.make(self.dims, self.numfn(), 'i')
        raise Unsupported(f'astype {dt}')

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = [a % self.ndim for a in axes]
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        inv = {a: i for i, a in enumerate(axes)}
        view = [v if v[0] == 'fix' else ('ax', inv[v[1]], v[2], v[3]) for v in self.view]
        return SymTensor(self.st, [self.dims[a] for a in axes], view, self.kind)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def squeeze(self, axis=None):
        if axis is None:
            from . import smt
            ax = [k for k, d in enumerate(self.dims) if d.op == 'num' and d.data == 1]
            if any(d.op != 'num' and not smt.int_ge(d, 2, N.INTFACTS) for d in self.dims):
                raise Unsupported('squeeze() without axis on symbolic shape')
        else:
            ax = [a % self.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
            for a in ax:
                if not (self.dims[a].op == 'num' and self.dims[a].data == 1):
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        return self[tuple(0 if k in ax else slice(None) for k in range(self.ndim))]

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        dims = [d if isinstance(d, int) and d == -1 else dimnode(d) for d in shape]
        tot = N.canon(T.mul(*self.dims)) if self.dims else ONEN
        if any(isinstance(d, int) for d in dims):
            rest = N.canon(T.div(tot, T.mul(ONEN, *[d for d in dims if not isinstance(d, int)])))
            dims = [rest if isinstance(d, int) else d for d in dims]
        # only insertion/removal of unit axes
        src = [d for d in self.dims if not (d.op == 'num' and d.data == 1)]
        dst = [d for d in dims if not (d.op == 'num' and d.data == 1)]
        if len(src) == len(dst) and all(same_dim(a, b) for a, b in zip(src, dst)):
            key0 = tuple(0 if (d.op == 'num' and d.data == 1) else slice(None) for d in self.dims)
            t = self[key0]
            return t[tuple(None if (d.op == 'num' and d.data == 1) else slice(None) for d in dims)]
        raise Unsupported('reshape')

    def flatten(self, order=None):
        if self.ndim == 1:
            return self.copy()
        return self.reshape(-1)

    def ravel(self, order=None):
        return self.reshape(-1) if self.ndim != 1 else self

    def sum(self, axis=None, keepdims=False, **kw):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        if axis is None:
            return self.sum() / self.size
        return reduce_sum(self, axis, keepdims) / dimval(self.dims[axis % self.ndim])

    def any(self, axis=None, **kw):
        return reduce_bool(self, axis, True)

    def all(self, axis=None, **kw):
        return reduce_bool(self, axis, False)

    def min(self, axis=None, **kw):
        return reduce_ext(self, axis, 'amin')

    def max(self, axis=None, **kw):
        return reduce_ext(self, axis, 'amax')

    def dot(self, o):
        from . import shim
        return shim.SYM['dot'](self, o)

    def item(self):
        return SymTensor.scalar(self.node(), self.kind)

    def tolist(self):
        raise Unsupported('tolist')

    def fill(self, v):
        self[...] = v

    def conj(self):
        return self

    @property
    def real(self):
        return self

    def clip(self, a=None, b=None):
        from . import shim
        return shim.SYM['clip'](self, a, b)

    def repeat(self, n, axis=None):
        from . import shim
        return shim.SYM['repeat'](self, n, axis)


class MaskSel:
    """x[mask] : only usable elementwise and written back through the same mask."""

    def __init__(self, full, mask):
        self.full = full.copy()
        self.mask = mask

    def _un(self, r):
        m = MaskSel.__new__(MaskSel)
        m.full, m.mask = r, self.mask
        return m

    def _o(self, o):
        if isinstance(o, MaskSel):
            if o.mask is not self.mask:
                raise Unsupported('mixing masks')
            return o.full
        o = lift(o)
        if o.dims and not all(d.op == 'num' and d.data == 1 for d in o.dims):
            raise Unsupported('array with masked selection')
        return SymTensor.scalar(o.node(), o.kind)

    def __add__(self, o): return self._un(self.full + self._o(o))
    __radd__ = __add__
    def __mul__(self, o): return self._un(self.full * self._o(o))
    __rmul__ = __mul__
    def __sub__(self, o): return self._un(self.full - self._o(o))
    def __rsub__(self, o): return self._un(self._o(o) - self.full)
    def __truediv__(self, o): return self._un(self.full / self._o(o))
    def __rtruediv__(self, o): return self._un(self._o(o) / self.full)
    def __pow__(self, o): return self._un(self.full ** self._o(o))
    def __rpow__(self, o): return self._un(self._o(o) ** self.full)
    def __neg__(self): return self._un(-self.full)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__' or kw:
            raise Unsupported('masked ufunc')
        return self._un(ufunc_call(ufunc.__name__, tuple(self._o(i) if not isinstance(i, MaskSel) else i.full for i in inputs)))

    def sum(self, axis=None):
        return reduce_sum(self._zero(self.full))

    def mean(self, axis=None):
        return reduce_sum(self._zero(self.full)) / reduce_sum(self._zero(lift(1.0)))

    def _zero(self, x):
        m, x = self.mask, lift(x)
        if len(m.dims) != len(self.full.dims):
            raise Unsupported('mask over leading axes')
        fx, fm = bfn(x, m.dims), m.boolfn()
        return SymTensor.make(m.dims, lambda idx: T.ite(fm(idx), fx(idx), ZERO))

    def __getattr__(self, n):
        raise Unsupported(f'masked selection .{n}')


# ------------------------------------------------------------------ helpers
def norm_index(k, d):
    if isinstance(k, (bool, np.bool_)):
        return None
    if isinstance(k, numbers.Integral):
        k = int(k)
        if d.op == 'num' and not (-int(d.data) <= k < int(d.data)):
            raise IndexError('index out of bounds')
        if k < 0:
            return N.canon(T.add(d, T.num(k)))
        return T.num(k)
    if isinstance(k, SymTensor):
        if k.dims:
            return None
        if k.kind != 'i':
            raise IndexError('only integers, slices are valid indices')
        return N.canon(k.node())
    if isinstance(k, np.ndarray) and k.ndim == 0 and k.dtype.kind in 'iu':
        return norm_index(int(k), d)
    if isinstance(k, (list, np.ndarray)):
        return None
    if hasattr(k, '__index__'):
        return norm_index(k.__index__(), d)
    raise IndexError(f'unsupported index {k!r}')


def _slnode(v, d):
    if isinstance(v, SymTensor):
        n = N.canon(v.node())
        if n.op == 'num':
            return _slnode(int(n.data), d)
        return n
    v = int(v)
    if v < 0:
        return N.canon(T.add(d, T.num(v)))
    return T.num(v)


def norm_slice(k, d):
    step = 1 if k.step is None else int(k.step)
    if d.op == 'num':
        try:
            s, e, st = slice(None if k.start is None else int(k.start), None if k.stop is None else int(k.stop), step).indices(int(d.data))
            if st == 1 and e < s:
                e = s
            return T.num(s), T.num(e), st
        except Unsupported:
            pass
    if step == 1:
        s = ZERO if k.start is None else _slnode(k.start, d)
        e = d if k.stop is None else _slnode(k.stop, d)
        # numpy clips; require the generic (in-range) case
        if e.op == 'num' and d.op != 'num':
            assume_dim_ge(d, int(e.data))
        if s.op == 'num' and d.op != 'num' and int(s.data) > 0:
            assume_dim_ge(d, int(s.data))
        return s, e, 1
    if step == -1 and k.start is None and k.stop is None:
        return N.canon(T.add(d, T.num(-1))), None, -1
    if step > 1 and k.start in (None, 0) and k.stop is None:
        return ZERO, d, step
    raise Unsupported('slice')


def assume_dim_ge(d, n):
    """numpy slicing clips; the symbolic model needs dim >= n, which is a declared precondition of the case."""
    from . import smt
    if not smt.int_ge(d, n, N.INTFACTS):
        raise Unsupported(f'slice may be clipped: {d} >= {n} not known')


def slice_len(s, e, step):
    if step == 1:
        return N.canon(T.sub(e, s))
    if step == -1 and e is None:
        return N.canon(T.add(s, ONEN))
    if e.op == 'num' and s.op == 'num':
        return T.num(len(range(int(s.data), int(e.data), step)))
    T.INTNAMES.add('ceildiv')
    T.SIGN['ceildiv'] = '+'
    return N.canon(T.app('ceildiv', T.sub(e, s), T.num(step)))


def lift(x) -> SymTensor:
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, MaskSel):
        raise Unsupported('masked selection used as an array')
    if isinstance(x, (bool, np.bool_)):
        return SymTensor.scalar(T.TRUE if x else T.FALSE, 'b')
    if isinstance(x, numbers.Integral):
        return SymTensor.scalar(T.num(int(x)), 'i')
    if isinstance(x, numbers.Real) or isinstance(x, np.floating):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            return SymTensor.scalar(T.app('const_' + str(x)), 'f')
        return SymTensor.scalar(T.num(x), 'f')
    if isinstance(x, Fr):
        return SymTensor.scalar(T.num(x), 'f')
    if isinstance(x, Node):
        return SymTensor.scalar(x)
    if isinstance(x, np.ndarray):
        return lift_array(x)
    if isinstance(x, (list, tuple)):
        from . import shim
        return lift(shim.sym_array(x))
    raise Unsupported(f'cannot lift {type(x).__name__}')


def lift_array(a):
    if a.dtype == object:
        raise Unsupported('object array')
    kind = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(a.dtype.kind)
    if kind is None:
        raise Unsupported(f'dtype {a.dtype}')
    a = a.copy()

    def conv(v):
        if kind == 'b':
            return T.TRUE if v else T.FALSE
        return T.num(float(v)) if kind == 'f' else T.num(int(v))

    def fn(idx):
        sub = a
        for pos, i in enumerate(idx):
            if i.op == 'num':
                sub = sub[int(i.data)]
            else:
                c = N.canon(i)
                if c.op == 'num':
                    sub = sub[int(c.data)]
                    continue
                if np.all(sub == sub[:1]):
                    sub = sub[0]
                    continue
                if sub.shape[0] > 64 or pos != len(idx) - 1:
                    # nested symbolic indices: expand
                    if sub.size > 256:
                        raise Unsupported('symbolic index into a concrete array')
                    r = fn_expand(sub, [N.canon(j) for j in idx[pos:]])
                    return r
                r = conv(sub[-1])
                for k in range(sub.shape[0] - 2, -1, -1):
                    r = T.ite(T.eq(c, T.num(k)), conv(sub[k]), r)
                return r
        return conv(sub)

    def fn_expand(sub, idx):
        if not idx:
            return conv(sub)
        i = idx[0]
        if i.op == 'num':
            return fn_expand(sub[int(i.data)], idx[1:])
        r = fn_expand(sub[-1], idx[1:])
        for k in range(sub.shape[0] - 2, -1, -1):
            r = T.ite(T.eq(i, T.num(k)), fn_expand(sub[k], idx[1:]), r)
        return r
    return SymTensor.make([T.num(n) for n in a.shape], fn, kind)


def is_one(d):
    return d.op == 'num' and d.data == 1


def bshape(*dimss):
    n = max((len(d) for d in dimss), default=0)
    out = []
    for k in range(n):
        cur = ONEN
        for d in dimss:
            j = k - (n - len(d))
            if j < 0:
                continue
            x = d[j]
            if is_one(x):
                continue
            if is_one(cur):
                cur = x
            elif not same_dim(cur, x):
                raise ValueError(f'operands could not be broadcast together with shapes {dimss}')
        out.append(cur)
    return tuple(out)


def bfn(t, dims, mode='num'):
    """function on indices of the broadcast shape"""
    f = t.numfn() if mode == 'num' else t.boolfn()
    off = len(dims) - len(t.dims)
    ones = [is_one(d) for d in t.dims]

    def g(idx):
        return f(tuple(ZERO if o else i for o, i in zip(ones, idx[off:])))
    return g


def broadcast_to(t, dims, assign=False):
    dims = tuple(dimnode(d) for d in dims)
    if len(t.dims) > len(dims):
        if assign:
            extra = len(t.dims) - len(dims)
            if all(is_one(d) for d in t.dims[:extra]):
                t = t[(0,) * extra]
            else:
                raise ValueError('could not broadcast input array into shape')
        else:
            raise ValueError('input operand has more dimensions than allowed')
    r = bshape(t.dims, dims)
    for a, b in zip(r, dims):
        if not same_dim(a, b):
            raise ValueError('could not broadcast input array from shape')
    f = bfn(t, dims, 'bool' if t.kind == 'b' else 'num')
    return SymTensor.make(dims, f, t.kind)


def _cmp(op):
    def f(a, b):
        return op(a, b)
    return f


def _log10(a):
    return T.mul(T.app('log', a), T.pow_(T.app('log', T.num(10)), T.num(-1)))


def _trig(nm):
    tab = {'sin': (0, 1, 0, -1), 'cos': (1, 0, -1, 0)}[nm]

    def f(a):
        c = N.canon(a)
        q = None
        if c.op == 'num' and c.data == 0:
            q = Fr(0)
        else:
            r = N.canon(T.mul(a, T.pow_(T.scalar('pi'), T.num(-1))))
            if r.op == 'num':
                q = r.data
        if q is not None and (2 * q).denominator == 1:
            return T.num(tab[int(2 * q) % 4])
        return T.app(nm, a)
    return f


def _heav(x, h):
    return T.ite(T.lt(x, ZERO), ZERO, T.ite(T.lt(ZERO, x), ONEN, h))


UF = {
    'add': (2, T.add), 'subtract': (2, T.sub), 'multiply': (2, T.mul), 'divide': (2, T.div), 'true_divide': (2, T.div),
    'power': (2, T.pow_), 'float_power': (2, T.pow_), 'negative': (1, T.neg), 'positive': (1, lambda a: a),
    'exp': (1, lambda a: T.app('exp', a)), 'log': (1, lambda a: T.app('log', a)), 'log10': (1, _log10),
    'log2': (1, lambda a: T.div(T.app('log', a), T.app('log', T.num(2)))),
    'log1p': (1, lambda a: T.app('log', T.add(ONEN, a))), 'expm1': (1, lambda a: T.add(T.app('exp', a), T.num(-1))),
    'exp2': (1, lambda a: T.pow_(T.num(2), a)),
    'sqrt': (1, lambda a: T.pow_(a, T.num(Fr(1, 2)))), 'cbrt': (1, lambda a: T.pow_(a, T.num(Fr(1, 3)))),
    'square': (1, lambda a: T.mul(a, a)), 'reciprocal': (1, lambda a: T.pow_(a, T.num(-1))),
    'sin': (1, _trig('sin')), 'cos': (1, _trig('cos')), 'tan': (1, lambda a: T.app('tan', a)),
    'arcsin': (1, lambda a: T.app('arcsin', a)), 'arccos': (1, lambda a: T.app('arccos', a)),
    'arctan': (1, lambda a: T.app('arctan', a)), 'sinh': (1, lambda a: T.app('sinh', a)), 'cosh': (1, lambda a: T.app('cosh', a)),
    'tanh': (1, lambda a: T.app('tanh', a)), 'erf': (1, lambda a: T.app('erf', a)), 'erfc': (1, lambda a: T.sub(ONEN, T.app('erf', a))),
    'absolute': (1, lambda a: T.app('abs', a)), 'abs': (1, lambda a: T.app('abs', a)), 'fabs': (1, lambda a: T.app('abs', a)),
    'sign': (1, lambda a: T.ite(T.lt(ZERO, a), ONEN, T.ite(T.lt(a, ZERO), T.num(-1), ZERO))),
    'floor': (1, lambda a: T.app('floor', a)), 'ceil': (1, lambda a: T.app('ceil', a)), 'rint': (1, lambda a: T.app('rint', a)),
    'heaviside': (2, _heav), 'gamma': (1, lambda a: T.app('gamma', a)),
    'minimum': (2, lambda a, b: T.ite(T.lt(a, b), a, b)), 'fmin': (2, lambda a, b: T.ite(T.lt(a, b), a, b)),
    'maximum': (2, lambda a, b: T.ite(T.lt(b, a), a, b)), 'fmax': (2, lambda a, b: T.ite(T.lt(b, a), a, b)),
    'floor_divide': (2, lambda a, b: T.app('floor', T.div(a, b))),
    'remainder': (2, lambda a, b: T.app('remainder', a, b)),
    'deg2rad': (1, lambda a: T.mul(a, T.scalar('pi'), T.num(Fr(1, 180)))),
    'conjugate': (1, lambda a: a),
    'hypot': (2, lambda a, b: T.pow_(T.add(T.mul(a, a), T.mul(b, b)), T.num(Fr(1, 2)))),
}
UFB = {'less': T.lt, 'less_equal': T.le, 'greater': lambda a, b: T.lt(b, a), 'greater_equal': lambda a, b: T.le(b, a),
       'equal': T.eq, 'not_equal': lambda a, b: T.not_(T.eq(a, b))}
UFL = {'logical_and': T.and_, 'logical_or': T.or_, 'logical_not': T.not_, 'bitwise_and': T.and_, 'bitwise_or': T.or_, 'invert': T.not_}
INTPRES = {'add', 'subtract', 'multiply', 'negative', 'absolute', 'minimum', 'maximum', 'floor_divide', 'remainder', 'square', 'positive'}


def is_complex(x):
    return isinstance(x, SymComplex) or isinstance(x, (complex, np.complexfloating)) or isinstance(x, np.ndarray) and x.dtype.kind == 'c'


def _flush(v, ref):
    """a component below one part in 1e15 of the modulus is rounding of the complex power"""
    return 0.0 if abs(v) <= 1e-15 * max(abs(ref), 1e-300) else float(v)


class SymComplex:
    """array of complex numbers: a pair of real symbolic arrays"""
    __array_priority__ = 2000

    def __init__(self, re, im):
        self.re, self.im = lift(re), lift(im)

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            r = abs(x)
            return SymComplex(_flush(x.real, r), _flush(x.imag, r))
        if isinstance(x, np.ndarray) and x.dtype.kind == 'c':
            return SymComplex(x.real.copy(), x.imag.copy())
        t = lift(x)
        return SymComplex(t, t * 0)

    real = property(lambda self: self.re)
    imag = property(lambda self: self.im)
    shape = property(lambda self: self.re.shape)
    dims = property(lambda self: self.re.dims)
    ndim = property(lambda self: self.re.ndim)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__' or kw:
            raise Unsupported('complex ufunc')
        return cufunc(ufunc.__name__, inputs)

    def __getitem__(self, k):
        return SymComplex(self.re[k], self.im[k])

    def __setitem__(self, k, v):
        v = SymComplex.of(v)
        self.re[k] = v.re
        self.im[k] = v.im

    def __add__(self, o): return cbin('add', self, o)
    def __radd__(self, o): return cbin('add', o, self)
    def __sub__(self, o): return cbin('subtract', self, o)
    def __rsub__(self, o): return cbin('subtract', o, self)
    def __mul__(self, o): return cbin('multiply', self, o)
    def __rmul__(self, o): return cbin('multiply', o, self)
    def __truediv__(self, o): return cbin('divide', self, o)
    def __neg__(self): return SymComplex(-self.re, -self.im)

    def __iadd__(self, o):
        o = SymComplex.of(o)
        self.re += o.re
        self.im += o.im
        return self

    def __isub__(self, o):
        o = SymComplex.of(o)
        self.re -= o.re
        self.im -= o.im
        return self

    def __imul__(self, o):
        r = cbin('multiply', self, o)
        self.re[...] = r.re
        self.im[...] = r.im
        return self

    def __abs__(self):
        return cabs(self)

    def conj(self): return SymComplex(self.re, -self.im)
    conjugate = conj

    def copy(self): return SymComplex(self.re.copy(), self.im.copy())

    def sum(self, axis=None, **k): return SymComplex(self.re.sum(axis=axis), self.im.sum(axis=axis))


def _iszero(t):
    if not t.dims:
        return N.canon(t.numfn()(())) is T.num(0)
    f = t.numfn()
    c = N.canon(f(tuple(T.ivar('cz%d' % k) for k in range(len(t.dims)))))
    return c.op == 'num' and c.data == 0


def cabs(z):
    if _iszero(z.im):
        return ufunc_call('absolute', (z.re,))
    if _iszero(z.re):
        return ufunc_call('absolute', (z.im,))
    return (z.re * z.re + z.im * z.im) ** 0.5


def cbin(name, a, b):
    a, b = SymComplex.of(a), SymComplex.of(b)
    if name in ('add', 'subtract'):
        return SymComplex(ufunc_call(name, (a.re, b.re)), ufunc_call(name, (a.im, b.im)))
    if name == 'multiply':
        return SymComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    if name in ('divide', 'true_divide'):
        if _iszero(b.im):
            return SymComplex(a.re / b.re, a.im / b.re)
        d = b.re * b.re + b.im * b.im
        return SymComplex((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)
    raise Unsupported(f'complex {name}')


def cufunc(name, inputs):
    if len(inputs) == 2:
        return cbin(name, *inputs)
    z = SymComplex.of(inputs[0])
    if name in ('absolute', 'abs'):
        return cabs(z)
    if name in ('conjugate', 'conj'):
        return z.conj()
    if name == 'negative':
        return -z
    raise Unsupported(f'complex {name}')


def ufunc_call(name, inputs):
    if any(is_complex(i) for i in inputs):
        return cufunc(name, inputs)
    if any(isinstance(i, MaskSel) for i in inputs):
        m = [i for i in inputs if isinstance(i, MaskSel)][0]
        return m._un(ufunc_call(name, tuple(m._o(i) if not isinstance(i, MaskSel) else i.full for i in inputs)))
    ts = [lift(i) for i in inputs]
    dims = bshape(*[t.dims for t in ts])
    if name in UFL:
        fs = [bfn(t, dims, 'bool') for t in ts]
        op = UFL[name]
        return SymTensor.make(dims, lambda idx: op(*[f(idx) for f in fs]), 'b')
    if name in UFB:
        if name in ('equal', 'not_equal') and all(t.kind == 'b' for t in ts):
            fs = [bfn(t, dims, 'num') for t in ts]
        else:
            fs = [bfn(t, dims) for t in ts]
        op = UFB[name]
        return SymTensor.make(dims, lambda idx: op(*[f(idx) for f in fs]), 'b')
    if name in ('isfinite',):
        return SymTensor.make(dims, lambda idx: T.TRUE, 'b')
    if name in ('isnan', 'isinf'):
        return SymTensor.make(dims, lambda idx: T.FALSE, 'b')
    if name not in UF:
        raise Unsupported(f'ufunc {name}')
    op = UF[name][1]
    fs = [bfn(t, dims) for t in ts]
    kind = 'i' if name in INTPRES and all(t.kind == 'i' for t in ts) else 'f'
    if name == 'power' and all(t.kind == 'i' for t in ts):
        kind = 'i'
    return SymTensor.make(dims, lambda idx: op(*[f(idx) for f in fs]), kind)


def reduce_sum(t, axis=None, keepdims=False):
    t = lift(t)
    if axis is None:
        axes = list(range(t.ndim))
    else:
        axes = sorted(a % t.ndim for a in (axis if isinstance(axis, (tuple, list)) else (axis,)))
    f = t.numfn()
    keep = [k for k in range(t.ndim) if k not in axes]

    def g(idx):
        full = [None] * t.ndim
        for k, i in zip(keep, idx):
            full[k] = i
        vs = []
        for a in axes:
            v = T.fresh_ivar('s')
            IVAR_DIM[v.id] = t.dims[a]
            full[a] = v if not is_one(t.dims[a]) else ZERO
            vs.append((v, t.dims[a]))
        body = f(tuple(full))
        for v, d in reversed(vs):
            if is_one(d):
                continue
            body = T.sum_(v, d, body)
        return body
    r = SymTensor.make([t.dims[k] for k in keep], g)
    if keepdims:
        return r[tuple(None if k in axes else slice(None) for k in range(t.ndim))]
    return r


def reduce_bool(t, axis, any_):
    t = lift(t)
    f = t.boolfn()
    axes = list(range(t.ndim)) if axis is None else sorted(a % t.ndim for a in (axis if isinstance(axis, (tuple, list)) else (axis,)))
    keep = [k for k in range(t.ndim) if k not in axes]

    def g(idx):
        full = [None] * t.ndim
        for k, i in zip(keep, idx):
            full[k] = i
        vs = []
        for a in axes:
            v = T.fresh_ivar('e')
            IVAR_DIM[v.id] = t.dims[a]
            full[a] = v if not is_one(t.dims[a]) else ZERO
            vs.append((v, t.dims[a]))
        body = f(tuple(full))
        if not any_:
            body = T.not_(body)
        for v, d in reversed(vs):
            if is_one(d) or v.id not in body.free:
                continue
            body = T.exists(v, d, body)
        return body if any_ else T.not_(body)
    return SymTensor.make([t.dims[k] for k in keep], g, 'b')


def reduce_ext(t, axis, name):
    t = lift(t)
    if axis is None and t.ndim == 1:
        axis = 0
    if axis is None:
        if t.ndim == 0:
            return t
        raise Unsupported(name)
    axis %= t.ndim
    f = t.numfn()

    def g(idx):
        def body(v):
            full = list(idx)
            full.insert(axis, v)
            return f(tuple(full))
        return T.app(name, T.lam_fn(t.dims[axis], body))
    return SymTensor.make([d for k, d in enumerate(t.dims) if k != axis], g)


def take(t, ind, axis):
    f = t.snapshot()
    g = ind.snapshot()
    n = len(ind.dims)
    dims = t.dims[:axis] + ind.dims + t.dims[axis + 1:]

    def h(idx):
        k = g(idx[axis:axis + n])
        return f(idx[:axis] + (k,) + idx[axis + n:])
    return SymTensor.make(dims, h, t.kind)
