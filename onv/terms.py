"""Hash-consed term language of the verification conditions.

Sorts: reals (dims and indices are integer-valued reals) and booleans.
ops: num, var, app, add, mul, pow, ite, sum, lam, and the boolean ops
     lt, eq, and, or, not, true, exists, bapp.
Binders are alpha-canonical: the binder of a sum/lam/exists of height h is the variable ('b', h),
where h is one more than the greatest binder height inside the body.
"""
from __future__ import annotations
import math
from fractions import Fraction as Fr

_table: dict = {}
_nodes: list = []


class Node:
    __slots__ = ('op', 'data', 'args', 'id', 'free', 'h')

    def __repr__(self):
        return show(self)


def mk(op, data=None, args=()):
    key = (op, data, tuple(a.id for a in args))
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.op, n.data, n.args = op, data, tuple(args)
    n.id = len(_nodes)
    if op == 'var':
        n.free = frozenset([n.id]) if data[0] in ('i', 'b') else frozenset()
        n.h = 0
    else:
        fr = frozenset()
        h = 0
        for a in args:
            if a.free:
                fr = fr | a.free if fr else a.free
            if a.h > h:
                h = a.h
        if op in ('sum', 'exists', 'lam'):
            # data = heights of the binders; the last arg is the body, the others are dims
            fr = fr - frozenset(bvar(k).id for k in data)
            h = max(h, max(data))
        n.free, n.h = fr, h
    _table[key] = n
    _nodes.append(n)
    return n


# ---------------------------------------------------------------- numbers
_KNOWN = {}


def _ulp_eq(a, b, k=4):
    return abs(a - b) <= k * math.ulp(max(abs(a), abs(b), 5e-324))


def frac_of_float(f: float) -> Fr:
    if f != f or f in (math.inf, -math.inf):
        raise ValueError('non-finite constant')
    if f == int(f) and abs(f) < 2**63:
        return Fr(int(f))
    s = repr(f)
    digs = s.lower().split('e')[0].replace('.', '').replace('-', '').strip('0')
    if len(digs) <= 14:
        return Fr(s)
    for d in (1000, 1000000):
        r = Fr(f).limit_denominator(d)
        if r != 0 and _ulp_eq(float(r), f):
            return r
    # accumulated decimal noise, e.g. 0.30000000000000004
    r = Fr('%.14g' % f)
    if _ulp_eq(float(r), f):
        return r
    return Fr(f)


def num(c) -> Node:
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        k = _known_const(c)
        if k is not None:
            return k
        c = frac_of_float(c)
    if not isinstance(c, Fr):
        c = Fr(int(c)) if hasattr(c, '__index__') else frac_of_float(float(c))
    return mk('num', c)


def _known_const(f):
    """Recognise floats that are roundings of log(10), pi, ... and keep them symbolic."""
    if not _KNOWN:
        ten = mk('num', Fr(10))
        two = mk('num', Fr(2))
        L10 = app('log', ten)
        L2 = app('log', two)
        pi = scalar('pi')
        half = mk('num', Fr(1, 2))
        cands = [(math.log(10), L10), (1 / math.log(10), pow_(L10, num(-1))), (math.log(2), L2),
                 (math.pi, pi), (2 * math.pi, mul(two, pi)), (4 * math.pi, mul(num(4), pi)),
                 (math.pi / 2, mul(half, pi)), (1 / math.pi, pow_(pi, num(-1))),
                 (math.sqrt(2 * math.pi), pow_(mul(two, pi), half)), (math.sqrt(math.pi), pow_(pi, half)),
                 (math.sqrt(2), pow_(two, half)), (1 / math.sqrt(2), pow_(two, num(Fr(-1, 2)))),
                 (math.pi ** 2, pow_(pi, two)), (2 * math.pi ** 2, mul(two, pow_(pi, two))),
                 (math.log10(math.e), pow_(L10, num(-1)))]
        for v, n in cands:
            _KNOWN[v] = n
    if f in _KNOWN:
        return _KNOWN[f]
    if -f in _KNOWN:
        return mul(num(-1), _KNOWN[-f])
    return None


# ---------------------------------------------------------------- constructors
SIGN = {}      # leaf/app/scalar name -> '+', '0+', '-' ; declared facts about external values
INTNAMES = set()  # names of integer scalars (dims)


def scalar(name, sign=None, integer=False):
    if sign:
        SIGN[name] = sign
    if integer:
        INTNAMES.add(name)
    return mk('var', ('s', name))


SIGN['pi'] = '+'


def ivar(name):
    return mk('var', ('i', name))


def bvar(h):
    return mk('var', ('b', h))


def app(name, *args):
    return mk('app', name, args)


def add(*args):
    out = []
    c = Fr(0)
    for a in args:
        if a.op == 'num':
            c += a.data
        elif a.op == 'add':
            out.extend(a.args)
        else:
            out.append(a)
    if c != 0 or not out:
        out.append(mk('num', c))
    return out[0] if len(out) == 1 else mk('add', None, out)


def mul(*args):
    out = []
    c = Fr(1)
    for a in args:
        if a.op == 'num':
            c *= a.data
        elif a.op == 'mul':
            out.extend(a.args)
        else:
            out.append(a)
    cc = Fr(1)
    rest = []
    for a in out:
        if a.op == 'num':
            cc *= a.data
        else:
            rest.append(a)
    c *= cc
    if c == 0:
        return mk('num', Fr(0))
    if c != 1 or not rest:
        rest.insert(0, mk('num', c))
    return rest[0] if len(rest) == 1 else mk('mul', None, rest)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def pow_(b, e):
    if e.op == 'num':
        if e.data == 1:
            return b
        if e.data == 0:
            return num(1)
        if b.op == 'num' and e.data.denominator == 1 and not (b.data == 0 and e.data < 0) and abs(e.data) < 4000:
            return mk('num', b.data ** int(e.data))
    return mk('pow', None, (b, e))


def div(a, b):
    return mul(a, pow_(b, num(-1)))


TRUE = mk('true')


def not_(a):
    if a.op == 'not':
        return a.args[0]
    return mk('not', None, (a,))


FALSE = mk('not', None, (TRUE,))


def lt(a, b):
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.data < b.data else FALSE
    return mk('lt', None, (a, b))


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.data == b.data else FALSE
    return mk('eq', None, (a, b))


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        out.extend(x.args if x.op == 'and' else [x])
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', None, out)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk('ite', None, (c, a, b))


_fresh = [0]


def fresh_ivar(tag='i'):
    _fresh[0] += 1
    return ivar(f'{tag}!{_fresh[0]}')


def bind(op, var, dim, body, name=None):
    h = body.h + 1
    # a free ('b', k) with k >= h in the body must not be captured
    for fid in body.free:
        d = _nodes[fid].data
        if d[0] == 'b' and d[1] >= h:
            h = d[1] + 1
    b = subst(body, {var.id: bvar(h)}) if var is not None else body
    return mk(op, (h,), (dim, b))


def sum_(var, dim, body):
    return bind('sum', var, dim, body)


def lam(var, dim, body):
    return bind('lam', var, dim, body)


def exists(var, dim, body):
    return bind('exists', var, dim, body)


def sum_fn(dim, fn):
    v = fresh_ivar('s')
    return sum_(v, dim, fn(v))


def lam_fn(dim, fn):
    v = fresh_ivar('l')
    return lam(v, dim, fn(v))


# ---------------------------------------------------------------- substitution
def rebuild(n, args):
    op = n.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return pow_(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'lt':
        return lt(*args)
    return mk(op, n.data, args)


def subst(n, m, memo=None):
    """m: {free index-var id: Node}. Capture-avoiding: binders are renamed when a replacement mentions them."""
    if not m or not n.free or not any(k in n.free for k in m):
        return n
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op == 'var':
        return m.get(n.id, n)
    if n.op in ('sum', 'lam', 'exists'):
        bound = frozenset(bvar(k).id for k in n.data)
        m2 = {k: v for k, v in m.items() if k not in bound and k in n.free}
        repl_free = set()
        for v in m2.values():
            repl_free |= v.free
        dims = [subst(a, m, memo) for a in n.args[:-1]]
        body = n.args[-1]
        if repl_free & bound:
            # rename binders first
            top = max([body.h, max(n.data)] + [_nodes[f].data[1] for f in repl_free | set(body.free) if _nodes[f].data[0] == 'b'])
            ren = {}
            newh = []
            for j, k in enumerate(n.data):
                newh.append(top + 1 + j)
                ren[bvar(k).id] = bvar(top + 1 + j)
            body = subst(body, ren)
            body = subst(body, m2)
            r = mk(n.op, tuple(newh), (*dims, body))
        else:
            body = subst(body, m2, {} if m2 != m else memo)
            r = mk(n.op, n.data, (*dims, body))
    else:
        r = rebuild(n, [subst(a, m, memo) for a in n.args])
    memo[n.id] = r
    return r


def replace_nodes(n, m, memo=None):
    """Replace whole subterms (by identity; used for scalars and dims)."""
    if memo is None:
        memo = {}
    if n.id in memo:
        return memo[n.id]
    if n.id in m:
        return m[n.id]
    if not n.args:
        return n
    r = rebuild(n, [replace_nodes(a, m, memo) for a in n.args])
    memo[n.id] = r
    return r


def is_int(n):
    if n.op == 'num':
        return n.data.denominator == 1
    if n.op == 'var':
        return n.data[0] in ('i', 'b') or n.data[1] in INTNAMES
    if n.op in ('add', 'mul'):
        return all(is_int(a) for a in n.args)
    if n.op == 'app':
        return n.data in INTNAMES
    return False


def subterms(n, seen=None):
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def show(n, d=0):
    if d > 12:
        return '...'
    s = lambda a: show(a, d + 1)
    if n.op == 'num':
        f = n.data
        if f.denominator == 1 and abs(f) < 10**12:
            return str(f)
        return repr(float(f))
    if n.op == 'var':
        return str(n.data[1]) if n.data[0] != 'b' else f'b{n.data[1]}'
    if n.op == 'app':
        return n.data + '(' + ','.join(s(a) for a in n.args) + ')'
    if n.op == 'add':
        return '(' + ' + '.join(s(a) for a in n.args) + ')'
    if n.op == 'mul':
        return '*'.join(s(a) for a in n.args)
    if n.op == 'pow':
        return f'{s(n.args[0])}^({s(n.args[1])})'
    if n.op in ('sum', 'lam', 'exists'):
        bs = ','.join(f'b{k}<{s(a)}' for k, a in zip(n.data, n.args[:-1]))
        return f'{n.op.upper()}[{bs}]({s(n.args[-1])})'
    if n.op == 'ite':
        return f'if({s(n.args[0])}; {s(n.args[1])}; {s(n.args[2])})'
    if n.op == 'lt':
        return f'{s(n.args[0])} < {s(n.args[1])}'
    if n.op == 'eq':
        return f'{s(n.args[0])} == {s(n.args[1])}'
    return n.op + (f':{n.data}' if n.data is not None else '') + '(' + ','.join(s(a) for a in n.args) + ')'
