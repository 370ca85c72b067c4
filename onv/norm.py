"""Ring normal form of terms.

A polynomial is a dict {monomial: Fraction}; a monomial a sorted tuple of (atom id, Fraction exponent).
Atoms are canonical nodes that are not ring operations: variables, uninterpreted applications, sums over an
index (linear, with index-free factors pulled out and a canonical order of nested binders), exponentials
of single monomials, indicator functions of conditions, and multi-term polynomials under a power.
Everything here is an identity over the reals (with total division); the assumptions used are the declared
signs of leaves (terms.SIGN) and the algebraic contracts of the external functions listed in RULES.
"""
from __future__ import annotations
from fractions import Fraction as Fr
from itertools import permutations
import math
import sys
from . import terms as T
from .terms import mk, Node

sys.setrecursionlimit(20000)
ONE = Fr(1)
_memo: dict = {}
STATS = {'norm_calls': 0}
MAXTERMS = 60000


class TooBig(Exception):
    pass


def clear_memo():
    """Needed when leaf facts change (a new proof unit declares its leaves)."""
    _memo.clear()
    _sgn_memo.clear()
    _canon_memo.clear()
    _dec_memo.clear()
    _cs_memo.clear()
    from . import smt
    smt._ir.clear()


def nd(i) -> Node:
    return T._nodes[i]


def p_const(c):
    return {(): Fr(c)} if c != 0 else {}


def p_atom(a: Node, e=ONE):
    return {((a.id, Fr(e)),): ONE}


def p_add(*ps):
    r = {}
    for p in ps:
        for m, c in p.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_scale(p, c):
    return {m: v * c for m, v in p.items()} if c != 0 else {}


def _is_ind(a):
    return a.op == 'ind'


def m_mul(m1, m2):
    """Product of two monomials -> (monomial, [atoms to expand])"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    expand = None
    for a, e in m2:
        if a in d:
            n = nd(a)
            if n.op == 'ind':
                continue
            s = d[a] + e
            if s == 0:
                del d[a]
            else:
                d[a] = s
        else:
            d[a] = e
    for a, e in d.items():
        if nd(a).op in ('add', 'num') and e.denominator == 1 and (e > 0 or nd(a).op == 'num'):
            expand = (expand or []) + [a]
    return tuple(sorted(d.items())), expand


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > MAXTERMS:
        raise TooBig()
    r = {}
    extra = None
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, ex = m_mul(m1, m2)
            c = c1 * c2
            if ex:
                # re-expand polynomial atoms whose exponent became a positive integer
                base = {tuple((a, e) for a, e in m if a not in ex): c}
                for a in ex:
                    e = dict(m)[a]
                    n = nd(a)
                    if n.op == 'num':
                        base = p_scale(base, n.data ** int(e))
                    else:
                        base = p_mul(base, p_ipow(poly(n), int(e)))
                extra = p_add(extra or {}, base)
                continue
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if extra:
        r = p_add(r, extra)
    return r


def p_ipow(p, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, p)
    return r


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_val(p):
    return p.get((), Fr(0))


def node_of(p) -> Node:
    """Canonical node of a polynomial."""
    if not p:
        return T.num(0)
    ts = []
    for m in sorted(p):
        c = p[m]
        fs = []
        for a, e in m:
            n = nd(a)
            fs.append(n if e == 1 else mk('pow', None, (n, T.num(e))))
        if not fs:
            ts.append(mk('num', c))
        elif c != 1:
            ts.append(mk('mul', None, (mk('num', c), *fs)))
        elif len(fs) == 1:
            ts.append(fs[0])
        else:
            ts.append(mk('mul', None, tuple(fs)))
    return ts[0] if len(ts) == 1 else mk('add', None, tuple(ts))


_canon_memo = {}


def canon(n: Node) -> Node:
    r = _canon_memo.get(n.id)
    if r is None:
        if n.op == 'lam':
            r = canon_lam(n)
        else:
            r = node_of(poly(n))
        _canon_memo[n.id] = r
    return r


def canon_lam(n):
    dim = canon(n.args[0])
    h = n.data[0]
    body = canon(n.args[1])
    return _rebind('lam', h, dim, body)


def _inner_h(body, h):
    return body.h


def _rebind(op, h, dim, body):
    b = T.bvar(h)
    hh = body.h + 1
    for fid in body.free:
        d = nd(fid).data
        if d[0] == 'b' and d[1] != h and d[1] >= hh:
            hh = d[1] + 1
    if hh != h:
        body = canon(T.subst(body, {b.id: T.bvar(hh)}))
    return mk(op, (hh,), (dim, body))


# ---------------------------------------------------------------- signs
_sgn_memo = {}
POSFACTS = set()   # canonical node ids known positive on the current path


def sgn(n: Node):
    r = _sgn_memo.get(n.id, 0)
    if r == 0:
        if n.id in POSFACTS:
            return '+'
        r = _sgn(n)
        if not POSFACTS:
            _sgn_memo[n.id] = r
    return r


def _sgn(n):
    op = n.op
    if op == 'num':
        return '+' if n.data > 0 else ('-' if n.data < 0 else '0+')
    if op == 'var':
        k, nm = n.data
        if k in ('i', 'b'):
            return '0+'
        return T.SIGN.get(nm)
    if op == 'ind':
        return '0+'
    if op == 'app':
        if n.data == 'exp':
            return '+'
        if n.data == 'log':
            a = n.args[0]
            if a.op == 'num' and a.data > 1:
                return '+'
            return None
        if n.data == 'abs':
            return '0+'
        if n.data in ('erf', 'tanh'):
            return sgn(n.args[0])
        return T.SIGN.get(n.data)
    if op == 'pow':
        s = sgn(n.args[0])
        if s == '+':
            return '+'
        e = n.args[1]
        if e.op == 'num' and e.data.denominator == 1 and e.data % 2 == 0:
            return '0+'
        if e.op == 'num' and s in ('0+', '-') and e.data.denominator == 1:
            return s
        if s == '0+':
            return '0+'
        return None
    if op == 'sum':
        s = sgn(n.args[-1])
        if s == '+' and all(sgn(d) == '+' for d in n.args[:-1]):
            return '+'
        return '0+' if s in ('+', '0+') else None
    if op in ('add', 'mul'):
        r = p_sgn(poly(n))
        if r is None and op == 'add' and T.is_int(n):
            from . import smt
            if smt.int_ge(n, 1, INTFACTS):
                return '+'
            if smt.int_ge(n, 0, INTFACTS):
                return '0+'
        return r
    if op == 'ite':
        a, b = sgn(n.args[1]), sgn(n.args[2])
        if a == b:
            return a
        if {a, b} == {'+', '0+'}:
            return '0+'
    return None


def m_sgn(m, c):
    s = '+' if c > 0 else '-'
    for a, e in m:
        t = sgn(nd(a))
        if e.denominator == 1 and e % 2 == 0:
            t = '+' if t in ('+', '-') else '0+'
        if t is None:
            return None
        if t == '0+':
            s = {'+': '0+', '0+': '0+', '-': '0-', '0-': '0-'}[s]
        elif t == '-':
            s = {'+': '-', '0+': '0-', '-': '+', '0-': '0+'}[s]
    return s


def p_sgn(p):
    if not p:
        return '0+'
    ss = {m_sgn(m, c) for m, c in p.items()}
    if None in ss:
        return None
    if ss <= {'+', '0+'}:
        return '+' if '+' in ss else '0+'
    if ss <= {'-', '0-'}:
        return '-' if '-' in ss else '0-'
    return None


# ---------------------------------------------------------------- main
def poly(n: Node):
    r = _memo.get(n.id)
    if r is None:
        STATS['norm_calls'] += 1
        r = _poly(n)
        _memo[n.id] = r
    return r


def _poly(n):
    op = n.op
    if op == 'num':
        return p_const(n.data)
    if op == 'var':
        return p_atom(n)
    if op == 'ind':
        # re-evaluate: a substitution may have made the condition decidable
        if n.data == 'pos':
            return pos_poly(poly(n.args[0]))
        if n.data == 'eq0':
            return lift([poly(n.args[0])], _eq0)
        return _ind(n.data, *[canon(a) for a in n.args])
    if op == 'add':
        return p_add(*[poly(a) for a in n.args])
    if op == 'mul':
        r = p_const(1)
        for a in n.args:
            r = p_mul(r, poly(a))
        return r
    if op == 'pow':
        return pow_poly(poly(n.args[0]), poly(n.args[1]))
    if op == 'ite':
        c = ind_poly(n.args[0])
        a, b = poly(n.args[1]), poly(n.args[2])
        return p_add(b, p_mul(c, p_add(a, p_scale(b, -1))))
    if op == 'sum':
        return sum_poly(n)
    if op == 'app':
        return app_poly(n)
    raise TypeError(op)


def ind_atoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            if nd(a).op == 'ind':
                s.add(a)
    return s


def set_atom(p, aid, val):
    """Substitute 0/1 for an indicator atom."""
    r = {}
    for m, c in p.items():
        if any(a == aid for a, _ in m):
            if val == 0:
                continue
            m = tuple((a, e) for a, e in m if a != aid)
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def lift(ps, f):
    """f applied to polynomial args, Shannon-expanded over indicator atoms of the args."""
    inds = set()
    for p in ps:
        inds |= ind_atoms(p)
    if not inds:
        return f(*ps)
    if len(inds) > 10:
        raise TooBig()
    a = min(inds)
    A = p_atom(nd(a))
    t = lift([set_atom(p, a, 1) for p in ps], f)
    e = lift([set_atom(p, a, 0) for p in ps], f)
    return p_add(e, p_mul(A, p_add(t, p_scale(e, -1))))


def _factor_int(k):
    fs = {}
    d = 2
    k0 = k
    while d * d <= k and d < 3000:
        while k % d == 0:
            fs[d] = fs.get(d, 0) + 1
            k //= d
        d += 1
    if k > 1:
        fs[k] = fs.get(k, 0) + 1
    return fs


def _factors(c: Fr):
    """c as a product of integer powers over the multiplicatively independent basis {10} + primes except 5"""
    f = dict(_factor_int(c.numerator))
    for p, k in _factor_int(c.denominator).items():
        f[p] = f.get(p, 0) - k
    k = f.pop(5, 0)
    if k:
        f[10] = k
        f[2] = f.get(2, 0) - k
    return [(p, k) for p, k in f.items() if k]


def num_pow(c: Fr, e: Fr):
    """c>0 rational to a rational power, exactly: product of prime atoms with fractional exponents."""
    coef = Fr(1)
    m = {}
    for p, k in _factors(c):
        x = k * e
        fl = x.numerator // x.denominator
        frac = x - fl
        if abs(fl) > 3000:
            raise TooBig()
        coef *= Fr(p) ** fl
        if frac:
            m[p] = m.get(p, Fr(0)) + frac
    mono = tuple(sorted((T.num(p).id, f) for p, f in m.items()))
    return {mono: coef}


def pow_poly(b, e):
    return lift([b, e], _pow_poly)


def _content(p):
    """common monomial factor (min exponents over all monomials) of a multi-term polynomial"""
    it = iter(p)
    com = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(com):
            if a not in d:
                x = Fr(0)
            else:
                x = d[a]
            com[a] = min(com[a], x)
        for a, x in d.items():
            if a not in com and x < 0:
                com[a] = x
    # atoms absent from an earlier monomial but negative in com stay; drop zeros
    for a in list(com):
        lo = min((dict(m).get(a, Fr(0)) for m in p))
        com[a] = lo
    return {a: x for a, x in com.items() if x != 0 and nd(a).op != 'ind'}


def _div_mono(p, com):
    inv = tuple(sorted((a, -x) for a, x in com.items()))
    return p_mul(p, {inv: ONE})


def _pow_poly(b, e):
    if is_const(e):
        ev = const_val(e)
        if ev == 0:
            return p_const(1)
        if ev == 1:
            return b
        if not b:
            if ev > 0:
                return {}
            return p_atom(mk('pow', None, (T.num(0), T.num(ev))))
        if len(b) == 1:
            (m, c), = b.items()
            integer = ev.denominator == 1
            res = {}
            if integer:
                res = {tuple(): c ** int(ev)}
                mono = []
                rest = p_const(1)
                for a, x in m:
                    if nd(a).op == 'num':
                        rest = p_mul(rest, num_pow(nd(a).data, x * ev))
                    else:
                        mono.append((a, x * ev))
                return p_mul(p_mul(res, {tuple(sorted(mono)): ONE}), rest)
            # fractional exponent: factor by factor, only over positive (or safe) factors
            out = p_const(1)
            leftover = []
            cc = c
            if cc < 0:
                leftover.append(({(): Fr(-1)}))
                cc = -cc
            out = p_mul(out, num_pow(cc, ev))
            for a, x in m:
                an = nd(a)
                s = sgn(an)
                if an.op == 'num':
                    out = p_mul(out, num_pow(an.data, x * ev))
                elif s == '+' or (s == '0+' and x > 0 and ev > 0):
                    out = p_mul(out, {((a, x * ev),): ONE})
                else:
                    leftover.append({((a, x),): ONE})
            if leftover:
                q = p_const(1)
                for l in leftover:
                    q = p_mul(q, l)
                # (a^2)^(1/2) = |a| for a single atom of even power
                if len(q) == 1:
                    (qm, qc), = q.items()
                    if qc > 0 and len(qm) == 1 and qm[0][1].denominator == 1 and qm[0][1] % 2 == 0:
                        absn = mk('app', 'abs', (nd(qm[0][0]),))
                        return p_mul(out, {((absn.id, qm[0][1] * ev),): ONE})
                an = node_of(q)
                at = an if an.op != 'mul' and an.op != 'pow' else mk('app', 'grp', (an,))
                out = p_mul(out, {((at.id, ev),): ONE})
            return out
        # multi-term base
        if ev.denominator == 1 and ev > 0:
            if len(b) ** int(ev) <= 5000 and ev <= 12:
                return p_ipow(b, int(ev))
        com = _content(b)
        if ev.denominator != 1:
            com = {a: x for a, x in com.items() if sgn(nd(a)) == '+'}
        q = _div_mono(b, com) if com else b
        if len(q) == 1:
            return p_mul(_pow_poly(q, e), _pow_poly({tuple(sorted(com.items())): ONE}, e))
        lead = q[max(q, key=lambda m: (len(m), m))]
        s = abs(lead) if ev.denominator != 1 else lead
        q = p_scale(q, 1 / s)
        at = node_of(q)
        r = {((at.id, ev),): ONE}
        if com:
            r = p_mul(r, _pow_poly({tuple(sorted(com.items())): ONE}, e))
        return p_mul(r, num_pow(abs(s), ev) if s > 0 else {(): Fr(s) ** int(ev)})
    # symbolic exponent
    if is_const(b):
        bv = const_val(b)
        if bv == 1:
            return p_const(1)
        if bv > 0:
            return exp_poly(p_mul(e, log_poly(b)))
    if not b and p_sgn(e) == '+':
        return {}
    bs = p_sgn(b)
    if bs == '+':
        return exp_poly(p_mul(e, log_poly(b)))
    return p_atom(mk('pow', None, (node_of(b), node_of(e))))


def exp_poly(p):
    out = p_const(1)
    for m, c in p.items():
        if not m:
            out = p_mul(out, {((mk('app', 'exp', (T.num(1),)).id, c),): ONE})
            continue
        if len(m) == 1 and m[0][1] == 1 and nd(m[0][0]).op == 'app' and nd(m[0][0]).data == 'log':
            arg = nd(m[0][0]).args[0]
            if arg.op == 'num' and arg.data > 0:
                out = p_mul(out, num_pow(arg.data, c))
            else:
                # exp(c*log a) = a^c
                out = p_mul(out, _pow_poly(poly(arg), p_const(c)) if c.denominator != 1 or True else None)
            continue
        base = node_of({m: ONE})
        out = p_mul(out, {((mk('app', 'exp', (base,)).id, c),): ONE})
    return out


def log_poly(p):
    if is_const(p):
        c = const_val(p)
        if c > 0:
            r = {}
            for q, k in _factors(c):
                r = p_add(r, p_scale(p_atom(mk('app', 'log', (T.num(q),))), k))
            return r
        return p_atom(mk('app', 'log', (node_of(p),)))
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            r = log_poly(p_const(c)) if c != 1 else {}
            left = []
            for a, x in m:
                an = nd(a)
                if an.op == 'app' and an.data == 'exp':
                    r = p_add(r, p_scale(poly(an.args[0]), x))
                elif an.op == 'num':
                    r = p_add(r, p_scale(log_poly(p_const(an.data)), x))
                elif sgn(an) == '+':
                    r = p_add(r, p_scale(p_atom(mk('app', 'log', (an,))) if an.op != 'add' else _log_atom(an), x))
                else:
                    left.append((a, x))
            if left:
                r = p_add(r, p_atom(mk('app', 'log', (node_of({tuple(left): ONE}),))))
            return r
        return p_atom(mk('app', 'log', (node_of(p),)))
    com = {a: x for a, x in _content(p).items() if sgn(nd(a)) == '+'}
    q = _div_mono(p, com) if com else p
    lead = q[max(q, key=lambda m: (len(m), m))]
    q = p_scale(q, 1 / abs(lead))
    r = _log_atom(node_of(q))
    if abs(lead) != 1:
        r = p_add(r, log_poly(p_const(abs(lead))))
    if com:
        r = p_add(r, log_poly({tuple(sorted(com.items())): ONE}))
    return r


def _log_atom(n):
    return p_atom(mk('app', 'log', (n,)))


# ---------------------------------------------------------------- conditions
KNOWN = {}    # ind atom id -> 0/1 on the current path


def pos_poly(p):
    """indicator polynomial of p > 0"""
    return lift([p], _pos_poly)


def _pos_poly(p):
    if is_const(p):
        return p_const(1 if const_val(p) > 0 else 0)
    s = p_sgn(p)
    if s == '+':
        return p_const(1)
    if s in ('-', '0-'):
        return {}
    com = {a: x for a, x in _content(p).items() if sgn(nd(a)) == '+'}
    q = _div_mono(p, com) if com else p
    # drop even powers? no: zero set matters
    lead = q[max(q, key=lambda m: (len(m), m))]
    integer = T.is_int(node_of(p_scale(q, 1)))
    if integer:
        g = math.gcd(*[abs(int(c)) for m, c in q.items() if m]) or 1
        # p > 0  <=>  p >= 1
        c0 = int(const_val(q))
        rest = {m: c / g for m, c in q.items() if m}
        # g*rest + c0 >= 1  <=>  rest >= ceil((1-c0)/g)
        k = -((-(1 - c0)) // g)
        q = p_add(rest, p_const(1 - k))
        lead = q[max((m for m in q if m), key=lambda m: (len(m), m))]
        if lead < 0:
            # rest + 1 - k > 0 false  <=>  -(rest) + k > 0
            q2 = p_add(p_const(1), p_scale(q, -1))
            return p_add(p_const(1), p_scale(_ind('pos', node_of(q2)), -1))
        return _ind('pos', node_of(q))
    q = p_scale(q, 1 / abs(lead))
    return _ind('pos', node_of(q))


def _ind(kind, *args):
    a = mk('ind', kind, args)
    if a.id in KNOWN:
        return p_const(KNOWN[a.id])
    if kind in ('pos', 'eq0') and not args[0].free and T.is_int(args[0]):
        v = decide_int(a, [])
        if v is not None:
            return p_const(v)
    return p_atom(a)


def eq_poly(a, b):
    d = p_add(a, p_scale(b, -1))
    return lift([d], _eq0)


def _eq0(d):
    if is_const(d):
        return p_const(1 if const_val(d) == 0 else 0)
    n = node_of(d)
    if T.is_int(n):
        s = p_sgn(d)
        if s in ('+', '-'):
            return {}
        lead = d[max((m for m in d if m), key=lambda m: (len(m), m))]
        d = p_scale(d, 1 / lead)
        return _ind('eq0', node_of(d))
    return p_add(p_const(1), p_scale(_pos_poly(d), -1), p_scale(_pos_poly(p_scale(d, -1)), -1))


def ind_poly(c):
    op = c.op
    if op == 'true':
        return p_const(1)
    if op == 'not':
        return p_add(p_const(1), p_scale(ind_poly(c.args[0]), -1))
    if op == 'and':
        r = p_const(1)
        for a in c.args:
            r = p_mul(r, ind_poly(a))
        return r
    if op == 'lt':
        return pos_poly(p_add(poly(c.args[1]), p_scale(poly(c.args[0]), -1)))
    if op == 'eq':
        return eq_poly(poly(c.args[0]), poly(c.args[1]))
    if op == 'exists':
        body = node_of(ind_poly(c.args[1]))
        if body.op == 'num':
            return p_const(1 if body.data else 0)
        dim = canon(c.args[0])
        b = T.bvar(c.data[0])
        for w in (T.num(0), T.add(dim, T.num(-1))):
            if b.id in body.free and (sgn(dim) == '+' or in_range(T.num(0), dim)):
                q = ind_poly(T.subst(c.args[1], {b.id: w}))
                if is_const(q) and const_val(q) == 1:
                    return p_const(1)
        r = _rebind('lam', c.data[0], dim, body)
        return _ind('exists', r)
    if op == 'bapp':
        return _ind('bapp:' + str(c.data), *[canon(a) for a in c.args])
    raise TypeError(op)


# ---------------------------------------------------------------- applications
RULES = {}


def rule(name):
    def d(f):
        RULES[name] = f
        return f
    return d


def app_poly(n):
    name = n.data
    if any(a.op == 'lam' for a in n.args):
        args = [canon(a) for a in n.args]
        f = RULES.get(name)
        if f:
            r = f(args)
            if r is not None:
                return r
        return p_atom(mk('app', name, args))
    ps = [poly(a) for a in n.args]
    if name == 'exp':
        return lift(ps, exp_poly)
    if name == 'log':
        return lift(ps, log_poly)
    f = RULES.get(name)

    def g(*qs):
        args = [node_of(q) for q in qs]
        if f:
            r = f(args)
            if r is not None:
                return r
        return p_atom(mk('app', name, args))
    if not ps:
        return p_atom(mk('app', name, ()))
    return lift(ps, g)


def _odd(name):
    @rule(name)
    def f(args):
        a = args[0]
        p = poly(a)
        if not p:
            return {}
        lead = p[max(p, key=lambda m: (len(m), m))]
        if lead < 0:
            return p_scale(poly(mk('app', name, (node_of(p_scale(p, -1)),))), -1)
        return None


for _nm in ('erf', 'sin', 'tan', 'arctan', 'sinh', 'tanh', 'arcsin', 'arcsinh'):
    _odd(_nm)


@rule('cos')
def _cos(args):
    p = poly(args[0])
    if not p:
        return p_const(1)
    lead = p[max(p, key=lambda m: (len(m), m))]
    if lead < 0:
        return poly(mk('app', 'cos', (node_of(p_scale(p, -1)),)))
    return None


@rule('abs')
def _abs(args):
    p = poly(args[0])
    s = p_sgn(p)
    if s in ('+', '0+'):
        return p
    if s in ('-', '0-'):
        return p_scale(p, -1)
    lead = p[max(p, key=lambda m: (len(m), m))]
    if lead < 0:
        return poly(mk('app', 'abs', (node_of(p_scale(p, -1)),)))
    return None


@rule('grp')
def _grp(args):
    return poly(args[0])


@rule('interp')
def _interp(args):
    """interp(kind?, lam x, xnew, j): exact at a node when xnew is the i-th node: Kronecker delta in j.
    args = [lam x, xnew, j]; the contract assumes strictly monotonic nodes."""
    lamx, xn, j = args
    h = lamx.data[0]
    i = _match_node(lamx, xn)
    if i is not None:
        return eq_poly(poly(j), poly(i))
    return None


def _match_node(lamx, xn):
    """Is xn the body of lamx at some index?  Returns the index node."""
    b = T.bvar(lamx.data[0])
    body = lamx.args[1]
    # collect candidate index terms: arguments of apps in xn
    if b.id not in body.free:
        return None
    cands = []
    for s in T.subterms(xn):
        for a in s.args:
            if a.op in ('num', 'var', 'add') and T.is_int(a):
                cands.append(a)
    seen = set()
    for c in cands:
        if c.id in seen:
            continue
        seen.add(c.id)
        if canon(T.subst(body, {b.id: c})) is xn:
            return c
    return None


def cancel_den(p):
    """(n-1)*x/(n-1) -> x: in monomials with a negative power of a sum a = v + rest, v is replaced by a - rest"""
    for a in {x for m in p for x, e in m if e < 0 and nd(x).op == 'add'}:
        pa = poly(nd(a))
        for mv, cv in pa.items():
            if len(mv) == 1 and mv[0][1] == 1 and abs(cv) == 1 and nd(mv[0][0]).op == 'var':
                v = mv[0][0]
                rest = {m: c for m, c in pa.items() if m != mv}
                if any(v == x for m in rest for x, _ in m):
                    continue
                sub = p_scale(p_add(p_atom(nd(a)), p_scale(rest, -1)), 1 / cv)
                out = {}
                for m, c in p.items():
                    d = dict(m)
                    k = d.get(v, Fr(0))
                    if d.get(a, Fr(0)) < 0 and k > 0 and k.denominator == 1 and k < 5:
                        d.pop(v)
                        q = {tuple(sorted(d.items())): c}
                        for _ in range(int(k)):
                            q = p_mul(q, sub)
                        out = p_add(out, q)
                    else:
                        out = p_add(out, {m: c})
                if len(out) <= len(p):
                    p = out
                break
    return p


def _extreme(args, want):
    """minimum/maximum of a monotone sequence is its first/last element"""
    l = args[0]
    if l.op != 'lam':
        return None
    b = T.bvar(l.data[0])
    body, dim = l.args[1], l.args[0]
    if b.id not in body.free:
        return poly(body)
    if canon(dim) is T.num(1):
        return poly(T.subst(body, {b.id: T.num(0)}))
    d = p_add(poly(T.subst(body, {b.id: T.add(b, T.num(1))})), p_scale(poly(body), -1))
    s = p_sgn(d)
    if s is None:
        return None
    up = s in ('+', '0+')
    at = T.num(0) if up == (want == 'amin') else T.add(dim, T.num(-1))
    return cancel_den(poly(T.subst(body, {b.id: at})))


@rule('amin')
def _amin(args):
    return _extreme(args, 'amin')


@rule('amax')
def _amax(args):
    return _extreme(args, 'amax')


# ---------------------------------------------------------------- sums
def sum_poly(n):
    dims = [canon(d) for d in n.args[:-1]]
    body = poly(n.args[-1])
    hs = n.data
    # innermost = last binder
    r = body
    for h, d in reversed(list(zip(hs, dims))):
        r = _sum1(h, d, r)
    return r


def _sum1(h, dim, body):
    b = T.bvar(h)
    body = simplify_ind(body, [(b, dim)])
    out = {}
    for m, c in body.items():
        dep = [(a, e) for a, e in m if b.id in nd(a).free]
        ind = tuple((a, e) for a, e in m if b.id not in nd(a).free)
        base = {ind: c}
        if not dep:
            out = p_add(out, p_mul(base, poly(dim)))
            continue
        out = p_add(out, p_mul(base, _sum_mono(b, h, dim, dep)))
    return out


def _linear_in(p, b):
    """p = c*b + rest with rest free of b -> (c, rest) or None"""
    c = Fr(0)
    rest = {}
    for m, v in p.items():
        if any(b.id in nd(a).free for a, _ in m):
            if m == ((b.id, ONE),):
                c = v
            else:
                return None
        else:
            rest[m] = v
    return c, rest


def _sum_mono(b, h, dim, dep):
    # Kronecker delta
    for a, e in dep:
        an = nd(a)
        if an.op == 'ind' and an.data == 'eq0':
            lr = _linear_in(poly(an.args[0]), b)
            if lr and abs(lr[0]) == 1:
                val = p_scale(lr[1], -1 / lr[0])
                vn = node_of(val)
                if in_range(vn, dim):
                    rest = {tuple(x for x in dep if x[0] != a): ONE}
                    return poly(T.subst(node_of(rest), {b.id: vn}))
    # partition of unity of interpolation weights: sum_j interp(x, t, j) = 1
    if len(dep) == 1 and dep[0][1] == 1:
        an = nd(dep[0][0])
        if an.op == 'app' and an.data in UNITY and an.args[-1] is b and \
                all(b.id not in q.free for q in an.args[:-1]) and (an.args[0] if an.data == 'gauss1d' else an.args[0].args[0]) is dim:
            return p_const(1)
    binders = [(h, dim)]
    factors = []
    for a, e in dep:
        an = nd(a)
        if an.op == 'sum' and e == 1 and len(binders) < 4:
            ren = {}
            hb = an.args[-1]
            used = {x for x, _ in binders} | {k for k in an.data}
            newhs = []
            for k in an.data:
                kk = k
                if any(kk == x for x, _ in binders):
                    kk = max([hb.h, max(used), h] + [nd(f).data[1] for f in hb.free if nd(f).data[0] == 'b']) + 1
                    used.add(kk)
                    ren[T.bvar(k).id] = T.bvar(kk)
                newhs.append(kk)
            if ren:
                hb = T.subst(hb, ren)
            for kk, d in zip(newhs, an.args[:-1]):
                binders.append((kk, d))
            factors.append(hb)
        else:
            factors.append(nd(a) if e == 1 else mk('pow', None, (nd(a), T.num(e))))
    body = T.mul(*factors)
    return p_atom(canon_sum(binders, body))


UNITY = {'interp', 'interp_strict', 'gauss1d'}
_cs_memo = {}


def canon_sum(binders, body):
    """Canonical multi-binder sum node of a product body."""
    key = (tuple((h, d.id) for h, d in binders), body.id)
    r = _cs_memo.get(key)
    if r is not None:
        return r
    bh = body.h
    for fid in body.free:
        d = nd(fid).data
        if d[0] == 'b' and all(d[1] != h for h, _ in binders) and d[1] > bh:
            bh = d[1]
    k = len(binders)
    # go through temporaries so that the renaming cannot clash
    tmp = {}
    tmpv = []
    top = max([bh] + [h for h, _ in binders])
    for j, (h, d) in enumerate(binders):
        v = T.bvar(top + 1 + j)
        tmpv.append(v)
        tmp[T.bvar(h).id] = v
    if k > 1 or binders[0][0] != bh + 1:
        tb = T.subst(body, tmp) if tmp else body
        best = None
        for perm in permutations(range(k)):
            m = {tmpv[perm[j]].id: T.bvar(bh + 1 + j) for j in range(k)}
            # two-step to avoid overlap between temporaries and targets
            b2 = _rename(tb, m)
            b2 = canon(b2)
            # the canonical body may have lost height; keep as is
            node = mk('sum', tuple(bh + 1 + j for j in range(k)),
                      (*[binders[perm[j]][1] for j in range(k)], b2))
            if best is None or node.id < best.id:
                best = node
        r = best
    else:
        r = mk('sum', (bh + 1,), (binders[0][1], canon(body)))
    _cs_memo[key] = r
    return r


def _rename(n, m):
    keys = set(m)
    tgt = {v.id for v in m.values()}
    if keys & tgt:
        mid = {}
        back = {}
        for j, (k, v) in enumerate(m.items()):
            t = T.ivar(f'tmp!{j}')
            mid[k] = t
            back[t.id] = v
        return T.subst(T.subst(n, mid), back)
    return T.subst(n, m)


# ---------------------------------------------------------------- integer facts
_dec_memo = {}
INTFACTS = []   # canonical int polynomials known >= 0 (e.g. n - 3)


def simplify_ind(p, ranges):
    """Decide integer indicator atoms using 0 <= b < dim for the given variables."""
    ats = [a for a in ind_atoms(p) if nd(a).data in ('pos', 'eq0') and any(v.id in nd(a).free for v, _ in ranges)
           and T.is_int(nd(a).args[0])]
    for a in ats:
        v = decide_int(nd(a), ranges)
        if v is not None:
            p = set_atom(p, a, v)
            continue
        if nd(a).data == 'pos':
            r = _boundary(nd(a), ranges)
            if r is not None:
                t, e = set_atom(p, a, 1), set_atom(p, a, 0)
                p = p_add(e, p_mul(r, p_add(t, p_scale(e, -1))))
    return p


def _boundary(atom, ranges):
    """a comparison that cuts off exactly one end point of 0 <= b < dim, as an (in)equality with that end point"""
    for b, dim in ranges:
        lr = _linear_in(poly(atom.args[0]), b)
        if not lr or abs(lr[0]) != 1:
            continue
        c, rest = lr
        last = p_add(poly(dim), p_const(-1))
        eq = lambda v: _eq0(p_add(p_atom(b), p_scale(v, -1)))
        neg = lambda q: p_add(p_const(1), p_scale(q, -1))
        if c == 1:        # b + rest > 0
            if not rest:
                return neg(eq({}))
            if p_add(rest, poly(dim)) == p_const(2):      # b > dim-2
                return eq(last)
        else:             # rest - b > 0
            if rest == p_const(1):
                return eq({})
            if rest == last:
                return neg(eq(last))
    return None


def decide_int(atom, ranges):
    key = (atom.id, tuple((v.id, d.id) for v, d in ranges), len(INTFACTS))
    if key in _dec_memo:
        return _dec_memo[key]
    from . import smt
    r = smt.decide_int(atom, ranges, INTFACTS)
    _dec_memo[key] = r
    return r


def in_range(v, dim):
    from . import smt
    return smt.in_range(v, dim, INTFACTS)
