"""z3 back end: integer side conditions, path feasibility, and the final obligations."""
from __future__ import annotations
import sys
import time
from fractions import Fraction as Fr
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3
from . import terms as T
from . import norm as N
from .terms import Node

STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}


def _check(s, timeout):
    s.set('timeout', timeout)
    t = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    return r


def q(f: Fr):
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


# ------------------------------------------------------------------ integers
def _ienc(n: Node, env):
    if n.op == 'num':
        return z3.IntVal(int(n.data))
    if n.op == 'add':
        return z3.Sum([_ienc(a, env) for a in n.args])
    if n.op == 'mul':
        r = z3.IntVal(1)
        for a in n.args:
            r = r * _ienc(a, env)
        return r
    v = env.get(n.id)
    if v is None:
        v = z3.Int(f'v{n.id}')
        env[n.id] = v
    return v


def _ibase(s, env, ranges, facts):
    from . import tensor as X
    for v, d in ranges:
        s.add(_ienc(v, env) >= 0, _ienc(v, env) < _ienc(d, env))
    for f in facts:
        s.add(_ienc(f, env) >= 0)


def _ifacts(s, env):
    """signs/ranges of everything mentioned"""
    from . import tensor as X
    done = set()
    for _ in range(4):
        new = [i for i in env if i not in done]
        if not new:
            break
        for i in new:
            done.add(i)
            n = N.nd(i)
            if n.op == 'var' and n.data[0] in ('i', 'b'):
                s.add(env[i] >= 0)
                if i in X.IVAR_DIM:
                    s.add(env[i] < _ienc(X.IVAR_DIM[i], env))
            else:
                sg = N.sgn(n)
                if sg == '+':
                    s.add(env[i] >= 1)
                elif sg == '0+':
                    s.add(env[i] >= 0)


def _linear_int(n):
    return T.is_int(n)


def decide_int(atom, ranges, facts):
    """truth value (0/1) of an integer indicator atom, or None"""
    p = atom.args[0]
    if not T.is_int(p):
        return None
    s = z3.Solver()
    env = {}
    try:
        e = _ienc(p, env)
        _ibase(s, env, ranges, facts)
        _ifacts(s, env)
    except Exception:
        return None
    cond = (e > 0) if atom.data == 'pos' else (e == 0)
    s.push()
    s.add(cond)
    r = _check(s, 500)
    s.pop()
    if r == z3.unsat:
        return 0
    s.add(z3.Not(cond))
    if _check(s, 500) == z3.unsat:
        return 1
    return None


_ir = {}


def in_range(v, dim, facts):
    key = (v.id, dim.id, len(facts))
    if key in _ir:
        return _ir[key]
    s = z3.Solver()
    env = {}
    e, d = _ienc(v, env), _ienc(dim, env)
    _ibase(s, env, [], facts)
    _ifacts(s, env)
    s.add(z3.Or(e < 0, e >= d))
    r = _check(s, 500) == z3.unsat
    _ir[key] = r
    return r


def int_ge(d, n, facts):
    s = z3.Solver()
    env = {}
    e = _ienc(d, env)
    _ibase(s, env, [], facts)
    _ifacts(s, env)
    s.add(e < n)
    return _check(s, 500) == z3.unsat


# ------------------------------------------------------------------ reals
class Enc:
    """encodes polynomials over atoms; collects the facts about the atoms"""

    def __init__(self):
        self.env = {}
        self.facts = []
        self.sidefacts = []
        self.b = {}

    def poly(self, p):
        ts = []
        for m, c in p.items():
            t = q(c)
            for a, e in m:
                t = t * self.powatom(N.nd(a), e)
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def powatom(self, a, e):
        if a.op == 'ind':
            return z3.If(self.ind(a), z3.RealVal(1), z3.RealVal(0))
        if e.denominator == 1 and e > 0:
            v = self.atom(a)
            r = v
            for _ in range(int(e) - 1):
                r = r * v
            return r
        key = (a.id, e)
        if key in self.env:
            return self.env[key]
        v = z3.Real(f'p{a.id}_{e.numerator}_{e.denominator}')
        self.env[key] = v
        base = self.atom(a)
        s = N.sgn(a)
        if a.op == 'app' and a.data == 'exp' and a.args[0].op != 'num':
            # exp(t)^e >= 1 + e t
            self.facts.append(v >= 1 + q(e) * self.poly(N.poly(a.args[0])))
        if e.denominator == 1:   # negative integer
            k = -int(e)
            r = v
            for _ in range(k):
                r = r * base
            self.facts.append(z3.Or(base == 0, r == 1))
            if s == '+':
                self.facts += [v > 0, r == 1]
        else:
            if s == '+':
                self.facts.append(v > 0)
                k = e.denominator
                if k <= 4 and abs(e.numerator) <= 4:
                    lhs = v
                    for _ in range(k - 1):
                        lhs = lhs * v
                    nb = base
                    for _ in range(abs(e.numerator) - 1):
                        nb = nb * base
                    self.facts.append(lhs == nb if e > 0 else lhs * nb == 1)
                # x<1, x>1 versus the power
                if e > 0:
                    self.facts += [z3.Implies(base <= 1, v <= 1), z3.Implies(base >= 1, v >= 1), z3.Implies(base < 1, v < 1), z3.Implies(base > 1, v > 1)]
                else:
                    self.facts += [z3.Implies(base <= 1, v >= 1), z3.Implies(base >= 1, v <= 1), z3.Implies(base < 1, v > 1), z3.Implies(base > 1, v < 1)]
            elif s == '0+' and e > 0:
                self.facts.append(v >= 0)
                self.facts.append((v == 0) == (base == 0))
        return v

    def atom(self, a):
        v = self.env.get(a.id)
        if v is not None:
            return v
        if a.op == 'num':
            return q(a.data)
        if a.op in ('add', 'mul', 'pow') and a.op == 'add':
            v = z3.Real(f'b{a.id}')
            self.env[a.id] = v
            self.facts.append(v == self.poly(N.poly(a)))
            if N.sgn(a) == '+':
                self.facts.append(v > 0)
            return v
        v = z3.Real(f'a{a.id}')
        self.env[a.id] = v
        s = N.sgn(a)
        if s == '+':
            self.facts.append(v > 0)
        elif s == '0+':
            self.facts.append(v >= 0)
        elif s == '-':
            self.facts.append(v < 0)
        if a.op == 'app':
            self.appfacts(a, v)
        if a.op == 'pow':
            x = self.poly(N.poly(a.args[0]))
            self.facts += [z3.Implies(x >= 0, v >= 0), z3.Implies(x > 0, v > 0)]
            if N.sgn(a.args[1]) == '+':
                self.facts.append(z3.Implies(x == 0, v == 0))
        if a.op == 'var' and a.data == ('s', 'pi'):
            self.facts += [v > q(Fr('3.14159')), v < q(Fr('3.1416'))]
        return v

    def appfacts(self, a, v):
        nm = a.data
        if nm == 'exp':
            x = self.poly(N.poly(a.args[0]))
            self.facts += [v > 0, z3.Implies(x >= 0, v >= 1), z3.Implies(x <= 0, v <= 1), z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1), v >= 1 + x]
        elif nm == 'erf':
            x = self.poly(N.poly(a.args[0]))
            self.facts += [v > -1, v < 1, z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0)]
        elif nm in ('sin', 'cos', 'tanh'):
            self.facts += [v >= -1, v <= 1]
        elif nm == 'log':
            arg = a.args[0]
            if arg.op == 'num':
                import math
                f = math.log(float(arg.data))
                self.facts += [v > q(Fr(f) - Fr(1, 10**9)), v < q(Fr(f) + Fr(1, 10**9))]
            else:
                x = self.poly(N.poly(arg))
                self.facts += [z3.Implies(x >= 1, v >= 0), z3.Implies(z3.And(x > 0, x <= 1), v <= 0), z3.Implies(x > 0, v <= x - 1)]
        elif nm == 'abs':
            x = self.poly(N.poly(a.args[0]))
            self.facts += [v >= 0, z3.Or(v == x, v == -x)]

    def ind(self, a):
        b = self.b.get(a.id)
        if b is None:
            b = z3.Bool(f'i{a.id}')
            self.b[a.id] = b
            if a.data == 'pos':
                x = self.poly(N.poly(a.args[0]))
                self.facts.append(b == (x > 0))
            elif a.data == 'eq0':
                x = self.poly(N.poly(a.args[0]))
                self.facts.append(b == (x == 0))
        return b

    def cond(self, c: Node):
        """boolean term"""
        op = c.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'not':
            return z3.Not(self.cond(c.args[0]))
        if op == 'and':
            return z3.And([self.cond(a) for a in c.args])
        if op == 'lt':
            return self.poly(N.poly(c.args[0])) < self.poly(N.poly(c.args[1]))
        if op == 'eq':
            return self.poly(N.poly(c.args[0])) == self.poly(N.poly(c.args[1]))
        if op in ('exists', 'bapp'):
            p = N.ind_poly(c)
            return self.poly(p) == 1
        raise TypeError(op)

    def monotone(self):
        """pairwise facts: exp/erf/log and equal powers are increasing"""
        out = []
        groups = {}
        for k, v in list(self.env.items()):
            if isinstance(k, tuple):
                a, e = N.nd(k[0]), k[1]
                if a.op == 'app' and a.data == 'exp' and a.args[0].op != 'num':
                    groups.setdefault('exp', []).append((q(e) * self.poly(N.poly(a.args[0])), v, True))
                elif N.sgn(a) == '+':
                    groups.setdefault(('pow', e), []).append((self.atom(a), v, e > 0))
            else:
                a = N.nd(k)
                if a.op == 'app' and a.data in ('exp', 'erf', 'log') and a.args[0].op != 'num':
                    groups.setdefault(a.data, []).append((self.poly(N.poly(a.args[0])), v, True))
        # x^a * x^b = x^(a+b)
        byatom = {}
        for k, v in list(self.env.items()):
            if isinstance(k, tuple) and N.sgn(N.nd(k[0])) == '+':
                byatom.setdefault(k[0], {})[k[1]] = v
        for a, es in byatom.items():
            for e1 in list(es):
                for e2 in list(es):
                    if e1 <= e2 and e1 + e2 in es:
                        out.append(es[e1] * es[e2] == es[e1 + e2])
        # log and exp are inverse: x >= exp(t) iff log x >= t
        for x, lv, _ in groups.get('log', []):
            for t, ev, _ in groups.get('exp', []):
                out += [z3.Implies(x > 0, z3.And((x >= ev) == (lv >= t), (x > ev) == (lv > t)))]
        for g, xs in groups.items():
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    (x1, v1, inc), (x2, v2, _) = xs[i], xs[j]
                    pre = z3.And(x1 > 0, x2 > 0) if g == 'log' else z3.BoolVal(True)
                    if inc:
                        out += [z3.Implies(pre, z3.And((x1 < x2) == (v1 < v2), (x1 == x2) == (v1 == v2)))]
                    else:
                        out += [(x1 < x2) == (v1 > v2), (x1 == x2) == (v1 == v2)]
        return out


def solver_for(enc, extra):
    s = z3.Solver()
    # atoms may create further facts while encoding
    k = 0
    while k < len(enc.facts):
        s.add(enc.facts[k])
        k += 1
    for m in enc.monotone():
        s.add(m)
    while k < len(enc.facts):
        s.add(enc.facts[k])
        k += 1
    for e in extra:
        s.add(e)
    return s


def feasible(conds, timeout=2000):
    """path condition satisfiable? (unknown counts as feasible)"""
    enc = Enc()
    cs = [enc.cond(c) for c in conds]
    s = solver_for(enc, cs)
    r = _check(s, timeout)
    return r != z3.unsat


def prove(goal, hyps, timeout=20000, extra_facts=()):
    """goal: ('ge'|'gt'|'eq', poly) or ('cond', Node).  Returns (status, info)."""
    enc = Enc()
    hs = [enc.cond(c) for c in hyps]
    kind, p = goal
    if kind == 'cond':
        g = enc.cond(p)
    else:
        e = enc.poly(p)
        g = {'ge': e >= 0, 'gt': e > 0, 'eq': e == 0}[kind]
    for f in extra_facts:
        hs.append(enc.cond(f))
    s = solver_for(enc, hs + [z3.Not(g)])
    r = _check(s, timeout)
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', model_values(s.model(), enc)
    return 'unknown', None


def model_values(m, enc):
    out = {}
    for k, v in enc.env.items():
        x = m.eval(v, model_completion=True)
        try:
            f = Fr(x.as_fraction()) if hasattr(x, 'as_fraction') else float(x.approx(12).as_fraction())
        except Exception:
            try:
                f = float(str(x).rstrip('?'))
            except Exception:
                continue
        out[k] = f
    return out


def path_model(conds, timeout=3000):
    enc = Enc()
    cs = [enc.cond(c) for c in conds]
    s = solver_for(enc, cs)
    if _check(s, timeout) == z3.sat:
        return model_values(s.model(), enc)
    return None
