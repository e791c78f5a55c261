"""Hash-consed expression DAG over reals, integers and booleans.

Nodes are immutable and shared; light folding only (constants, identities).
They can be lowered to z3 (see lower()) and evaluated numerically (mpmath).
Floating-point constants enter as their exact rational values.
"""
from fractions import Fraction
import math
import sx
import mpmath
import numpy as np
import z3

mpmath.mp.dps = 40

R, I, B = 'R', 'I', 'B'


class Node(object):
    __slots__ = ('op', 'args', 'val', 'sort', 'id', 'h')

    def __repr__(self):
        return show(self)

    # arithmetic on nodes happens through the functions below


_table = {}
_counter = [0]


def _mk(op, args=(), val=None, sort=R):
    key = (op, tuple(a.id for a in args), val, sort)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.val, n.sort = op, tuple(args), val, sort
        n.id = _counter[0]
        _counter[0] += 1
        _table[key] = n
    return n


def reset():
    _table.clear()


# sentinel floats: python floats that stand for symbolic values
SENTINELS = {}


# literal floating point constants below TINY (regularisers like 1e-16) count
# as 0 while IDEAL is set (a stated assumption of the checks that use it)
IDEAL = False
TINY = 1e-12


def const(v, sort=None):
    if isinstance(v, Node):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        if sort in (None, I):
            return _mk('const', (), Fraction(v), I)
        return _mk('const', (), Fraction(v), R)
    if isinstance(v, Fraction):
        if sort == I:
            return _mk('const', (), v, I)
        return _mk('const', (), v, R)
    v = float(v)
    if v in SENTINELS:
        return SENTINELS[v]
    if math.isnan(v):
        return _mk('special', (), 'nan', R)
    if math.isinf(v):
        return _mk('special', (), 'inf' if v > 0 else '-inf', R)
    if IDEAL and -TINY < v < TINY:
        return _mk('const', (), Fraction(0), R)
    return _mk('const', (), snap(v), R)


_snapped = {}


def snap(v):
    """The rational number that a floating point constant stands for: the
    decimal literal it was most likely written as, or a small quotient. Real
    arithmetic on the binary value would keep refactorings such as x / 100
    and 0.01 * x apart."""
    r = _snapped.get(v)
    if r is None:
        r = _snapped[v] = _snap(v)
    return r


def _digits(text):
    m = text.lower().split('e')[0].replace('.', '').replace('-', '').strip('0')
    return len(m)


def _snap(v):
    if v == int(v) and abs(v) < 2 ** 53:
        return Fraction(int(v))
    if Fraction(v).denominator <= 2 ** 16:
        return Fraction(v)
    if _digits(repr(v)) <= 12:
        return Fraction(repr(v))
    with np.errstate(all='ignore'):
        f = np.float32(v)
    if float(f) == v:
        if _digits(str(f)) <= 7:
            return Fraction(str(f))
        if f == np.float32(math.pi):
            return Fraction(math.pi)
        q = Fraction(v).limit_denominator(1000)
        if q != 0 and np.float32(float(q)) == f:
            return q
    q = Fraction(v).limit_denominator(10000)
    if q != 0 and float(q) == v:
        return q
    return Fraction(v)


TRUE = _mk('bconst', (), True, B)
FALSE = _mk('bconst', (), False, B)
NAN = _mk('special', (), 'nan', R)
INF = _mk('special', (), 'inf', R)
NINF = _mk('special', (), '-inf', R)


def var(name, sort=R):
    return _mk('var', (), name, sort)


def is_const(n):
    return n.op in ('const', 'bconst', 'special')


def cval(n):
    """python value of a constant node"""
    if n.op == 'const':
        return int(n.val) if n.sort == I else n.val
    if n.op == 'bconst':
        return n.val
    return float(n.val)


def toreal(n):
    if n.sort == R:
        return n
    if n.sort == B:
        return ite(n, ONE, ZERO)
    if n.op == 'const':
        return _mk('const', (), n.val, R)
    return _mk('toreal', (n,), None, R)


ZERO = const(Fraction(0))
ONE = const(Fraction(1))


def _unify(a, b):
    if a.sort == B:
        a = ite(a, const(1), const(0))
    if b.sort == B:
        b = ite(b, const(1), const(0))
    if a.sort == b.sort:
        return a, b
    return toreal(a), toreal(b)


def _special2(op, a, b):
    """arithmetic with inf / nan constants; None when not determined"""
    if a is NAN or b is NAN:
        return NAN
    av = float(a.val) if is_const(a) else None
    bv = float(b.val) if is_const(b) else None
    if av is not None and bv is not None:
        try:
            r = {'add': lambda: av + bv, 'sub': lambda: av - bv,
                 'mul': lambda: av * bv, 'div': lambda: av / bv}[op]()
        except ZeroDivisionError:
            return NAN
        return const(r)
    if op == 'add':
        return a if a.op == 'special' else b
    if op == 'sub':
        if a.op == 'special':
            return a
        return NINF if b is INF else INF
    if op == 'div' and b.op == 'special':
        return ZERO
    return NAN  # sign of symbolic operand unknown: treated as undefined


def add(a, b):
    a, b = _unify(a, b)
    if a.op == 'special' or b.op == 'special':
        return _special2('add', a, b)
    if a.op == 'const' and b.op == 'const':
        return _mk('const', (), a.val + b.val, a.sort)
    if a.op == 'const' and a.val == 0:
        return b
    if b.op == 'const' and b.val == 0:
        return a
    if b.op == 'neg':
        return sub(a, b.args[0])
    if a.op == 'neg':
        return sub(b, a.args[0])
    if b.id < a.id:
        a, b = b, a
    return _mk('add', (a, b), None, a.sort)


def sub(a, b):
    a, b = _unify(a, b)
    if a.op == 'special' or b.op == 'special':
        return _special2('sub', a, b)
    if a.op == 'const' and b.op == 'const':
        return _mk('const', (), a.val - b.val, a.sort)
    if b.op == 'const' and b.val == 0:
        return a
    if a.op == 'const' and a.val == 0:
        return neg(b)
    if a is b:
        return _mk('const', (), Fraction(0), a.sort)
    if b.op == 'neg':
        return add(a, b.args[0])
    return _mk('sub', (a, b), None, a.sort)


def neg(a):
    if a.sort == B:
        a = ite(a, const(1), const(0))
    if a is NAN:
        return a
    if a is INF:
        return NINF
    if a is NINF:
        return INF
    if a.op == 'const':
        return _mk('const', (), -a.val, a.sort)
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'sub':
        return sub(a.args[1], a.args[0])
    return _mk('neg', (a,), None, a.sort)


def mul(a, b):
    a, b = _unify(a, b)
    if a.op == 'special' or b.op == 'special':
        return _special2('mul', a, b)
    if a.op == 'const' and b.op == 'const':
        return _mk('const', (), a.val * b.val, a.sort)
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if a.val == 0:
            return a
        if a.val == 1:
            return b
        if a.val == -1:
            return neg(b)
        if b.op == 'mul' and b.args[0].op == 'const':
            return mul(_mk('const', (), a.val * b.args[0].val, a.sort), b.args[1])
        return _mk('mul', (a, b), None, a.sort)
    if a.op == 'neg':
        return neg(mul(a.args[0], b))
    if b.op == 'neg':
        return neg(mul(a, b.args[0]))
    if b.id < a.id:
        a, b = b, a
    return _mk('mul', (a, b), None, a.sort)


def div(a, b):
    """real division"""
    a, b = toreal(a), toreal(b)
    if a.op == 'special' or b.op == 'special':
        return _special2('div', a, b)
    if b.op == 'const':
        if b.val == 0:
            if a.op == 'const':
                return NAN if a.val == 0 else (INF if a.val > 0 else NINF)
            return _mk('div', (a, b), None, R)
        if a.op == 'const':
            return _mk('const', (), a.val / b.val, R)
        return mul(_mk('const', (), 1 / b.val, R), a)
    if a.op == 'const' and a.val == 0:
        return a
    if a.op == 'neg':
        return neg(div(a.args[0], b))
    if b.op == 'neg':
        return neg(div(a, b.args[0]))
    return _mk('div', (a, b), None, R)


def idiv(a, b):
    if a.op == 'const' and b.op == 'const' and b.val != 0:
        return const(int(a.val) // int(b.val))
    return _mk('idiv', (a, b), None, I)


def imod(a, b):
    if a.op == 'const' and b.op == 'const' and b.val != 0:
        return const(int(a.val) % int(b.val))
    return _mk('imod', (a, b), None, I)


def fun1(op, a):
    a = toreal(a)
    if a is NAN:
        return NAN
    if a.op == 'special':
        if op == 'sqrt':
            return INF if a is INF else NAN
        if op == 'exp':
            return INF if a is INF else ZERO
        if op == 'log':
            return INF if a is INF else NAN
        return NAN
    if op == 'sqrt':
        if a.op == 'const':
            v = a.val
            if v < 0:
                return NAN
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
        return _mk('sqrt', (a,), None, R)
    if op == 'exp':
        if a.op == 'const' and a.val == 0:
            return ONE
        if a.op == 'log':
            return a.args[0]
    if op == 'log':
        if a.op == 'const' and a.val == 1:
            return ZERO
        if a.op == 'const' and a.val <= 0:
            return NINF if a.val == 0 else NAN
        if a.op == 'exp':
            return a.args[0]
    if op in ('sin', 'tanh') and a.op == 'const' and a.val == 0:
        return ZERO
    if op == 'cos' and a.op == 'const' and a.val == 0:
        return ONE
    return _mk(op, (a,), None, R)


def sqrt(a): return fun1('sqrt', a)
def exp(a): return fun1('exp', a)
def log(a): return fun1('log', a)
def sin(a): return fun1('sin', a)
def cos(a): return fun1('cos', a)
def tanh(a): return fun1('tanh', a)


def uf(name, args, sort=R):
    return _mk('uf', tuple(args), name, sort)


def floor(a):
    if a.sort == I:
        return a
    if a.op == 'const':
        return const(math.floor(a.val))
    if a.op == 'toreal':
        return a.args[0]
    return _mk('floor', (a,), None, I)


def powc(a, p):
    """a ** p for a constant p (int or half-integer)"""
    p = Fraction(p)
    if p.denominator == 1:
        n = int(p)
        if n < 0:
            return div(ONE, powc(a, -n))
        r = None
        base = a
        while n:
            if n & 1:
                r = base if r is None else mul(r, base)
            n >>= 1
            if n:
                base = mul(base, base)
        if r is None:
            return _mk('const', (), Fraction(1), a.sort)
        return r
    if p.denominator == 2:
        s = sqrt(a)
        return powc(s, p.numerator)
    return uf('pow', (toreal(a), const(p)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B and b.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    a, b = _unify(a, b)
    return _mk('ite', (c, a, b), None, a.sort)


def lt(a, b):
    a, b = _unify(a, b)
    if a is NAN or b is NAN:
        return FALSE
    if is_const(a) and is_const(b):
        return const(bool(cval(a) < cval(b)))
    if a is b or a is INF or b is NINF:
        return FALSE
    if a is NINF or b is INF:
        return TRUE
    return _mk('lt', (a, b), None, B)


def le(a, b):
    a, b = _unify(a, b)
    if a is NAN or b is NAN:
        return FALSE
    if is_const(a) and is_const(b):
        return const(bool(cval(a) <= cval(b)))
    if a is b or a is NINF or b is INF:
        return TRUE
    if a is INF or b is NINF:
        return FALSE
    return _mk('le', (a, b), None, B)


def eq(a, b):
    if a.sort == B and b.sort == B:
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if b.id < a.id:
            a, b = b, a
        return _mk('iff', (a, b), None, B)
    a, b = _unify(a, b)
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return const(bool(cval(a) == cval(b)))
    if a.op == 'special' or b.op == 'special':
        return FALSE
    if b.id < a.id:
        a, b = b, a
    return _mk('eq', (a, b), None, B)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), None, B)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), None, B)


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE or x in out:
            continue
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', tuple(out), None, B)


def implies(a, b):
    return or_(not_(a), b)


def maximum(a, b):
    a, b = _unify(a, b)
    if a is NAN or b is NAN:
        return NAN
    if a is INF or b is INF:
        return INF
    if a is NINF:
        return b
    if b is NINF:
        return a
    return ite(le(b, a), a, b)


def minimum(a, b):
    a, b = _unify(a, b)
    if a is NAN or b is NAN:
        return NAN
    if a is NINF or b is NINF:
        return NINF
    if a is INF:
        return b
    if b is INF:
        return a
    return ite(le(a, b), a, b)


def abs_(a):
    if a is INF or a is NINF:
        return INF
    return ite(le(const(0, a.sort) if a.sort == I else ZERO, a), a, neg(a))


def sign(a):
    z = ZERO if a.sort == R else const(0)
    o = ONE if a.sort == R else const(1)
    return ite(lt(z, a), o, ite(lt(a, z), neg(o), z))


def topo(roots):
    """post-order list of the DAG below roots"""
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def variables(*roots):
    return {n.val: n for n in topo(roots) if n.op == 'var'}


def rebuild(n, args):
    op = n.op
    if not n.args:
        return n
    f = _BUILD.get(op)
    if f is not None:
        return f(*args)
    if op == 'uf':
        return uf(n.val, args, n.sort)
    return _mk(op, tuple(args), n.val, n.sort)


def substitute(roots, mapping):
    """mapping: node -> node"""
    memo = {}
    for n in topo(roots):
        if n in mapping:
            memo[n.id] = mapping[n]
        elif not n.args:
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n, [memo[a.id] for a in n.args])
    return [memo[r.id] for r in roots]


_BUILD = {
    'add': add, 'sub': sub, 'neg': neg, 'mul': mul, 'div': div, 'idiv': idiv,
    'imod': imod, 'sqrt': sqrt, 'exp': exp, 'log': log, 'sin': sin, 'cos': cos,
    'tanh': tanh, 'ite': ite, 'lt': lt, 'le': le, 'eq': eq, 'iff': eq,
    'not': not_, 'and': and_, 'or': or_, 'toreal': toreal, 'floor': floor,
}


def defined(roots):
    """condition under which no undefined operation contributes to the roots"""
    memo = {}
    for n in topo(roots):
        d = [memo[a.id] for a in n.args]
        if n.op == 'special':
            c = FALSE
        elif n.op == 'ite':
            c = and_(d[0], ite(n.args[0], d[1], d[2]))
        else:
            c = and_(*d) if d else TRUE
            if n.op == 'div':
                c = and_(c, not_(eq(n.args[1], ZERO)))
            elif n.op == 'sqrt':
                c = and_(c, le(ZERO, n.args[0]))
            elif n.op == 'log':
                c = and_(c, lt(ZERO, n.args[0]))
        memo[n.id] = c
    return and_(*[memo[r.id] for r in roots])


class Undefined(Exception):
    pass


_uf_cache = {}


def uf_value(name, args, sort):
    """deterministic pseudo-random interpretation of uninterpreted functions"""
    key = (name, tuple(str(a) for a in args))
    if key not in _uf_cache:
        import hashlib
        d = hashlib.sha256(repr(key).encode()).digest()
        x = int.from_bytes(d[:6], 'big')
        if sort == I:
            _uf_cache[key] = x % 1000
        elif sort == B:
            _uf_cache[key] = bool(x & 1)
        else:
            _uf_cache[key] = mpmath.mpf(x) / mpmath.mpf(2 ** 46) - 1
    return _uf_cache[key]


def evaluate(roots, env, mp=True, uf_interp=None):
    """Numeric values of roots; env: var name -> number/bool.
    Undefined operations give nan."""
    F = mpmath.mpf
    memo = {}
    nan = F('nan')
    for n in topo(roots):
        op = n.op
        if op == 'const':
            v = int(n.val) if n.sort == I else F(n.val.numerator) / n.val.denominator
        elif op == 'bconst':
            v = n.val
        elif op == 'special':
            v = F(n.val)
        elif op == 'var':
            v = env[n.val]
            if isinstance(v, Fraction):
                v = int(v) if n.sort == I else F(v.numerator) / v.denominator
            elif n.sort == R:
                v = F(v)
        else:
            a = [memo[x.id] for x in n.args]
            try:
                if op == 'add': v = a[0] + a[1]
                elif op == 'sub': v = a[0] - a[1]
                elif op == 'neg': v = -a[0]
                elif op == 'mul': v = a[0] * a[1]
                elif op == 'div': v = a[0] / a[1] if a[1] != 0 else nan
                elif op == 'idiv': v = a[0] // a[1] if a[1] else 0
                elif op == 'imod': v = a[0] % a[1] if a[1] else 0
                elif op == 'sqrt': v = mpmath.sqrt(a[0]) if a[0] >= 0 else nan
                elif op == 'exp': v = mpmath.exp(a[0])
                elif op == 'log': v = mpmath.log(a[0]) if a[0] > 0 else nan
                elif op == 'sin': v = mpmath.sin(a[0])
                elif op == 'cos': v = mpmath.cos(a[0])
                elif op == 'tanh': v = mpmath.tanh(a[0])
                elif op == 'floor': v = int(mpmath.floor(a[0]))
                elif op == 'toreal': v = F(a[0])
                elif op == 'ite': v = a[1] if a[0] else a[2]
                elif op == 'lt': v = bool(a[0] < a[1])
                elif op == 'le': v = bool(a[0] <= a[1])
                elif op == 'eq': v = bool(a[0] == a[1])
                elif op == 'iff': v = (a[0] == a[1])
                elif op == 'not': v = not a[0]
                elif op == 'and': v = all(a)
                elif op == 'or': v = any(a)
                elif op == 'uf':
                    if n.val == 'pow':
                        v = mpmath.power(a[0], a[1]) if a[0] > 0 else nan
                    elif uf_interp is not None:
                        v = uf_interp(n.val, a, n.sort)
                    else:
                        v = uf_value(n.val, a, n.sort)
                else:
                    raise NotImplementedError(op)
            except (ZeroDivisionError, ValueError, OverflowError):
                v = nan
        memo[n.id] = v
    return [memo[r.id] for r in roots]


class Lowering(object):
    """Translates nodes to z3 terms, collecting defining side constraints for
    square roots and axioms for transcendental functions."""

    def __init__(self):
        self.memo = {}
        self.side = {}       # node id -> list of z3 constraints
        self.deps = {}
        self.funs = {}
        self.exp_terms = []
        self.vars = {}

    def fun(self, name, n, sort=R):
        key = (name, n, sort)
        if key not in self.funs:
            zs = {R: z3.RealSort(), I: z3.IntSort(), B: z3.BoolSort()}
            self.funs[key] = (z3.Function, zs)
        return self.funs[key]

    def term(self, root):
        memo = self.memo
        for n in topo([root]):
            if n.id in memo:
                continue
            memo[n.id] = self._lower(n)
        return memo[root.id]

    def _lower(self, n):
        op = n.op
        a = [self.memo[x.id] for x in n.args]
        if op == 'const':
            if n.sort == I:
                return z3.IntVal(int(n.val))
            return z3.RealVal(str(n.val))
        if op == 'bconst':
            return z3.BoolVal(n.val)
        if op == 'special':
            # inf/nan reaching the solver: an unconstrained fresh value
            return z3.Real('special!%s!%d' % (n.val, n.id))
        if op == 'var':
            t = {R: z3.Real, I: z3.Int, B: z3.Bool}[n.sort](n.val)
            self.vars[n.val] = (t, n.sort)
            return t
        if op == 'add': return a[0] + a[1]
        if op == 'sub': return a[0] - a[1]
        if op == 'neg': return -a[0]
        if op == 'mul': return a[0] * a[1]
        if op == 'div': return a[0] / a[1]
        if op == 'idiv': return z3.If(a[1] > 0, a[0] / a[1], -((-a[0]) / a[1]) if False else (-a[0]) / (-a[1]))
        if op == 'imod':
            q = z3.If(a[1] > 0, a[0] / a[1], (-a[0]) / (-a[1]))
            return a[0] - q * a[1]
        if op == 'toreal': return z3.ToReal(a[0])
        if op == 'floor': return z3.ToInt(a[0])
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'lt': return a[0] < a[1]
        if op == 'le': return a[0] <= a[1]
        if op == 'eq': return a[0] == a[1]
        if op == 'iff': return a[0] == a[1]
        if op == 'not': return z3.Not(a[0])
        if op == 'and': return z3.And(*a)
        if op == 'or': return z3.Or(*a)
        if op == 'sqrt':
            s = z3.Real('sqrt!%d' % n.id)
            self.side[n.id] = [s >= 0, z3.Implies(a[0] >= 0, s * s == a[0])]
            return s
        if op in ('exp', 'log', 'sin', 'cos', 'tanh'):
            f = z3.Function('f_' + op, z3.RealSort(), z3.RealSort())
            t = f(a[0])
            ax = []
            if op == 'exp':
                ax = [t > 0, z3.Implies(a[0] <= 0, t <= 1), z3.Implies(a[0] >= 0, t >= 1)]
            elif op == 'log':
                ax = [z3.Implies(a[0] >= 1, t >= 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), t < 0),
                      z3.Implies(a[0] > 1, t > 0)]
            else:
                ax = [t <= 1, t >= -1]
            self.side[n.id] = ax
            return t
        if op == 'uf':
            zs = {R: z3.RealSort(), I: z3.IntSort(), B: z3.BoolSort()}
            if not a:
                return z3.Const(n.val, zs[n.sort])
            f = z3.Function('u_' + n.val, *([x.sort() for x in a] + [zs[n.sort]]))
            return f(*a)
        raise NotImplementedError(op)

    def constraints(self, roots):
        """side constraints of every node below roots"""
        out = []
        for n in topo(roots):
            out.extend(self.side.get(n.id, ()))
        return out


def show(n, depth=6):
    if n.op in ('const', 'bconst', 'special'):
        if n.op == 'const' and n.val.denominator > 1000:
            return '%g' % float(n.val)
        return str(n.val)
    if n.op == 'var':
        return str(n.val)
    if depth == 0:
        return '..'
    sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '=='}
    if n.op in sym:
        return '(%s %s %s)' % (show(n.args[0], depth - 1), sym[n.op], show(n.args[1], depth - 1))
    return '%s(%s)' % (n.val if n.op == 'uf' else n.op, ', '.join(show(x, depth - 1) for x in n.args))
