"""Symbolic values that flow through the real python/numpy code, and the
depth-first path exploration by re-execution."""
import math
import numbers
from fractions import Fraction

import numpy as np

from sx import expr as E
from sx import prove as P


class Unsupported(Exception):
    """The engine cannot encode what the code does."""


class Infeasible(BaseException):
    """Path ends: assumption not satisfiable."""


class PathLimit(Exception):
    pass


class Path(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.pending = []      # alternative prefixes discovered
        self.nconc = 0

    def assume(self, node):
        if node is E.TRUE:
            return
        if node is E.FALSE:
            raise Infeasible()
        self.pc.append(node)

    def branch(self, node):
        if node is E.TRUE:
            return True
        if node is E.FALSE:
            return False
        neg = E.not_(node)
        for a in self.pc:
            if a is node:
                return True
            if a is neg:
                return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            can_t = P.check(self.pc + [node], timeout=4)[0] != 'unsat'
            if not can_t:
                can_f = True
            else:
                can_f = P.check(self.pc + [neg], timeout=4)[0] != 'unsat'
            if can_t and can_f:
                d = True
                self.pending.append(self.decisions + [False])
            else:
                d = can_t
                # forced: no decision recorded would break replay of prefixes,
                # so it is recorded too
        self.decisions.append(d)
        self.pc.append(node if d else neg)
        return d

    def concretize(self, node):
        """fork over the feasible values of an integer node"""
        if node.op == 'const':
            return int(node.val)
        self.nconc += 1
        tried = 0
        while True:
            r, m = P.check(self.pc + [E.eq(node, E.var('conc!', node.sort))], timeout=4)
            if r == 'unsat':
                raise Infeasible()
            if r != 'sat':
                raise Unsupported('cannot concretise %s' % E.show(node, 3))
            v = m.pop('conc!')
            if v is None:
                if None in m.values():
                    raise Unsupported('cannot concretise %s' % E.show(node, 3))
                v = round(float(E.evaluate([node], m)[0]))
            v = int(v)
            if self.branch(E.eq(node, E.const(v) if node.sort == E.I else E.const(Fraction(v)))):
                return v
            tried += 1
            if tried > 200:
                raise Unsupported('too many values for %s' % E.show(node, 3))


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic branch outside of a path')
    return CTX


def explore(fn, max_paths=2000):
    """Yields (path, result, exception) for every feasible path of fn()."""
    global CTX
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths:
            raise PathLimit('more than %d paths' % max_paths)
        p = Path(prefix)
        CTX = p
        res, exc = None, None
        try:
            res = fn(p)
        except Infeasible:
            stack.extend(p.pending)
            CTX = None
            continue
        except Exception as e:
            exc = e
        finally:
            CTX = None
        stack.extend(p.pending)
        CTX = p
        try:
            yield p, res, exc
        finally:
            CTX = None


def lift(x):
    """python value -> node, or None"""
    if type(x) in (SymReal, SymInt, SymBool):
        return x.node
    if isinstance(x, E.Node):
        return x
    if isinstance(x, (bool, np.bool_)):
        return E.const(bool(x))
    if isinstance(x, (int, np.integer)):
        return E.const(int(x))
    if isinstance(x, Fraction):
        return E.const(x)
    if isinstance(x, (float, np.floating)):
        return E.const(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    return None


def wrap(n):
    if n.sort == E.B:
        if n is E.TRUE:
            return True
        if n is E.FALSE:
            return False
        return SymBool(n)
    if n.sort == E.I:
        if n.op == 'const':
            return int(n.val)
        return SymInt(n)
    return SymReal(n)


def real(x):
    """anything numeric -> real node"""
    n = lift(x)
    if n is None:
        raise Unsupported('not a number: %r' % (type(x),))
    return E.toreal(n)


def _bin(f, realonly=False):
    def op(self, other):
        o = lift(other) if not isinstance(other, np.ndarray) else None
        if o is None:
            return NotImplemented
        return wrap(f(self.node, o))

    def rop(self, other):
        o = lift(other) if not isinstance(other, np.ndarray) else None
        if o is None:
            return NotImplemented
        return wrap(f(o, self.node))
    return op, rop


def _floordiv(a, b):
    if a.sort == E.I and b.sort == E.I:
        return E.idiv(a, b)
    return E.toreal(E.floor(E.div(a, b)))


def _mod(a, b):
    if a.sort == E.I and b.sort == E.I:
        return E.imod(a, b)
    return E.sub(E.toreal(a), E.mul(E.toreal(b), E.toreal(E.floor(E.div(a, b)))))


def _pow(a, b):
    if b.op == 'const':
        v = b.val
        if a.sort == E.I and (v < 0 or v.denominator != 1):
            a = E.toreal(a)
        return E.powc(a, v)
    if a.op == 'const' and a.sort == E.I and b.sort == E.I:
        raise Unsupported('symbolic exponent')
    return E.uf('pow', (E.toreal(a), E.toreal(b)))


class _Sym(object):
    __slots__ = ('node',)
    __array_priority__ = 0

    def __init__(self, node):
        self.node = node

    __add__, __radd__ = _bin(E.add)
    __sub__, __rsub__ = _bin(E.sub)
    __mul__, __rmul__ = _bin(E.mul)
    __truediv__, __rtruediv__ = _bin(E.div)
    __floordiv__, __rfloordiv__ = _bin(_floordiv)
    __mod__, __rmod__ = _bin(_mod)
    __pow__, __rpow__ = _bin(_pow)
    __lt__, _ = _bin(E.lt)
    __le__, _ = _bin(E.le)
    __gt__, _ = _bin(lambda a, b: E.lt(b, a))
    __ge__, _ = _bin(lambda a, b: E.le(b, a))
    __eq__, _ = _bin(E.eq)
    __ne__, _ = _bin(lambda a, b: E.not_(E.eq(a, b)))
    del _

    def __hash__(self):
        return hash(self.node.id)

    def __neg__(self): return wrap(E.neg(self.node))
    def __pos__(self): return self
    def __abs__(self): return wrap(E.abs_(self.node))

    def __bool__(self):
        z = E.ZERO if self.node.sort == E.R else E.const(0)
        return ctx().branch(E.not_(E.eq(self.node, z)))

    def sqrt(self): return wrap(E.sqrt(self.node))
    def exp(self): return wrap(E.exp(self.node))
    def log(self): return wrap(E.log(self.node))
    def sin(self): return wrap(E.sin(self.node))
    def cos(self): return wrap(E.cos(self.node))
    def tanh(self): return wrap(E.tanh(self.node))
    def conjugate(self): return self
    def floor(self): return wrap(E.toreal(E.floor(self.node)))
    def ceil(self): return wrap(E.toreal(E.neg(E.floor(E.neg(self.node)))))
    def item(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __repr__(self): return '<%s>' % E.show(self.node, 4)
    __str__ = __repr__

    def __format__(self, spec): return repr(self)

    def __float__(self):
        n = E.toreal(self.node)
        if n.op == 'const':
            return float(n.val)
        if n.op == 'special':
            return float(n.val)
        # a sentinel stands for the symbolic value; it turns back into it when
        # it re-enters symbolic computation
        for v, k in E.SENTINELS.items():
            if k is n:
                return v
        v = 0.5 + (n.id + 1) * 2.0 ** -40 + math.pi * 2.0 ** -20
        E.SENTINELS[v] = n
        return v

    def __int__(self):
        n = self.node
        if n.sort == E.R:
            n = E.ite(E.le(E.ZERO, n), E.floor(n), E.neg(E.floor(E.neg(n))))
        return ctx().concretize(n)

    __trunc__ = __int__

    def __floor__(self): return wrap(E.floor(self.node))
    def __ceil__(self): return wrap(E.neg(E.floor(E.neg(self.node))))

    # conversion to tensors of the graph under construction
    def __tf_tensor__(self, dtype=None, name=None):
        from sx import tfexec
        return tfexec.sym_tensor(self, dtype)


class SymReal(_Sym):
    __slots__ = ()
    __class__ = property(lambda self: float)

    def is_integer(self):
        return wrap(E.eq(self.node, E.toreal(E.floor(self.node))))


class SymInt(_Sym):
    __slots__ = ()
    __class__ = property(lambda self: int)

    def __index__(self):
        return ctx().concretize(self.node)

    @property
    def shape(self):
        raise AttributeError('shape')


class SymBool(_Sym):
    __slots__ = ()
    __class__ = property(lambda self: bool)

    def __bool__(self):
        return ctx().branch(self.node)

    def __and__(self, o):
        return wrap(E.and_(self.node, _b(o)))
    __rand__ = __and__

    def __or__(self, o):
        return wrap(E.or_(self.node, _b(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return wrap(E.not_(E.eq(self.node, _b(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return wrap(E.not_(self.node))

    def logical_not(self):
        return wrap(E.not_(self.node))

    def __index__(self):
        return int(bool(self))

    def __eq__(self, o):
        n = lift(o)
        if n is None:
            return NotImplemented
        if n.sort == E.B:
            return wrap(E.eq(self.node, n))
        return wrap(E.eq(E.ite(self.node, E.const(1), E.const(0)), n))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return wrap(E.not_(lift(r)))

    def __hash__(self):
        return hash(self.node.id)


def _b(o):
    n = lift(o)
    if n is None or n.sort != E.B:
        raise Unsupported('boolean operation with %r' % type(o))
    return n


def is_sym(x):
    return type(x) in (SymReal, SymInt, SymBool)


def b(x):
    """python or symbolic truth value -> node"""
    n = lift(x)
    if n is None:
        return E.const(bool(x))
    if n.sort != E.B:
        return E.not_(E.eq(n, E.const(0, n.sort) if n.sort == E.I else E.ZERO))
    return n


def sym_array(arr):
    """array-like -> object ndarray of SymReal (floats) / python values"""
    a = np.asarray(arr)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    it = a.reshape(-1)
    flat = out.reshape(-1)
    for i in range(it.shape[0]):
        v = it[i]
        if a.dtype.kind == 'f':
            flat[i] = SymReal(E.const(float(v)))
        elif a.dtype.kind == 'b':
            flat[i] = bool(v)
        elif a.dtype.kind in 'iu':
            flat[i] = int(v)
        else:
            flat[i] = v
    return out
