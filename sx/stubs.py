"""Environment stubs: active only while code runs symbolically."""
_active = []


def enter_symbolic(env):
    for f in _enter:
        _active.append(f(env))


def leave_symbolic():
    while _active:
        u = _active.pop()
        if u:
            u()


_enter = []


def register(f):
    """f(env) -> undo callable; run around every symbolic execution"""
    _enter.append(f)
    return f


@register
def _arange(env):
    """numpy builds index ranges in C: a symbolic bound is forked over its values"""
    import numpy as np
    from sx import sym as S
    orig = np.arange

    def conc(v):
        return int(v) if type(v) is S.SymInt else v

    def arange(*a, **k):
        return orig(*[conc(v) for v in a], **dict((n, conc(v)) for n, v in k.items()))
    np.arange = arange

    def undo():
        np.arange = orig
    return undo


@register
def _deque(env):
    """collections.deque wants a machine integer; a symbolic maxlen stays a term"""
    import collections
    import sys
    from sx import sym as S
    orig = collections.deque

    class deque(orig):
        def __new__(cls, iterable=(), maxlen=None):
            if type(maxlen) is S.SymInt:
                return bounded(iterable, maxlen)
            return orig(iterable, maxlen)

    class bounded(list):
        def __init__(self, iterable, maxlen):
            if maxlen < 0:
                raise ValueError('maxlen must be non-negative')
            self.maxlen = maxlen
            for x in iterable:
                self.append(x)

        def append(self, x):
            list.append(self, x)
            if len(self) > self.maxlen:
                self.pop(0)

        def popleft(self):
            return self.pop(0)

        def extend(self, xs):
            for x in xs:
                self.append(x)
    changed = [(collections, 'deque')]
    changed += [(m, 'deque') for n, m in list(sys.modules.items()) if n.startswith('pysgmcmc') and getattr(m, 'deque', None) is orig]
    for m, k in changed:
        setattr(m, k, deque)

    def undo():
        for m, k in changed:
            setattr(m, k, orig)
    return undo


@register
def _elementwise(env):
    """numpy's elementary functions on object arrays that mix symbolic values and plain numbers"""
    import numpy as np
    from sx import expr as E
    from sx import sym as S

    def sinc(n):
        y = E.mul(E.const(np.pi), n)
        return E.ite(E.eq(n, E.ZERO), E.ONE, E.div(E.sin(y), y))

    def log1p(n): return E.log(E.add(E.ONE, n))
    def expm1(n): return E.sub(E.exp(n), E.ONE)
    def exp2(n): return E.exp(E.mul(E.const(np.log(2.0)), n))
    def log2(n): return E.div(E.log(n), E.const(np.log(2.0)))
    def log10(n): return E.div(E.log(n), E.const(np.log(10.0)))

    def rint(n):
        # round half to even
        f = E.toreal(E.floor(n))
        d = E.sub(n, f)
        half = E.const(0.5)
        even = E.eq(E.mul(E.const(2.0), E.toreal(E.floor(E.mul(half, f)))), f)
        up = E.or_(E.lt(half, d), E.and_(E.eq(d, half), E.not_(even)))
        return E.ite(up, E.add(f, E.ONE), f)

    def isnan(n): return n is E.NAN
    def isinf(n): return n is E.INF or n is E.NINF
    def isfinite(n): return not (isnan(n) or isinf(n))
    table = dict(exp=E.exp, log=E.log, sin=E.sin, cos=E.cos, sqrt=E.sqrt, tanh=E.tanh, sinc=sinc, log1p=log1p, expm1=expm1,
                 exp2=exp2, log2=log2, log10=log10, rint=rint, fabs=E.abs_, isnan=isnan, isinf=isinf, isfinite=isfinite)
    orig = {k: getattr(np, k) for k in table}

    def make(name, f, o):
        w = np.bool_ if name.startswith('is') else S.wrap

        def g(x, *args, **kw):
            if type(x) in (S.SymReal, S.SymInt):
                return w(f(S.real(x)))
            if not args and not kw and isinstance(x, (np.ndarray, list, tuple)):
                a = np.asarray(x)
                if a.dtype == object and any(S.is_sym(v) for v in a.reshape(-1)):
                    out = np.empty(a.shape, dtype=bool if w is np.bool_ else object)
                    for i in np.ndindex(*a.shape):
                        out[i] = w(f(S.real(a[i])))
                    return out if a.ndim else out[()]
            return o(x, *args, **kw)
        g.__name__ = name
        return g
    for k, f in table.items():
        setattr(np, k, make(k, f, orig[k]))

    def undo():
        for k, o in orig.items():
            setattr(np, k, o)
    return undo


@register
def _numpy_functions(env):
    """numpy functions implemented in C, on arrays that hold symbolic values"""
    import numpy as np
    from sx import expr as E
    from sx import sym as S

    def symbolic(*xs):
        for x in xs:
            if S.is_sym(x):
                return True
            if isinstance(x, (np.ndarray, list, tuple)):
                a = np.asarray(x)
                if a.dtype == object and any(S.is_sym(v) for v in a.reshape(-1)):
                    return True
        return False

    def bmap(f, *xs):
        xs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in xs])
        out = np.empty(xs[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = S.wrap(f(*[S.real(x[i]) for x in xs]))
        return out if out.ndim else out[()]

    def hypot(a, b): return bmap(lambda u, v: E.sqrt(E.add(E.mul(u, u), E.mul(v, v))), a, b)
    def logaddexp(a, b): return bmap(lambda u, v: E.log(E.add(E.exp(u), E.exp(v))), a, b)

    def float_power(a, b):
        return np.asarray(a, dtype=object) ** b

    def round_(a, decimals=0, out=None):
        k = 10.0 ** decimals
        return np.rint(np.asarray(a, dtype=object) * k) / k if decimals else np.rint(a)

    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        def f(u, v):
            if u in (E.NAN, E.INF, E.NINF) or v in (E.NAN, E.INF, E.NINF):
                return E.const(u is v and (equal_nan or u is not E.NAN))
            return E.le(E.abs_(E.sub(u, v)), E.add(E.const(atol), E.mul(E.const(rtol), E.abs_(v))))
        return bmap(f, a, b)

    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        for v in np.asarray(isclose(a, b, rtol, atol, equal_nan), dtype=object).reshape(-1):
            if not v:
                return False
        return True

    def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
        big = np.finfo(np.float64).max
        sub = {E.NAN: nan, E.INF: big if posinf is None else posinf, E.NINF: -big if neginf is None else neginf}
        a = np.asarray(x, dtype=object)
        out = a.copy() if copy or not isinstance(x, np.ndarray) else a
        for i in np.ndindex(*a.shape):
            n = S.lift(a[i])
            if n in sub:
                out[i] = sub[n]
        return out if out.ndim else out[()]

    def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if axis:
            raise S.Unsupported('linspace with an axis')
        num = int(num)
        div = num - 1 if endpoint else num
        start, stop = np.asarray(start, dtype=object), np.asarray(stop, dtype=object)
        step = (stop - start) / div if div > 0 else float('nan')
        out = np.array([start + i * step if i else start + 0 * stop for i in range(num)], dtype=object)
        return (out, step) if retstep else out

    def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None):
        if y is not None or fweights is not None or aweights is not None:
            raise S.Unsupported('np.cov with weights')
        X = np.array(m, dtype=object, ndmin=2)
        if not rowvar and X.shape[0] != 1:
            X = X.T
        n = X.shape[1]
        fact = n - (ddof if ddof is not None else (0 if bias else 1))
        X = X - (X.sum(axis=1) / n)[:, None]
        return np.squeeze(X.dot(X.T) / fact)

    def isneginf(x): return bmap_bool(lambda u: u is E.NINF, x)
    def isposinf(x): return bmap_bool(lambda u: u is E.INF, x)

    def bmap_bool(f, x):
        a = np.asarray(x, dtype=object)
        return np.array([f(S.real(v)) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)[()]

    changed = []

    def patch(mod, name, f):
        o = getattr(mod, name)

        def g(*a, **k):
            if symbolic(*(a + tuple(k.values()))):
                return f(*a, **k)
            return o(*a, **k)
        g.__name__ = name
        changed.append((mod, name, o))
        setattr(mod, name, g)
    for name, f in dict(hypot=hypot, logaddexp=logaddexp, float_power=float_power, round=round_, around=round_, round_=round_, isclose=isclose,
                        allclose=allclose, nan_to_num=nan_to_num, linspace=linspace, cov=cov, isneginf=isneginf, isposinf=isposinf).items():
        if hasattr(np, name):
            patch(np, name, f)

    def undo():
        for mod, name, o in changed:
            setattr(mod, name, o)
    return undo
