"""Shared harness for pysgmcmc.diagnostics (C30-C33): pymc3 is not installed,
so its MultiTrace and diagnostics are stand-ins that record what they are given."""
import sys
import types

from sx import stubs
from sx import sym as S
from sx import expr as E


class MultiTrace(object):
    def __init__(self, straces):
        self.straces = list(straces)


CALLS = []


def _diagnostic(name):
    def f(multitrace, *args, **kwargs):
        r = object()
        CALLS.append((name, multitrace, args, kwargs, r))
        return r
    f.__name__ = name
    return f


def install():
    if 'pymc3' in sys.modules:
        return
    m = {n: types.ModuleType(n) for n in ('pymc3', 'pymc3.backends', 'pymc3.backends.base', 'pymc3.diagnostics')}
    m['pymc3.backends.base'].MultiTrace = MultiTrace
    m['pymc3.backends'].base = m['pymc3.backends.base']
    m['pymc3'].backends = m['pymc3.backends']
    m['pymc3'].diagnostics = m['pymc3.diagnostics']
    for n in ('effective_n', 'gelman_rubin'):
        f = _diagnostic(n)
        setattr(m['pymc3.diagnostics'], n, f)
        setattr(m['pymc3'], n, f)
    m['pymc3.diagnostics'].__dict__['geweke'] = _diagnostic('geweke')
    sys.modules.update(m)


install()


@stubs.register
def _logsumexp(env):
    """scipy's logsumexp by its definition, on arrays that hold symbolic values"""
    import numpy as np
    import scipy.special
    orig = scipy.special.logsumexp

    def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
        arr = np.asarray(a, dtype=object)
        if not any(S.is_sym(v) for v in arr.reshape(-1)) and not any(S.is_sym(v) for v in np.asarray(b, dtype=object).reshape(-1)):
            return orig(a, axis=axis, b=b, keepdims=keepdims, return_sign=return_sign)
        if return_sign:
            raise S.Unsupported('logsumexp with signs')
        e = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(*arr.shape):
            e[i] = S.wrap(E.exp(S.real(arr[i])))
        if b is not None:
            e = e * np.asarray(b, dtype=object)
        s = e.sum(axis=axis, keepdims=keepdims)
        if isinstance(s, np.ndarray):
            out = np.empty(s.shape, dtype=object)
            for i in np.ndindex(*s.shape):
                out[i] = S.wrap(E.log(S.real(s[i])))
            return out
        return S.wrap(E.log(S.real(s)))

    touched = []
    scipy.special.logsumexp = logsumexp
    for name, mod in list(sys.modules.items()):
        if name.startswith('pysgmcmc') and mod is not None:
            for k, v in list(vars(mod).items()):
                if v is orig:
                    setattr(mod, k, logsumexp)
                    touched.append((mod, k))

    def undo():
        scipy.special.logsumexp = orig
        for mod, k in touched:
            setattr(mod, k, orig)
    return undo
