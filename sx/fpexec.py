"""Bit-precise evaluation of loop-free TensorFlow graphs with z3's IEEE floats.

Every op of the graph that the real code built is translated to SMT-LIB
floating-point terms (round to nearest even). With daz=True operands and
results that are denormal are flushed to zero, as TensorFlow's CPU runtime
does."""
import time

import numpy as np
import tensorflow as tf
import z3

from sx.sym import Unsupported

RM = z3.RNE()
SORTS = {tf.float64: z3.Float64(), tf.float32: z3.Float32(), tf.float16: z3.Float16()}


def fpval(v, sort):
    v = float(v)
    if np.isnan(v):
        return z3.fpNaN(sort)
    if np.isinf(v):
        return z3.fpPlusInfinity(sort) if v > 0 else z3.fpMinusInfinity(sort)
    return z3.FPVal(v, sort)


class Eval(object):
    """scalar graphs only"""

    def __init__(self, feeds, daz=False, uf_sqrt=True):
        self.feeds = {t.name: v for t, v in feeds.items()}
        self.daz = daz
        self.memo = {}
        self.divisors = []
        self.ops = []
        self.uf_sqrt = uf_sqrt
        self.side = []
        self._uf = {}

    def flush(self, t):
        if not self.daz:
            return t
        s = t.sort()
        zero = z3.If(z3.fpIsNegative(t), z3.fpMinusZero(s), z3.fpPlusZero(s))
        return z3.If(z3.fpIsSubnormal(t), zero, t)

    def sqrt(self, x):
        s = x.sort()
        if not self.uf_sqrt:
            return z3.fpSqrt(RM, x)
        f = self._uf.setdefault(str(s), z3.Function('fsqrt_%s' % s.sbits(), s, s))
        y = f(x)
        # facts about the IEEE square root
        self.side.append(z3.fpIsNaN(y) == z3.Or(z3.fpIsNaN(x), z3.fpLT(x, fpval(0, s))))
        self.side.append(z3.Or(z3.fpIsNaN(y), z3.fpGEQ(y, fpval(0, s))))
        return y

    def __call__(self, t):
        return self.tensor(t)

    def tensor(self, t):
        if t.name in self.feeds:
            return self.feeds[t.name]
        key = t.op.name
        if key not in self.memo:
            self.memo[key] = self.compute(t.op)
        return self.memo[key]

    def compute(self, op):
        typ = op.type
        self.ops.append(typ)
        if typ == 'Const':
            v = tf.make_ndarray(op.get_attr('value'))
            if v.size != 1:
                raise Unsupported('non-scalar constant %s' % op.name)
            dt = op.outputs[0].dtype.base_dtype
            v = v.reshape(-1)[0]
            if dt in SORTS:
                return fpval(v, SORTS[dt])
            if dt == tf.bool:
                return z3.BoolVal(bool(v))
            raise Unsupported('constant dtype %s' % dt)
        if typ in ('Identity', 'Snapshot', 'StopGradient', 'CheckNumerics', 'PreventGradient'):
            return self.tensor(op.inputs[0])
        if typ in ('Reshape', 'Squeeze', 'ExpandDims'):
            return self.tensor(op.inputs[0])
        a = [self.tensor(x) for x in op.inputs]
        fl = self.flush
        if a and all(isinstance(x, z3.FPRef) for x in a):
            a = [fl(x) for x in a]
        if typ in ('Add', 'AddV2'):
            return fl(z3.fpAdd(RM, a[0], a[1]))
        if typ == 'Sub':
            return fl(z3.fpSub(RM, a[0], a[1]))
        if typ == 'Mul':
            return fl(z3.fpMul(RM, a[0], a[1]))
        if typ == 'AddN':
            r = a[0]
            for x in a[1:]:
                r = fl(z3.fpAdd(RM, r, x))
            return r
        if typ in ('RealDiv', 'Div'):
            self.divisors.append((op.name, a[1]))
            return fl(z3.fpDiv(RM, a[0], a[1]))
        if typ == 'DivNoNan':
            s = a[0].sort()
            return z3.If(z3.fpIsZero(a[1]), fpval(0, s), fl(z3.fpDiv(RM, a[0], a[1])))
        if typ in ('Reciprocal', 'Inv'):
            self.divisors.append((op.name, a[0]))
            return fl(z3.fpDiv(RM, fpval(1, a[0].sort()), a[0]))
        if typ == 'Neg':
            return z3.fpNeg(a[0])
        if typ == 'Abs':
            return z3.fpAbs(a[0])
        if typ == 'Square':
            return fl(z3.fpMul(RM, a[0], a[0]))
        if typ == 'Sign':
            s = a[0].sort()
            one = fpval(1, s)
            return z3.If(z3.fpIsNaN(a[0]), a[0], z3.If(z3.fpIsZero(a[0]), fpval(0, s),
                                                       z3.If(z3.fpIsNegative(a[0]), z3.fpNeg(one), one)))
        if typ in ('Maximum', 'Minimum'):
            x, y = a
            # Eigen: (x < y) ? y : x for max, NaN propagates from either side
            nan = z3.fpNaN(x.sort())
            c = z3.fpLT(x, y) if typ == 'Maximum' else z3.fpLT(y, x)
            return z3.If(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)), nan, z3.If(c, y, x))
        if typ == 'ClipByValue':
            x, lo, hi = a
            m = z3.If(z3.fpLT(hi, x), hi, x)
            return z3.If(z3.fpLT(m, lo), lo, m)
        if typ == 'Sqrt':
            return self.sqrt(a[0])
        if typ == 'Rsqrt':
            return z3.fpDiv(RM, fpval(1, a[0].sort()), self.sqrt(a[0]))
        if typ == 'Relu':
            return z3.If(z3.fpLT(a[0], fpval(0, a[0].sort())), fpval(0, a[0].sort()), a[0])
        if typ == 'Less':
            return z3.fpLT(a[0], a[1])
        if typ == 'LessEqual':
            return z3.fpLEQ(a[0], a[1])
        if typ == 'Greater':
            return z3.fpGT(a[0], a[1])
        if typ == 'GreaterEqual':
            return z3.fpGEQ(a[0], a[1])
        if typ == 'Equal':
            return z3.fpEQ(a[0], a[1]) if isinstance(a[0], z3.FPRef) else a[0] == a[1]
        if typ == 'NotEqual':
            return z3.Not(z3.fpEQ(a[0], a[1])) if isinstance(a[0], z3.FPRef) else a[0] != a[1]
        if typ == 'LogicalNot':
            return z3.Not(a[0])
        if typ == 'LogicalAnd':
            return z3.And(a[0], a[1])
        if typ == 'LogicalOr':
            return z3.Or(a[0], a[1])
        if typ in ('Select', 'SelectV2'):
            return z3.If(a[0], a[1], a[2])
        if typ in ('ZerosLike',):
            return fpval(0, a[0].sort())
        if typ in ('OnesLike',):
            return fpval(1, a[0].sort())
        if typ == 'Fill':
            return a[1]
        if typ == 'Cast':
            src, dst = op.inputs[0].dtype.base_dtype, op.outputs[0].dtype.base_dtype
            if dst in SORTS and isinstance(a[0], z3.FPRef):
                return a[0] if src == dst else z3.fpFPToFP(RM, a[0], SORTS[dst])
            if dst in SORTS and z3.is_bool(a[0]):
                return z3.If(a[0], fpval(1, SORTS[dst]), fpval(0, SORTS[dst]))
        if typ == 'IsNan':
            return z3.fpIsNaN(a[0])
        if typ == 'IsInf':
            return z3.fpIsInf(a[0])
        if typ == 'IsFinite':
            return z3.Not(z3.Or(z3.fpIsNaN(a[0]), z3.fpIsInf(a[0])))
        raise Unsupported('floating-point op %s' % typ)


def pyval(m, t):
    """model value of a floating-point constant -> python float"""
    v = m.eval(t, model_completion=True)
    if z3.is_true(z3.simplify(z3.fpIsNaN(v))):
        return float('nan')
    if z3.is_true(z3.simplify(z3.fpIsInf(v))):
        return float('-inf') if z3.is_true(z3.simplify(z3.fpIsNegative(v))) else float('inf')
    bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    w = {64: (np.uint64, np.float64), 32: (np.uint32, np.float32), 16: (np.uint16, np.float16)}[v.sort().ebits() + v.sort().sbits()]
    return float(np.array([bv], dtype=w[0]).view(w[1])[0])


def refute(asserts, timeout, stats, extra_models=0):
    """('unsat'|'sat'|'unknown', model)"""
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for a in asserts:
        s.add(a)
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    stats.queries += 1
    stats.time += dt
    stats.slowest = max(stats.slowest, dt)
    if r == z3.unsat:
        stats.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        stats.sat += 1
        return 'sat', s.model()
    stats.unknown += 1
    return 'unknown', None
