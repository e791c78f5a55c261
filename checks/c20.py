"""C20: guarded division never divides by zero (IEEE-exact and real)."""
import math

import numpy as np
import z3

from sx import fpexec as F
from sx import prove as P
from sx.harness import Job, tf

PROPERTY = 'C20'
FUNCTIONS = ['pysgmcmc.tensor_utils.safe_divide']
BOUNDS = ('one division with arbitrary finite numerator and denominator: every float64 and every float32 bit pattern '
          '(IEEE encoding, with and without the flush-to-zero mode of the TensorFlow CPU runtime), small constants '
          '1e-16 (default), 1e-8, 2^-10; plus all real x, y in exact arithmetic with a symbolic small constant')
ASSUMPTIONS = ['elementwise application to tensors acts like the scalar case',
               'under flush-to-zero a denormal denominator counts as zero (sign not kept)',
               'small constants lie between 1e-30 and 1']
DT = {'float64': tf.float64, 'float32': tf.float32}


def graph(dtype, c):
    from pysgmcmc.tensor_utils import safe_divide
    x = tf.placeholder(dtype, shape=())
    y = tf.placeholder(dtype, shape=())
    q = safe_divide(x, y) if c is None else safe_divide(x, y, small_constant=c)
    return x, y, q


def divisors(q):
    """denominators of all divisions the result depends on"""
    seen, stack, out = set(), [q.op], []
    while stack:
        op = stack.pop()
        if op.name in seen:
            continue
        seen.add(op.name)
        if op.type in ('RealDiv', 'Div'):
            out.append(op.inputs[1])
        elif op.type in ('Reciprocal', 'Inv'):
            out.append(op.inputs[0])
        stack.extend(i.op for i in op.inputs)
    return out


def concrete(env, dtype, c):
    """the same conditions on the real code for one pair of floats"""
    npt = np.dtype(dtype)
    x, y = npt.type(env.real('x')), npt.type(env.real('y'))
    cc = npt.type(1e-16 if c is None else c)
    with env.tf_graph() as sess:
        px, py, q = graph(DT[dtype], c)
        ds = divisors(q)
        got = sess.run([q] + ds, {px: x, py: y})
    env.check('result is never NaN', not math.isnan(got[0]))
    tiny = np.finfo(npt).tiny
    for d in got[1:]:
        env.check('denominator is not zero', d != 0)
        if abs(y) >= tiny:
            env.check('sign of the denominator is kept', (d > 0) == (y > 0))
        env.check('magnitude at least the small constant', abs(d) >= cc)
        env.check('close to the given denominator', abs(np.float64(d) - np.float64(y)) <= 6 * np.float64(cc))


def bitprecise(job, res):
    dtype, c = job.cfg['dtype'], job.cfg['c']
    sort = F.SORTS[DT[dtype]]
    out = []
    with tf.Graph().as_default():
        px, py, q = graph(DT[dtype], c)
        for daz in (True, False):
            x, y = z3.FP('x', sort), z3.FP('y', sort)
            ev = F.Eval({px: x, py: y}, daz=daz)
            r = ev(q)
            res['opkinds'].update({k: ev.ops.count(k) for k in set(ev.ops)})
            res['ops'] += len(ev.ops)
            fin = [z3.Not(z3.fpIsInf(v)) for v in (x, y)] + [z3.Not(z3.fpIsNaN(v)) for v in (x, y)]
            zero = F.fpval(0, sort)
            cc = F.fpval(1e-16 if c is None else c, sort)
            goals = []
            for name, d in ev.divisors:
                goals += [
                    ('denominator is not zero', z3.And(z3.Not(z3.fpIsZero(d)), z3.Not(z3.fpIsNaN(d)))),
                    ('sign of the denominator is kept',
                     z3.Or(z3.fpIsZero(y), z3.fpIsSubnormal(y), z3.fpGT(d, zero) == z3.fpGT(y, zero))),
                    ('magnitude at least the small constant', z3.fpGEQ(z3.fpAbs(d), cc)),
                    ('close to the given denominator',
                     z3.fpLEQ(z3.fpAbs(z3.fpSub(F.RM, d, y)), F.fpval(6 * (1e-16 if c is None else c), sort))),
                ]
            # a NaN quotient of a finite numerator needs a zero, NaN or
            # infinite denominator; the quotient itself is abstracted
            if len(ev.divisors) == 1 and r.decl().kind() in (z3.Z3_OP_FPA_DIV, z3.Z3_OP_ITE):
                d = ev.divisors[0][1]
                goals.append(('result is never NaN', z3.Not(z3.Or(z3.fpIsNaN(d), z3.fpIsZero(d)))))
            else:
                goals.append(('result is never NaN', z3.Not(z3.fpIsNaN(r))))
            for label, g in goals:
                P.STATS.goals += 1
                res['goals'] += 1
                st, m = F.refute(fin + ev.side + [z3.Not(g)], 60, P.STATS)
                if st == 'sat':
                    out.append((label, dict(x=F.pyval(m, x), y=F.pyval(m, y))))
                elif st == 'unknown':
                    out.append(('unknown', '%s (%s, daz=%s)' % (label, dtype, daz)))
    return out


def exact(env, symbolic_c):
    x, y = env.real('x'), env.real('y')
    c = env.real('c', 'pos') if symbolic_c else None
    with env.tf_graph() as sess:
        if symbolic_c:
            env.assume(c <= 1)
            c = env.where(c < 1e-12, 1e-12, c)   # replayable in float64
            from pysgmcmc.tensor_utils import safe_divide
            px, py = tf.placeholder(tf.float64, shape=()), tf.placeholder(tf.float64, shape=())
            q = safe_divide(px, py, small_constant=tf.constant(c, dtype=tf.float64))
        else:
            px, py, q = graph(tf.float64, None)
            c = 1e-16
        ds = divisors(q)
        env.expect('one division', len(ds) >= 1)
        got = sess.run([q] + ds, {px: x, py: y})
    if not env.symbolic and abs(y) < 1e-300:
        y = 0.0
    for d in got[1:]:
        env.check('denominator is not zero', env.not_(d == 0))
        env.check('sign kept', env.any(y == 0, env.all(y > 0, d > 0), env.all(y < 0, d < 0)))
        env.check('magnitude', env.any(d >= c, -d >= c))
        # rounding slack for the replay: 6c, as in the bit-precise statement
        k = 3 if env.symbolic else 6
        env.check('close', env.all(d - y <= k * c, y - d <= k * c))


def jobs(tier):
    out = []
    for dt in ('float64', 'float32'):
        for c in (None, 1e-8, 2.0 ** -10):
            out.append(Job('ieee', concrete, dict(dtype=dt, c=c), custom=bitprecise, optional=True, wall=400))
    out.append(Job('real', exact, dict(symbolic_c=False), ideal=False))
    out.append(Job('real', exact, dict(symbolic_c=True), ideal=False))
    return out
