"""C21: guarded square root is total and exact."""
import math

import numpy as np
import z3

from sx import fpexec as F
from sx import prove as P
from sx.harness import Job, tf

PROPERTY = 'C21'
FUNCTIONS = ['pysgmcmc.tensor_utils.safe_sqrt']
BOUNDS = ('every float64 and float32 input that is not NaN, infinities and denormals included, with the default bounds and '
          'with arbitrary bounds 0 <= lo <= hi (IEEE encoding); plus all real inputs in exact arithmetic')
ASSUMPTIONS = ['the IEEE square root instruction is correctly rounded (uninterpreted in the encoding, with its sign and NaN facts)',
               'under flush-to-zero a denormal input counts as zero',
               'elementwise application to tensors acts like the scalar case', 'clip bounds satisfy 0 <= lo <= hi']
DT = {'float64': tf.float64, 'float32': tf.float32}


def graph(dtype, bounds):
    from pysgmcmc.tensor_utils import safe_sqrt
    x = tf.placeholder(dtype, shape=())
    if not bounds:
        return x, None, None, safe_sqrt(x)
    lo, hi = tf.placeholder(dtype, shape=()), tf.placeholder(dtype, shape=())
    return x, lo, hi, safe_sqrt(x, clip_value_min=lo, clip_value_max=hi)


def concrete(env, dtype, bounds):
    npt = np.dtype(dtype)
    x = npt.type(env.real('x'))
    lo, hi = npt.type(0), npt.type(float('inf'))
    with env.tf_graph() as sess:
        px, pl, ph, r = graph(DT[dtype], bounds)
        feed = {px: x}
        if bounds:
            lo, hi = npt.type(env.real('lo')), npt.type(env.real('hi'))
            feed.update({pl: lo, ph: hi})
        got = sess.run(r, feed)
    env.check('never NaN', not math.isnan(got))
    env.check('never negative', got >= 0)
    clipped = min(max(x, lo), hi)
    tiny = np.finfo(npt).tiny
    if clipped == 0 or clipped >= tiny:
        # relative, however small the value
        want = float(np.sqrt(clipped))
        env.check('square root of the clipped input', float(got) == want or abs(float(got) - want) <= 1e-6 * want)


def bitprecise(job, res):
    dtype, bounds = job.cfg['dtype'], job.cfg['bounds']
    sort = F.SORTS[DT[dtype]]
    out = []
    with tf.Graph().as_default():
        px, pl, ph, r = graph(DT[dtype], bounds)
        for daz in (True, False):
            x = z3.FP('x', sort)
            feeds = {px: x}
            lo, hi = F.fpval(0, sort), F.fpval(float('inf'), sort)
            pre = [z3.Not(z3.fpIsNaN(x))]
            vs = dict(x=x)
            if bounds:
                lo, hi = z3.FP('lo', sort), z3.FP('hi', sort)
                feeds.update({pl: lo, ph: hi})
                vs.update(lo=lo, hi=hi)
                pre += [z3.fpLEQ(F.fpval(0, sort), lo), z3.fpLEQ(lo, hi)]
                pre += [z3.Not(z3.fpIsSubnormal(v)) for v in (lo, hi)]
            ev = F.Eval(feeds, daz=daz)
            y = ev(r)
            res['opkinds'].update({k: ev.ops.count(k) for k in set(ev.ops)})
            res['ops'] += len(ev.ops)
            clip = z3.If(z3.fpLT(x, lo), lo, z3.If(z3.fpLT(hi, x), hi, x))
            if daz:
                clip = ev.flush(clip)
            ref = ev.sqrt(clip)
            zero = F.fpval(0, sort)
            # sqrt(-0) is -0, which equals 0
            side = list(ev.side)
            for f in ev._uf.values():
                side += [z3.fpIsZero(f(z3.fpMinusZero(sort))), z3.fpIsZero(f(z3.fpPlusZero(sort)))]
            goals = [('never NaN', z3.Not(z3.fpIsNaN(y))), ('never negative', z3.fpGEQ(y, zero)),
                     ('square root of the clipped input', z3.fpEQ(y, ref))]
            for label, g in goals:
                P.STATS.goals += 1
                res['goals'] += 1
                st, m = F.refute(pre + side + [z3.Not(g)], 60, P.STATS)
                if st == 'sat':
                    out.append((label, {k: F.pyval(m, v) for k, v in vs.items()}))
                elif st == 'unknown':
                    out.append(('unknown', '%s (%s, daz=%s)' % (label, dtype, daz)))
    return out


def exact(env, shape, bounds):
    from pysgmcmc.tensor_utils import safe_sqrt
    x = env.array('x', shape)
    with env.tf_graph() as sess:
        p = tf.placeholder(tf.float64, shape=shape)
        if bounds:
            lo, d = env.real('lo', 'nonneg'), env.real('d', 'nonneg')
            hi = lo + d
            r = safe_sqrt(p, clip_value_min=tf.constant(lo, dtype=tf.float64),
                          clip_value_max=tf.constant(hi, dtype=tf.float64))
        else:
            lo, hi = 0.0, None
            r = safe_sqrt(p)
        got = sess.run(r, {p: x})
    for g, v in zip(got.reshape(-1) if shape else [got], x.reshape(-1)):
        c = env.maximum(v, lo)
        if hi is not None:
            c = env.minimum(c, hi)
        env.equal('square root of clipped input', g, env.sqrt(c))
        env.check('not negative', g >= 0)


def jobs(tier):
    out = []
    for dt in ('float64', 'float32'):
        for b in (False, True):
            out.append(Job('ieee', concrete, dict(dtype=dt, bounds=b), custom=bitprecise, optional=True, wall=400, rel_tol=1e-6))
    for b in (False, True):
        for s in ((), (2,), (2, 2)):
            out.append(Job('real', exact, dict(shape=s, bounds=b), ideal=False))
    return out
