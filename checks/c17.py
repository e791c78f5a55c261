import numpy as np

from checks import common as C
from sx import sym as S
from sx.harness import Job, tf

PROPERTY = 'C17'
FUNCTIONS = ['SGHMCSampler.__init__, SGLDSampler.__init__ (graphs evaluated symbolically, every division, root and logarithm recorded)',
             'tensor_utils.safe_divide/safe_sqrt', 'BurnInMCMCSampler.__next__, MCMCSampler.__next__']
BOUNDS = ('3 steps from the initial state (thorough 4) over both phases, every gradient (zero included), stepsize > 0, mdecay in (0,1), A > 0, scale_grad > 0; '
          'an induction step from every internal state with tau >= 1, v >= g^2, v > 0 (histories of any length)')
ASSUMPTIONS = ['exact real arithmetic with the literal constants of the code: overflow and underflow of floating point are outside',
               'gradients are those of a cost with finite gradients']


def everything(env, sess):
    """all floating point variables of the graph"""
    return [env.get_var(sess, v) for v in tf.global_variables() if v.dtype.base_dtype.is_floating]


def history(env, kind, steps, burn_in, shapes=((),), ops=False):
    n = len(shapes)
    with env.tf_graph() as sess:
        params, x0 = C.variables(env, shapes)
        cost = C.Linear(params)
        grads = [[env.array('g%d_%d' % (t, i), shapes[i]) for i in range(n)] for t in range(steps)]
        eps = [env.real('eps%d' % t, 'pos') for t in range(steps)]
        sampler = C.make(env, kind, sess, params, cost, C.Batches([cost.feed(g, 0.0) for g in grads]), C.Schedule(eps, 0.01),
                         burn_in=burn_in, **C.hyper(env, kind))
        sess.run(tf.global_variables_initializer())
        for t in range(steps):
            sample, c = next(sampler)
            if ops:
                env.check('step %d: no operation outside its domain' % t, env.ops_defined(sess))
                env.check('step %d: finite' % t, True if env.symbolic else env.defined(*C.as_list(sample, n)))
                continue
            env.check('step %d: sample, cost and internal estimates are defined' % t,
                      env.all(env.defined(*C.as_list(sample, n)), env.defined(c), env.defined(*everything(env, sess))))
            minv = getattr(sampler, 'minv', None)
            if minv is not None:
                for i, m in enumerate(minv):
                    for v in np.asarray(m, dtype=object).reshape(-1):
                        env.check('step %d: inverse mass of parameter %d is positive' % (t, i), v > 0)


def induction(env, kind, burning):
    with env.tf_graph() as sess:
        params, x0 = C.variables(env, ((),))
        cost = C.Linear(params)
        sampler = C.make(env, kind, sess, params, cost, C.Batches([cost.feed([env.real('grad')], 0.0)]), C.Schedule([env.real('eps', 'pos')], 0.01),
                         burn_in=3, **C.hyper(env, kind))
        sess.run(tf.global_variables_initializer())
        sv = C.state_vars(0, kind)
        tau, g, v, minv = env.real('tau', 'ge1'), env.real('g'), env.real('v', 'pos'), env.real('minv', 'pos')
        env.assume(g * g <= v)
        st = dict(tau=tau, g=g, v=v, minv=minv, V=env.real('V'))
        for k, var in sv.items():
            env.set_var(sess, var, np.array([[st[k]]], dtype=object))
        sampler.n_iterations = 0 if burning else 3
        if not burning:
            sampler.minv = [np.array([[minv]], dtype=object)]
        sample, c = next(sampler)
        get = lambda k: np.asarray(env.get_var(sess, sv[k]), dtype=object).reshape(-1)[0]
        t2, g2, v2 = get('tau'), get('g'), get('v')
        env.check('tau stays >= 1', t2 >= 1)
        env.check('v stays >= g^2', g2 * g2 <= v2 * (1 if env.symbolic else 1 + 1e-9))
        env.check('v stays positive', v2 > 0)
        if burning:
            env.check('inverse mass positive', get('minv') > 0)
        env.check('no operation outside its domain', env.ops_defined(sess))
        env.check('sample defined', env.defined(*C.as_list(sample, 1)))


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in ('SGHMC', 'SGLD'):
        for steps, b in ((1, 1), (2, 1), (2, 2)):
            out.append(Job('history', history, dict(kind=kind, steps=steps, burn_in=b), ideal=False, timeout=60, wall=400))
            out.append(Job('operations', history, dict(kind=kind, steps=steps, burn_in=b, ops=True), ideal=False, timeout=60, wall=400, optional=True))
        for steps, b in ((3, 1), (3, 2), (3, 3)) + (((4, 2), (4, 4)) if th else ()):
            out.append(Job('history', history, dict(kind=kind, steps=steps, burn_in=b), ideal=False, timeout=60, wall=100 if not th else 2000, optional=True))
        out.append(Job('history', history, dict(kind=kind, steps=2, burn_in=1, shapes=((2,), ())), ideal=False, timeout=60, wall=400, optional=True))
        for burning in (True, False):
            out.append(Job('induction', induction, dict(kind=kind, burning=burning), ideal=False, timeout=60, optional='strengthen'))
    return out
