import itertools

import numpy as np

from sx import sym as S

from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C15'
FUNCTIONS = ['MCMCSampler._draw_noise_sample/_next_noise_seed', 'SGHMCSampler.__init__, SGLDSampler.__init__, RelativisticSGHMCSampler.__init__ '
             '(graphs evaluated symbolically)', 'MCMCSampler.__next__, BurnInMCMCSampler.__next__']
BOUNDS = ('up to 3 target parameters with up to 6 elements together, 2 steps across both phases, 20 parameters (thorough 40), one parameter of 66 elements (thorough two of 140), chains of 16 (40) steps, without a seed, with the seeds 0, 1, 42, 2**31-2 and with a '
          'symbolic seed (every integer 0 <= s < 2**31); start value, gradient, stepsize symbolic (fixed for the relativistic sampler, where only the noise is symbolic)')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'a TensorFlow random op draws a fresh value per element and execution; two ops draw the same stream exactly if both carry the same non-zero '
               '(graph seed, op seed) pair; different draws differ',
               'counterexamples are replayed with the real random number generator']
HYP = {'SGHMC': dict(mdecay=0.0625, scale_grad=1.0), 'SGLD': dict(A=1.0, scale_grad=4.0),
       'Relativistic': dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0)}


def noise(env, kind, shapes, steps, burn_in, seed, symseed=False):
    """every (parameter, element, step) is displaced differently although all start
    from the same state with the same gradient: only the noise differs"""
    n = len(shapes)
    if symseed:
        seed = env.int('seed', 0, 2 ** 31 - 1)
    with env.tf_graph(real_random=True) as sess:
        if kind == 'Relativistic':
            a, g, e = 0.0, 0.25, 0.125       # a non-linear update: fixed state, symbolic noise
        else:
            a, g, e = env.real('a'), env.real('g'), env.real('eps', 'small')
        if kind == 'SGHMC':
            env.assume(e < 0.125)     # noise variance above its floor
        params = [tf.Variable(tf.constant(a, shape=s, dtype=tf.float64) if not S.is_sym(a) else
                              tf.fill(s, tf.constant(a, dtype=tf.float64)), dtype=tf.float64) for s in shapes]
        cost = C.Linear(params)
        grads = [np.full(s, g, dtype=object if env.symbolic else np.float64) for s in shapes]
        mom = [0.5] * n
        sampler = C.make(env, kind, sess, params, cost, C.Batches([cost.feed(grads, 0.0)] * steps), C.Schedule([e] * steps, 0.01),
                         seed=seed, burn_in=burn_in, momenta=mom, **HYP[kind])
        init = tf.global_variables_initializer()
        where, disp = [], []
        for t in range(steps):
            sess.run(init)
            sample, c = next(sampler)
            for i, s in enumerate(C.as_list(sample, n)):
                for k, v in enumerate(np.asarray(s, dtype=object).reshape(-1)):
                    where.append('parameter %d element %d step %d' % (i, k, t))
                    disp.append(v)
        env.distinct_draws(disp)
        for (w1, d1), (w2, d2) in itertools.combinations(zip(where, disp), 2):
            env.check('%s and %s are displaced by different draws' % (w1, w2), d1 != d2)


def seeds(env, kind, n):
    """the noise ops of one sampler carry pairwise different op seeds, for every seed"""
    s = env.int('seed', 0, 2 ** 31 - 1)
    if not env.symbolic:
        return noise(env, kind, ((),) * n, 1, 1, s)
    with env.tf_graph() as sess:
        params, x0 = C.variables(env, ((),) * n)
        sampler = C.make(env, kind, sess, params, C.Linear(params), C.Batches([]), C.Schedule([], 0.01), seed=s, burn_in=1,
                         momenta=[0.5] * n, **HYP[kind])
        ops = C.noise_ops(sampler)
        env.expect('one noise op per parameter', all(len(o) == 1 for o in ops) and len(set(sum(ops, []))) == n)
        got = [env.op_seed(sess.graph.get_operation_by_name(o[0])) for o in ops if o]
        big = 2 ** 31 - 1
        for i, j in itertools.combinations(range(len(got)), 2):
            env.check('op seeds of parameters %d and %d differ' % (i, j), got[i] % big != got[j] % big)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in C.NOISY:
        vec = [((), (2,), ()), ((2,), (2,))] if kind != 'Relativistic' else [((), (), ())]
        for shapes in vec:
            for seed in (None, 0, 1, 42, 2 ** 31 - 2) if not th else (None, 0, 1, 2, 42, 1000003, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 32 - 1):
                out.append(Job('noise', noise, dict(kind=kind, shapes=shapes, steps=2, burn_in=1, seed=seed), feed_noise=False, wall=400))
        # many parameters, and one long chain
        for seed in (None, 0, 3):
            out.append(Job('noise', noise, dict(kind=kind, shapes=((),) * (20 if not th else 40), steps=1, burn_in=1, seed=seed), feed_noise=False, wall=400 if not th else 1500))
            out.append(Job('noise', noise, dict(kind=kind, shapes=((),), steps=16 if not th else 40, burn_in=3, seed=seed), feed_noise=False, wall=400 if not th else 1500, optional='deep'))
        if kind != 'Relativistic':
            for seed in (None, 3):
                out.append(Job('noise', noise, dict(kind=kind, shapes=((66,),) if not th else ((140,), (70, 2)), steps=1, burn_in=1, seed=seed), feed_noise=False, wall=400 if not th else 1500))
        if th:
            out.append(Job('noise', noise, dict(kind=kind, shapes=((), ()), steps=4, burn_in=2, seed=None), feed_noise=False, wall=1200))
            out.append(Job('noise', noise, dict(kind=kind, shapes=((), ()), steps=4, burn_in=2, seed=7), feed_noise=False, wall=1200))
        out.append(Job('seeds', seeds, dict(kind=kind, n=3 if not th else 8), feed_noise=False, optional=True))
    return out
