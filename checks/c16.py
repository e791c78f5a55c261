import itertools

import numpy as np

from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C16'
FUNCTIONS = ['MCMCSampler.__init__/_draw_noise_sample/_next_noise_seed/__next__', 'BurnInMCMCSampler.__next__', 'all four samplers (graphs evaluated symbolically)',
             'relativistic_sghmc._sample_relativistic_momentum']
BOUNDS = ('two samplers built independently (one in a graph that already holds other operations), 3 steps across both phases, 1, 2 and 9 parameters; '
          'seeds None, 0, 1, 2**31-2 and a symbolic seed (every 0 <= s < 2**31); start values, gradients, stepsizes symbolic')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'a TensorFlow random op with a non-zero (graph seed, op seed) pair draws a stream that this pair and its type determine; one without draws freely',
               'the external adaptive rejection sampler is a function of the seed it is given',
               'counterexamples are replayed with the real random number generator']
HYP = {'SGHMC': dict(mdecay=0.0625, scale_grad=1.0), 'SGLD': dict(A=1.0, scale_grad=4.0),
       'Relativistic': dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0), 'SVGD': dict(alpha=0.75, fudge_factor=0.015625)}


def one(env, kind, shapes, steps, burn_in, seed, extra, other=False):
    n = len(shapes)
    with env.tf_graph(real_random=True) as sess:
        if extra:
            # a different graph position must not matter
            z = tf.Variable(1.0) + tf.random_normal((2,)) + tf.random_normal((2,), seed=5)
        params, x0 = C.variables(env, shapes)
        cost = C.Linear(params)
        eps = [env.real('eps%d' % t, 'small') for t in range(steps)]
        if kind == 'SGHMC':
            for e in eps:
                env.assume(e < 0.125)
        grads = [[env.array('g%d_%d' % (t, i), shapes[i]) for i in range(n)] for t in range(steps)]
        if kind == 'SVGD':
            pb = tf.placeholder(tf.float64, shapes[0])
            env.assume((x0[0][0] - x0[1][0]) * (x0[0][0] - x0[1][0]) > 0.01)
            sampler = C.make(env, kind, sess, params, lambda p: tf.reduce_sum(pb * p), C.Batches([{pb: g[0]} for g in grads]), C.Schedule(eps, 0.01),
                             seed=seed, **HYP[kind])
        else:
            sampler = C.make(env, kind, sess, params, cost, C.Batches([cost.feed(g, 0.5) for g in grads]), C.Schedule(eps, 0.01),
                             seed=seed, burn_in=burn_in, momenta='seeded', **HYP[kind])
        sess.run(tf.global_variables_initializer())
        out = []
        for t in range(steps):
            if extra and t == 1:
                sess.run(z)
            sample, c = next(sampler)
            out.append([np.asarray(s, dtype=object).reshape(-1) for s in C.as_list(sample, n)] + [np.asarray(c, dtype=object).reshape(-1)])
        return out


def equal_seeds(env, kind, shapes, steps, burn_in, seed=None, symseed=False):
    if symseed:
        seed = env.int('seed', 0, 2 ** 31 - 1)
    A = one(env, kind, shapes, steps, burn_in, seed, False)
    B = one(env, kind, shapes, steps, burn_in, seed, True)
    for t in range(steps):
        env.expect('same layout', len(A[t]) == len(B[t]))
        for i in range(len(A[t])):
            env.equal('step %d: %s' % (t, 'parameter %d' % i if i < len(shapes) else 'cost'), A[t][i], B[t][i])


def unseeded(env, kind, shapes):
    """without a seed nothing ties the draws of two samplers together"""
    A = one(env, kind, shapes, 1, 1, None, False)
    B = one(env, kind, shapes, 1, 1, None, False)
    flat = lambda r: [v for part in r[0][:len(shapes)] for v in part]
    a, b = flat(A), flat(B)
    env.distinct_draws(a + b)
    if env.symbolic and kind == 'Relativistic':
        # the momenta may differ as well; the noise alone must suffice
        import sx.expr as E, sx.sym as S
        names = sorted(k for k in E.variables(*[S.lift(v) for v in a + b]) if k.startswith('ars:'))
        for k in names[1:]:
            env.assume(S.wrap(E.eq(E.var(k), E.var(names[0]))))
    for k, (u, v) in enumerate(zip(a, b)):
        env.check('element %d differs between unseeded samplers' % k, u != v)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in C.KINDS:
        shapes = {'SVGD': ((1,), (1,)), 'Relativistic': ((), ())}.get(kind, ((), (2,)))
        kw = dict(feed_noise=False, wall=400)
        for seed in (0, 1, 2 ** 31 - 2) + ((2, 17, 2 ** 31 - 1, 2 ** 32 - 1) if th else ()):
            out.append(Job('seed', equal_seeds, dict(kind=kind, shapes=shapes, steps=1 if kind == 'SVGD' else 3, burn_in=1, seed=seed), **kw))
        out.append(Job('anyseed', equal_seeds, dict(kind=kind, shapes=shapes, steps=1 if kind == 'SVGD' else 2, burn_in=1, symseed=True), optional=True, **kw))
        out.append(Job('wide', equal_seeds, dict(kind=kind, shapes=shapes[:1] * (9 if kind != 'SVGD' else 3), steps=1, burn_in=1, seed=3), **kw))
        if kind == 'SVGD':
            out.append(Job('none', equal_seeds, dict(kind=kind, shapes=shapes, steps=1, burn_in=1, seed=None), **kw))
        else:
            out.append(Job('unseeded', unseeded, dict(kind=kind, shapes=shapes[:1]), **kw))
    return out
