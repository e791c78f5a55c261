import numpy as np

from checks import common as C
from checks import c11
from sx.harness import Job, tf

PROPERTY = 'C13'
FUNCTIONS = ['SGHMCSampler.__init__, SGLDSampler.__init__, RelativisticSGHMCSampler.__init__, SVGDSampler.__init__: the dataflow graphs they build, '
             'with every pair of unordered accesses to one variable', 'MCMCSampler._evaluate_before_update', 'MCMCSampler.__next__, BurnInMCMCSampler.__next__']
BOUNDS = ('2 steps (one per phase) with 1, 2 and 3 coupled target parameters (SVGD 2 and 3 particles), non-linear coupled cost with symbolic coefficients; '
          'every execution order of conflicting accesses that the dataflow edges and control edges leave open is explored (a fork per unordered pair)')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'an operation reads its reference inputs when it executes (TF1 reference variables); independent operations may execute in any order',
               'each operation executes atomically']


def coupled(env, kind, n, steps, burn_in, vector=False):
    shape = (2,) if vector else ()
    with env.tf_graph(explore_schedules=True) as sess:
        params, x0 = C.variables(env, (shape,) * n)
        a = [[env.real('a%d_%d' % (i, j)) for j in range(n)] for i in range(n)]
        b = env.real('b')
        ph = tf.placeholder(tf.float64, (n, n), name='coupling')

        def cost(ps):
            terms = []
            for i in range(n):
                for j in range(i, n):
                    terms.append(ph[i, j] * tf.reduce_sum(ps[i] * ps[j]))
            return tf.add_n(terms) + tf.constant(b, dtype=tf.float64) * tf.reduce_sum(ps[0])
        eps = [env.real('eps%d' % t, 'small') for t in range(steps)]
        hyp = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0),
               'Relativistic': dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0)}[kind]
        mom = [env.real('momentum_%d' % k) for k in range(n)]
        sampler = C.make(env, kind, sess, params, cost, C.Batches([{ph: np.array(a, dtype=object)} for _ in eps]), C.Schedule(eps, 0.01),
                         burn_in=burn_in, momenta=mom, **hyp)
        sess.explore_schedules = False      # the orders of interest are those of the steps
        sess.run(tf.global_variables_initializer())
        sess.explore_schedules = True
        size = int(np.prod(shape, dtype=int))
        refs = [[C.reference(env, kind, x0[i].reshape(-1)[e], hyp, mom[i]) for e in range(size)] for i in range(n)]
        cur = [v.reshape(-1) for v in x0]
        for t in range(steps):
            sample, c = next(sampler)
            sample = C.as_list(sample, n)
            noise = C.draws(env, sess, sampler, (shape,) * n)
            want = 0
            for i in range(n):
                for j in range(i, n):
                    for e in range(size):
                        want = want + a[i][j] * cur[i][e] * cur[j][e]
            for e in range(size):
                want = want + b * cur[0][e]
            env.equal('step %d: cost of the values at the start of the step' % t, c, want)
            new = []
            for i in range(n):
                row = []
                for e in range(size):
                    g = b if i == 0 else 0.0
                    for j in range(n):
                        lo, hi = min(i, j), max(i, j)
                        g = g + (2 if i == j else 1) * a[lo][hi] * cur[j][e]
                    row.append(refs[i][e].step(g, eps[t], noise[i][e], t < burn_in))
                env.equal('step %d: parameter %d moves by the gradient at the start of the step' % (t, i),
                          np.asarray(sample[i], dtype=object).reshape(-1), np.array(row, dtype=object))
                new.append(np.asarray(sample[i], dtype=object).reshape(-1))
            if t + 1 < steps:
                # continue from fresh values
                cur = [env.array('y%d_%d' % (t, i), shape).reshape(-1) for i in range(n)]
                for p, v, rs in zip(params, cur, refs):
                    env.set_var(sess, p, v.reshape(shape))
                    for r, x in zip(rs, v):
                        r.theta = x


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in C.NOISY:
        for n, vec in ((2, False), (3, False)) + (((1, False), (1, True), (2, True)) if kind != 'Relativistic' else ((1, False),)):
            out.append(Job('order', coupled, dict(kind=kind, n=n, steps=2, burn_in=1, vector=vec), wall=400, max_paths=64))
        if th:
            out.append(Job('order', coupled, dict(kind=kind, n=4, steps=2, burn_in=1), wall=1500, max_paths=400))
            out.append(Job('order', coupled, dict(kind=kind, n=2, steps=3, burn_in=2), wall=1500, max_paths=400))
    for n in (2, 3):
        out.append(Job('svgd', c11.svgd, dict(n=n, shape=(1,), steps=1, numbers=True, schedules=True), wall=400, max_paths=64))
    return out
