import numpy as np

from checks import common as C
from checks import c11
from sx.harness import Job, tf

PROPERTY = 'C14'
FUNCTIONS = ['MCMCSampler.__init__/__next__, BurnInMCMCSampler.__next__', 'all four samplers (graphs evaluated symbolically)',
             'tensor_utils.vectorize/unvectorize/uninitialized_params']
BOUNDS = ('4 steps (thorough 5) across both phases with an outside assignment before step 1 and step 3, a re-initialisation of the target variables before step 2; all samples compared again after the last step; shapes '
          '(), (1,), (2,), (3,), (5,), (1,1), (1,2), (2,2), (2,1,2) (scalars for relativistic, (1,), (2,) for SVGD); all values symbolic')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'where a step ends is given by the published update (C08-C11) from the values the variables hold']


def state(env, kind, shapes, steps, burn_in, dtype='float64'):
    dt = getattr(tf, dtype)
    n = len(shapes)
    with env.tf_graph() as sess:
        params, x0 = C.variables(env, shapes, dt)
        cost = C.Linear(params, dt)
        grads = [[env.array('g%d_%d' % (t, i), shapes[i]) for i in range(n)] for t in range(steps)]
        eps = [env.real('eps%d' % t, 'small') for t in range(steps)]
        hyp = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0),
               'Relativistic': dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0)}[kind]
        mom = [env.real('momentum_%d' % k) for k in range(n)]
        sampler = C.make(env, kind, sess, params, cost, C.Batches([cost.feed(g, 0.0) for g in grads]), C.Schedule(eps, 0.01),
                         burn_in=burn_in, momenta=mom, dtype=dt, **hyp)
        sess.run(tf.global_variables_initializer())
        refs = [[C.reference(env, kind, v, hyp, mom[i]) for v in x0[i].reshape(-1)] for i in range(n)]
        held = []
        for t in range(steps):
            if t in (1, 3):
                for i, p in enumerate(params):
                    new = env.array('set%d_%d' % (t, i), shapes[i])
                    env.set_var(sess, p, new)
                    for r, v in zip(refs[i], new.reshape(-1)):
                        r.theta = v
            if t == 2:
                sess.run(tf.variables_initializer(params))
                for i in range(n):
                    for r, v in zip(refs[i], x0[i].reshape(-1)):
                        r.theta = v
            sample, c = next(sampler)
            raw, sample = sample, C.as_list(sample, n)
            held.append((raw, [np.array(s, copy=True) for s in sample]))
            noise = C.draws(env, sess, sampler, shapes)
            env.expect('one sample per parameter', len(sample) == n)
            for i, p in enumerate(params):
                env.equal('step %d: variable %d holds the sample' % (t, i), sess.run(p), sample[i])
                env.expect('step %d: sample %d keeps the shape' % (t, i), np.shape(sample[i]) == tuple(shapes[i]))
                if not env.symbolic:
                    env.expect('step %d: sample %d keeps the dtype' % (t, i), np.asarray(sample[i]).dtype == dt.as_numpy_dtype)
                want = [r.step(g, eps[t], z, t < burn_in) for r, g, z in zip(refs[i], grads[t][i].reshape(-1), noise[i])]
                env.equal('step %d of parameter %d starts from the variable' % (t, i), np.asarray(sample[i], dtype=object).reshape(-1),
                          np.array(want, dtype=object))
        kept(env, held, n)


def kept(env, held, n):
    """samples handed out earlier are not touched by later steps"""
    for t, (raw, then) in enumerate(held):
        now = C.as_list(raw, n)
        for i in range(n):
            env.equal('sample %d of step %d after all steps' % (i, t), now[i], then[i])


def svgd_state(env, n, shape, dtype='float64'):
    dt = getattr(tf, dtype)
    D = int(np.prod(shape, dtype=int))
    with env.tf_graph() as sess:
        parts, x0 = C.variables(env, (shape,) * n, dt)
        pb = tf.placeholder(dt, shape)
        b = env.array('b', shape)
        eps = [env.real('eps%d' % t, 'small') for t in range(3)]
        sampler = C.make(env, 'SVGD', sess, parts, lambda x: tf.reduce_sum(pb * x), C.Batches([{pb: b}] * 3), C.Schedule(eps, 0.01),
                         dtype=dt, alpha=0.75, fudge_factor=0.015625)
        sess.run(tf.global_variables_initializer())
        hist = [[0.0] * D for _ in range(n)]
        X = [list(v.reshape(-1)) for v in x0]
        held = []
        for t in range(3):
            if t == 1:
                for i, p in enumerate(parts):
                    new = env.array('set%d_%d' % (t, i), shape)
                    env.set_var(sess, p, new)
                    X[i] = list(new.reshape(-1))
            if t == 2:
                sess.run(tf.variables_initializer(parts))
                X = [list(v.reshape(-1)) for v in x0]
            for i in range(n):
                for j in range(i):
                    env.assume(sum((X[i][k] - X[j][k]) * (X[i][k] - X[j][k]) for k in range(D)) > 0.01)
            sample, c = next(sampler)
            held.append((sample, [np.array(s, copy=True) for s in sample]))
            want, hist = c11.reference(env, X, [list(b.reshape(-1))] * n, hist, 0.75, 0.015625, eps[t])
            for i, p in enumerate(parts):
                env.equal('step %d: variable %d holds the sample' % (t, i), sess.run(p), sample[i])
                env.equal('step %d of particle %d starts from the variable' % (t, i), np.asarray(sample[i], dtype=object),
                          np.array(want[i], dtype=object).reshape(shape))
                if not env.symbolic:
                    env.expect('step %d: sample %d keeps the dtype' % (t, i), np.asarray(sample[i]).dtype == dt.as_numpy_dtype)
        kept(env, held, n)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in ('SGHMC', 'SGLD'):
        for b in (1, 2):
            for shapes in (((),), ((2,), ()), ((1, 2),), ((2, 2),), ((2, 1, 2), ()), ((1, 1), (1,)), ((3,), (5,))) + ((((2, 1, 2), (3,)),) if th else ()):
                out.append(Job('state', state, dict(kind=kind, shapes=shapes, steps=4 if not th else 5, burn_in=b), wall=400 if not th else 1500))
        out.append(Job('state', state, dict(kind=kind, shapes=((2,),), steps=2, burn_in=1, dtype='float32'), rel_tol=2e-3))
    for n in (1, 2):
        out.append(Job('state', state, dict(kind='Relativistic', shapes=((),) * n, steps=3, burn_in=0), wall=400))
    out.append(Job('svgd', svgd_state, dict(n=2, shape=(1,)), wall=400))
    out.append(Job('svgd', svgd_state, dict(n=2, shape=(2,)), wall=400))
    return out
