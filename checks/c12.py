import numpy as np

from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C12'
FUNCTIONS = ['BurnInMCMCSampler.__init__/is_burning_in/__next__', 'MCMCSampler.__next__', 'SGHMCSampler.__init__, SGLDSampler.__init__ (graphs evaluated symbolically)']
BOUNDS = ('9 steps of one scalar, 3 of two parameters (thorough 14 and 4) with the burn-in length b a symbolic integer, every b >= 1 (all b beyond the last step are one path), and one induction step from an arbitrary internal state, step count and burn-in length; 4 steps with one failing call at five places around the boundary; 4 steps with values fed by the caller, in one dictionary or a new one per step; '
          'gradients, stepsizes, noise and start values symbolic')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'the estimate in use is observed through the sample it produces (C08/C09 update rule) ']


def burn(env, kind, shapes, steps):
    b = env.int('b', 1)
    hyp = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0)}[kind]

    def before(t, sampler):
        env.check('burning in exactly before b steps were made (step %d)' % t, _iff(env, sampler.is_burning_in, t < b))
        env.equal('steps made', sampler.n_iterations, t)

    def visit(t, sampler, sess, sched, gen, sample, cost):
        if t == steps - 1:
            before(steps, sampler)
    C.chain(env, kind, shapes, steps, burn_in=b, concrete_hyper=hyp, before=before, visit=visit)


def failed(env, kind, at, b, steps=4):
    """a batch that cannot be fed makes no step: the burn-in goes on where it was"""
    hyp = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0)}[kind]
    with env.tf_graph() as sess:
        params, x0 = C.variables(env, ((),))
        cost = C.Linear(params)
        grads = [env.real('g%d' % t) for t in range(steps)]
        eps = [env.real('eps%d' % t, 'small') for t in range(steps)]
        feeds = [cost.feed([g], 0.0) for g in grads]
        feeds.insert(at, cost.feed([np.zeros(7)], 0.0))
        # the stepsize of the failed call is drawn as well
        sampler = C.make(env, kind, sess, params, cost, C.Batches(feeds), C.Schedule(eps[:at] + [0.5] + eps[at:], 0.01), burn_in=b, **hyp)
        sess.run(tf.global_variables_initializer())
        ref = C.reference(env, kind, x0[0].reshape(-1)[0], hyp)
        t = 0
        for call in range(steps + 1):
            env.check('call %d: burning in exactly before b steps were made' % call, _iff(env, sampler.is_burning_in, t < b))
            env.equal('call %d: steps made' % call, sampler.n_iterations, t)
            if call == at:
                try:
                    next(sampler)
                    env.fail('a batch of the wrong shape is rejected')
                except ValueError:
                    pass
                env.equal('a failed call leaves the parameter', env.get_var(sess, params[0]), ref.theta)
                continue
            sample, c = next(sampler)
            noise = C.draws(env, sess, sampler, ((),))
            want = ref.step(grads[t], eps[t], noise[0][0], t < b)
            env.equal('step %d' % t, np.asarray(C.as_list(sample, 1)[0], dtype=object).reshape(-1)[0], want)
            t += 1


def fed(env, kind, steps, same):
    """values fed by the caller of a step do not change which estimate is used"""
    b = env.int('b', 1)
    hyp = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0)}[kind]
    with env.tf_graph() as sess:
        params, x0 = C.variables(env, ((),))
        cost = C.Linear(params)
        grads = [env.real('g%d' % t) for t in range(steps)]
        eps = [env.real('eps%d' % t, 'small') for t in range(steps)]
        # the gradient comes from the caller, the offset from the batches
        sampler = C.make(env, kind, sess, params, cost, C.Batches([{cost.c0: 0.5}] * steps), C.Schedule(eps, 0.01), burn_in=b, **hyp)
        sess.run(tf.global_variables_initializer())
        ref = C.reference(env, kind, x0[0].reshape(-1)[0], hyp)
        shared = {}
        for t in range(steps):
            env.check('burning in exactly before b steps were made (step %d)' % t, _iff(env, sampler.is_burning_in, t < b))
            d = shared if same else {}
            d[cost.ph[0]] = grads[t]
            sample, c = sampler.__next__(feed_dict=d)
            noise = C.draws(env, sess, sampler, ((),))
            want = ref.step(grads[t], eps[t], noise[0][0], t < b)
            env.equal('step %d' % t, np.asarray(C.as_list(sample, 1)[0], dtype=object).reshape(-1)[0], want)
            env.equal('steps made', sampler.n_iterations, t + 1)


def _iff(env, p, q):
    return env.any(env.all(p, q), env.all(env.not_(p), env.not_(q)))


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in ('SGHMC', 'SGLD'):
        out.append(Job('burn', burn, dict(kind=kind, shapes=((),), steps=9), wall=600))
        out.append(Job('burn', burn, dict(kind=kind, shapes=((), (2,)), steps=3), wall=400))
        out.append(Job('burn', burn, dict(kind=kind, shapes=((4,), (2, 3)), steps=3), wall=400))
        out += C.inductive_jobs(kind, ((),))
        for same in (True, False):
            out.append(Job('fed', fed, dict(kind=kind, steps=4, same=same), wall=400))
        for at, b in ((0, 1), (1, 2), (1, 1), (2, 2), (3, 3)):
            out.append(Job('failed', failed, dict(kind=kind, at=at, b=b)))
        if th:
            out.append(Job('burn', burn, dict(kind=kind, shapes=((),), steps=14), wall=3000))
            out.append(Job('burn', burn, dict(kind=kind, shapes=((2,), (1, 2)), steps=4), wall=3000))
    return out
