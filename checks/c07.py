import numpy as np

from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C07'
FUNCTIONS = ['MCMCSampler.__next__/_next_batch/_next_stepsize/__iter__', 'BurnInMCMCSampler.__next__/is_burning_in', 'all four samplers']
BOUNDS = ('all four samplers, 3 steps (thorough 5) across both phases (burn-in 1 and 2), 1 and 2 target parameters, with and without a batch '
          'source, with and without values fed by the caller (also in one dictionary it keeps using); batch values, fed values, stepsizes, noise, start values symbolic; exhaustion at every position')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'cost depends on batch and fed placeholder: sum_i b_t*theta_i + u_t*theta_i^2 + u_t']
NOISE = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0), 'Relativistic': dict(), 'SVGD': dict()}


def flat(sample, n):
    out = []
    for s in C.as_list(sample, n):
        out.extend(list(np.asarray(s, dtype=object).reshape(-1)))
    return np.array(out, dtype=object)


def structure(x):
    """a bare sample or a list of one value per parameter, with their shapes"""
    if isinstance(x, (list, tuple)):
        return [np.shape(v) for v in x]
    return np.shape(x)


class Countable(C.Batches):
    """a batch source that knows how many batches it holds ready: none"""

    def __len__(self):
        return 0


def protocol(env, kind, n, steps, burn_in, batches=True, fed=True, stop_at=None, own=False):
    shapes = ((1,),) * n if kind == 'SVGD' else ((),) * n
    stop_at = steps if stop_at is None else stop_at
    with env.tf_graph() as sess:
        params, x0 = C.variables(env, shapes)
        pb = tf.placeholder(tf.float64, (), name='pb')
        pu = tf.placeholder(tf.float64, (), name='pu')
        const = tf.constant(env.real('k'), dtype=tf.float64)

        def term(p):
            c = tf.reduce_sum(const * p)
            if batches:
                c = c + tf.reduce_sum(pb * p)
            if fed:
                c = c + tf.reduce_sum(pu * p * p) + pu
            return c

        def cost(ps):
            if kind == 'SVGD':
                return term(ps)
            return tf.add_n([term(p) for p in ps])

        def value(x, b, u):
            out = env.real('k') * x
            if batches:
                out = out + b * x
            if fed:
                out = out + u * x * x
            return out
        bs = [env.real('b%d' % t) for t in range(steps)]
        us = [env.real('u%d' % t) for t in range(steps)]
        gen = (Countable if own else C.Batches)([{pb: b} for b in bs[:stop_at]]) if batches else None
        sched = C.Schedule([env.real('eps%d' % t, 'small') for t in range(steps + 2)], 0.01)
        sampler = C.make(env, kind, sess, params, cost, gen, sched, burn_in=burn_in, **NOISE[kind])
        sess.run(tf.global_variables_initializer())
        env.expect('a sampler is its own iterator', iter(sampler) is sampler)
        env.expect('no batch, no stepsize before the first step', (gen is None or gen.drawn == 0) and sched.drawn == 0)
        env.equal('no step made', sampler.n_iterations, 0)
        cur = [v.reshape(-1)[0] for v in x0]
        t = 0
        while t < steps:
            if fed and own and t:
                feed[pu] = us[t]        # the caller's dictionary, used again
            else:
                feed = {pu: us[t]} if fed else None
            if batches and t == stop_at:
                # the batch source is exhausted
                before = [env.get_var(sess, p) for p in params]
                stopped = False
                try:
                    sampler.__next__(feed_dict=feed) if fed else next(sampler)
                except StopIteration:
                    stopped = True
                env.expect('iteration stops with the batch source', stopped)
                for i, p in enumerate(params):
                    env.equal('exhaustion leaves parameter %d' % i, env.get_var(sess, p), before[i])
                env.expect('exhaustion leaves the schedule', sched.drawn == t and len(sched.updates) == t)
                env.equal('exhaustion leaves the step counter', sampler.n_iterations, t)
                gen.dicts.extend({pb: b} for b in bs[stop_at:])
                stop_at = None
                continue
            sample, c = sampler.__next__(feed_dict=feed) if fed else next(sampler)
            if kind == 'SVGD':
                want = np.array([value(x, bs[t], us[t]) + (us[t] if fed else 0) for x in cur], dtype=object)
                env.equal('step %d: cost on its batch' % t, np.asarray(c, dtype=object).reshape(-1), want)
            else:
                want = sum(value(x, bs[t], us[t]) for x in cur)
                if fed:
                    want = want + n * us[t]
                env.equal('step %d: cost on its batch and the fed values' % t, c, want)
            env.expect('exactly one batch per step', gen is None or gen.drawn == t + 1)
            env.expect('exactly one schedule update per step', len(sched.updates) == t + 1)
            env.equal('step counter', sampler.n_iterations, t + 1)
            args, kw = sched.updates[-1]
            got = list(args) + [kw[k] for k in ('params', 'sample', 'cost') if k in kw]
            if env.expect('the update gets a sample and a cost', len(got) == 2):
                env.equal('the update gets the returned sample', flat(got[0], n), flat(sample, n))
                env.expect('the update gets the sample as it is returned', structure(got[0]) == structure(sample))
                env.equal('the update gets the returned cost', np.asarray(got[1], dtype=object).reshape(-1),
                          np.asarray(c, dtype=object).reshape(-1))
            cur = list(flat(sample, n))
            if not env.expect('one value per parameter', len(cur) == n):
                return
            t += 1


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in C.KINDS:
        for n in ((2,) if kind == 'SVGD' else (1, 2)):
            for b in ((1, 2) if kind in ('SGHMC', 'SGLD') else (0,)):
                for batches, fed in ((True, True), (True, False), (False, True), (False, False)):
                    out.append(Job('protocol', protocol, dict(kind=kind, n=n, steps=3, burn_in=b, batches=batches, fed=fed)))
                    if th:
                        out.append(Job('protocol', protocol, dict(kind=kind, n=n, steps=4, burn_in=b, batches=batches, fed=fed), wall=1200))
                out.append(Job('own', protocol, dict(kind=kind, n=n, steps=3, burn_in=b, own=True)))
                for stop in range(0, 3):
                    out.append(Job('exhausted', protocol, dict(kind=kind, n=n, steps=3, burn_in=b, stop_at=stop)))
    return out
