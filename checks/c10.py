import numpy as np

from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C10'
KIND = 'Relativistic'
FUNCTIONS = ['RelativisticSGHMCSampler.__init__ (graph construction executed, the graph evaluated symbolically)',
             'pdf.logpdf closure given to the momentum sampler', 'MCMCSampler.__next__/_next_batch/_next_stepsize/_draw_noise_sample']
BOUNDS = ('chains of up to 3 steps (16 for one parameter; thorough: 4 and 32) of 1..3 scalar parameters; start values, gradients, noise, momenta, stepsize>0, '
          'mass>0, speed of light>0, D>=1, 0<Bhat<1 with e*Bhat <= 2*D symbolic; momentum density: every p, mass, speed')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'arspy.adaptive_rejection_sampling is external: replaced by a stub that returns arbitrary values and records the density it was given',
               'parameters are scalars (the sampler supports no others)']


def momenta(env, n):
    """initial momenta: one per parameter, from the right density"""
    with env.tf_graph() as sess:
        params, x0 = C.variables(env, ((),) * n)
        cost = C.Linear(params)
        m, c = env.real('mass', 'pos'), env.real('c', 'pos')
        mom = [env.real('momentum_%d' % k) for k in range(n)]
        C.make(env, KIND, sess, params, cost, C.Batches([]), C.Schedule([], 0.01), momenta=mom, mass=m, speed_of_light=c, seed=3)
        env.expect('momenta are drawn', len(C.ARS) >= 1)
        env.expect('one momentum per parameter', sum(int(a['n_samples']) for a in C.ARS) == n)
        p = env.real('p')
        q = env.real('q')
        for a in C.ARS:
            want = lambda p: -m * c * c * env.sqrt(p * p / (m * m * c * c) + 1.0)
            # a density is determined up to a constant factor
            env.equal('log density of the momenta', a['logpdf'](p) - a['logpdf'](q), want(p) - want(q))
            lo, hi = a['domain']
            env.expect('momenta from the whole real line', lo == float('-inf') and hi == float('inf'))


def speed(env, n, steps):
    """no step moves a parameter further than eps * c"""
    c = env.real('cc', 'pos')
    last = {}

    def visit(t, sampler, sess, sched, gen, sample, cost):
        for i in range(n):
            x = sample[i]
            d = x - last.get(i, starts[i])
            env.check('step %d moves parameter %d at most eps*c' % (t, i), env.all(d * d <= sched.values[t] * sched.values[t] * c * c * (1 + 1e-9)))
            last[i] = x
    starts = [env.real('x%d_0' % i) for i in range(n)]
    hyp = dict(mass=env.real('mass', 'pos'), speed_of_light=c, D=1.0, Bhat=0.0)
    C.chain(env, KIND, ((),) * n, steps, concrete_hyper=hyp, visit=visit)


def jobs(tier):
    confs = [(1, 3), (2, 2), (3, 1), (1, 16)]
    if tier == 'thorough':
        confs += [(1, 32), (1, 4), (2, 3), (3, 2)]
    out = [Job('chain', C.chain, dict(kind=KIND, shapes=((),) * n, steps=k), wall=1500 if tier == 'thorough' else 240, optional='deep' if k > 9 else False) for n, k in confs]
    out.append(Job('chain32', chain32, {}, rel_tol=2e-3))
    out += [Job('momenta', momenta, dict(n=n)) for n in (1, 2, 3)]
    out += [Job('speed', speed, dict(n=1, steps=1)), Job('speed', speed, dict(n=2, steps=1))]
    return out


def chain32(env):
    C.chain(env, KIND, ((),), 2, dtype=tf.float32)
