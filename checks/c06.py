from checks import common as C
from checks import c11
from sx.harness import Job, tf

PROPERTY = 'C06'
FUNCTIONS = ['StepsizeSchedule/ConstantStepsizeSchedule', 'MCMCSampler._next_stepsize/__next__', 'BurnInMCMCSampler.__next__',
             'SGHMCSampler, SGLDSampler, RelativisticSGHMCSampler, SVGDSampler .__init__ (graphs evaluated symbolically)']
BOUNDS = ('all four samplers, 16 steps (SVGD 3; thorough 4), burn-in 1, 2 and 5; every stepsize value of the schedule (a fresh symbolic positive number, or non-negative for 3 steps, per '
          'step, different from initial_value), gradients, noise and start values symbolic; a schedule class derived from the constant one, 3 steps; constant schedule: any value, 4 draws with arbitrary updates in between')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'the movement a stepsize causes is that of the published update rules (C08-C11)']


def schedule(env, kind, steps, burn_in=2, shapes=((),), eps_dom='small'):
    def visit(t, sampler, sess, sched, gen, sample, cost):
        env.expect('exactly one stepsize is drawn per step', sched.drawn == t + 1)
    hyp = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0),
           'Relativistic': dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0)}[kind]
    C.chain(env, kind, shapes, steps, burn_in=burn_in, concrete_hyper=hyp, visit=visit, eps_dom=eps_dom)


def schedule_svgd(env, steps):
    c11.svgd(env, 2, (1,), steps, numbers=True, visit=lambda t, sched: env.expect(
        'exactly one stepsize is drawn per step', sched.drawn == t + 1))


def default_schedule(env, kind):
    """with the constant schedule every step uses its value, updates included"""
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    e = env.real('eps', 'small')
    hyp = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0),
           'Relativistic': dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0)}[kind]
    C.chain(env, kind, ((),), 3, burn_in=1, concrete_hyper=hyp, schedule=ConstantStepsizeSchedule(e), eps_values=[e, e, e])


def derived(env, kind):
    """a schedule class of the user's derived from the constant one"""
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule

    class Derived(ConstantStepsizeSchedule):
        def __init__(self, values, initial):
            super(Derived, self).__init__(initial)
            self.values, self.drawn = values, 0

        def __next__(self):
            self.drawn += 1
            return self.values[self.drawn - 1]
    hyp = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0),
           'Relativistic': dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0)}[kind]
    eps = [env.real('deps%d' % t, 'small') for t in range(3)]

    def visit(t, sampler, sess, sched, gen, sample, cost):
        env.expect('exactly one stepsize is drawn per step', sched.drawn == t + 1)
    C.chain(env, kind, ((),), 3, burn_in=1, concrete_hyper=hyp, schedule=Derived(eps, 0.01), eps_values=eps, visit=visit)


def constant(env):
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    v = env.real('value')
    s = ConstantStepsizeSchedule(v)
    env.equal('initial value', s.initial_value, v)
    env.expect('iterator', iter(s) is s)
    for k in range(4):
        env.equal('draw %d' % k, next(s), v)
        s.update(env.real('sample%d' % k), env.real('cost%d' % k))
        if k % 2:
            s.update(cost=env.real('c%d' % k), anything=[env.real('p%d' % k)])
            s.update()
    env.equal('initial value stays', s.initial_value, v)
    w = env.real('value2')
    s2 = ConstantStepsizeSchedule(w)
    env.equal('second schedule', next(s2), w)
    env.equal('first schedule unaffected', next(s), v)


def jobs(tier):
    th = tier == 'thorough'
    out = [Job('constant', constant)]
    for kind in C.NOISY:
        for b in ((1, 2) if kind != 'Relativistic' else (0,)):
            out.append(Job('schedule', schedule, dict(kind=kind, steps=4, burn_in=b), wall=400))
            if th:
                out.append(Job('schedule', schedule, dict(kind=kind, steps=6 if kind != 'Relativistic' else 5, burn_in=b), wall=1500))
                out.append(Job('schedule', schedule, dict(kind=kind, steps=3, burn_in=b, shapes=((2,), ())), wall=1500))
        out.append(Job('schedule', schedule, dict(kind=kind, steps=16, burn_in=5 if kind != 'Relativistic' else 0), wall=400, optional='deep'))
        # a stepsize of zero is a stepsize
        out.append(Job('zero', schedule, dict(kind=kind, steps=2 if kind == 'Relativistic' else 3, burn_in=2 if kind != 'Relativistic' else 0, eps_dom='nonneg')))
        out.append(Job('default', default_schedule, dict(kind=kind)))
        out.append(Job('derived', derived, dict(kind=kind)))
    out.append(Job('svgd', schedule_svgd, dict(steps=3)))
    if th:
        out.append(Job('svgd', schedule_svgd, dict(steps=4), wall=1500))
    return out
