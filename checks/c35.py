"""C35: samplers that share a graph do not influence each other, and touch
nothing but their own target parameters."""
import numpy as np

from checks import common as C
from checks import c11
from sx.harness import Job, tf

PROPERTY = 'C35'
FUNCTIONS = ['MCMCSampler.__init__/__next__, BurnInMCMCSampler.__next__', 'all four samplers (graphs evaluated symbolically)']
BOUNDS = ('two samplers (every pair of kinds) on disjoint parameters of one graph, the second built before or after the first has made a step; every '
          'interleaving of 3 steps (symbolic choice, thorough 4; with SVGD 1, thorough 2); four given orders of 6 steps with burn-ins of 1 to 3 steps; one initialised and one uninitialised bystander variable; a second session on the same graph; '
          'start values, gradients, noise, stepsizes, bystander values symbolic')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0',
               'each chain alone follows the published update (C08-C11); one chain has a seed, the other none; equal seeds are excluded: they tie the noise of two chains together (C16)']
HYP = {'SGHMC': dict(mdecay=0.0625, scale_grad=4.0), 'SGLD': dict(A=1.0, scale_grad=4.0),
       'Relativistic': dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0), 'SVGD': dict(alpha=0.75, fudge_factor=0.015625)}


class Chain(object):
    """one sampler of the graph together with its reference"""

    def __init__(self, env, tag, kind, steps, burn_in):
        self.env, self.tag, self.kind, self.burn_in = env, tag, kind, burn_in
        # one chain with a seed, one without
        self.seed = 11 if tag == 'B' else None
        self.shapes = ((1,), (1,)) if kind == 'SVGD' else ((),)
        self.params, self.x0 = C.variables(env, self.shapes, prefix='%s_x' % tag)
        self.eps = [env.real('%s_eps%d' % (tag, t), 'small') for t in range(steps)]
        self.t = 0
        if kind == 'SVGD':
            self.ph = tf.placeholder(tf.float64, (1,))
            self.grads = [env.array('%s_g%d' % (tag, t), (1,)) for t in range(steps)]
            env.assume((self.x0[0][0] - self.x0[1][0]) * (self.x0[0][0] - self.x0[1][0]) > 0.01)
        else:
            self.cost = C.Linear(self.params)
            self.grads = [env.real('%s_g%d' % (tag, t)) for t in range(steps)]

    def build(self, sess):
        env, kind = self.env, self.kind
        mom = [env.real('%s_momentum' % self.tag)]
        if kind == 'SVGD':
            ph = self.ph

            def cost(x):
                return tf.reduce_sum(ph * x)
            gen = C.Batches([{ph: g} for g in self.grads])
        else:
            cost = self.cost
            gen = C.Batches([cost.feed([np.array(g, dtype=object)], 0.0) for g in self.grads])
        self.sched = C.Schedule(self.eps, 0.01)
        self.sampler = C.make(env, kind, sess, self.params, cost, gen, self.sched, burn_in=self.burn_in, momenta=mom, seed=self.seed, **HYP[kind])
        if kind == 'SVGD':
            self.X = [[v[0]] for v in self.x0]
            self.hist = [[0.0], [0.0]]
        else:
            self.ref = C.reference(env, kind, self.x0[0].reshape(-1)[0], HYP[kind], mom[0])
            self.X = [[self.x0[0].reshape(-1)[0]]]

    def step(self, sess):
        env, t = self.env, self.t
        sample, c = next(self.sampler)
        sample = C.as_list(sample, len(self.shapes))
        if self.kind == 'SVGD':
            self.X, self.hist = c11.reference(env, self.X, [list(self.grads[t])] * 2, self.hist, 0.75, 0.015625, self.eps[t])
        else:
            noise = C.draws(env, sess, self.sampler, self.shapes)
            self.X = [[self.ref.step(self.grads[t], self.eps[t], noise[0][0], t < self.burn_in)]]
        for i in range(len(self.shapes)):
            env.equal('chain %s, step %d, parameter %d' % (self.tag, t, i), np.asarray(sample[i], dtype=object).reshape(-1),
                      np.array(self.X[i], dtype=object))
        self.t += 1

    def stays(self, sess, when):
        for i, p in enumerate(self.params):
            self.env.equal('%s: parameter %d of chain %s' % (when, i, self.tag), np.asarray(sess.run(p), dtype=object).reshape(-1),
                           np.array(self.X[i], dtype=object))


def initialise_new(sess, known):
    """what a user does who adds to a running graph"""
    sess.run(tf.variables_initializer([v for v in tf.global_variables() if v not in known]))


def pair(env, kinds, steps, late, burn_in=(1, 1), order=None):
    with env.tf_graph() as sess:
        chains = [Chain(env, 'A', kinds[0], steps + 1, burn_in[0]), Chain(env, 'B', kinds[1], steps + 1, burn_in[1])]
        by = tf.Variable(tf.constant(env.real('by_init'), dtype=tf.float64), dtype=tf.float64, name='by')
        raw = tf.Variable(tf.constant(0.5, dtype=tf.float64), dtype=tf.float64, name='raw')
        other = env.real('by')
        a, b = chains
        if env.bool('seeded_first') if steps < 2 else late:
            a.seed, b.seed = b.seed, a.seed
        own = tf.get_default_graph().seed
        a.build(sess)
        if not late:
            b.build(sess)
        initialise_new(sess, [raw])
        env.set_var(sess, by, other)
        if late:
            known = list(tf.global_variables())
            a.step(sess)
            b.build(sess)
            a.stays(sess, 'after construction of the other')
            initialise_new(sess, known)
        for k in range(steps):
            first = order[k] == 'A' if order else bool(env.bool('turn%d' % k))
            me, it = (a, b) if first else (b, a)
            me.step(sess)
            it.stays(sess, 'after step %d of the other' % k)
            me.stays(sess, 'after its own step %d' % k)
        env.expect('the seed of the graph is left alone', tf.get_default_graph().seed == own)
        env.equal('a bystander keeps its value', sess.run(by), other)
        env.check('a bystander is not initialised on the way', env.not_(sess.run(tf.is_variable_initialized(raw))))


def session(env, kind, inside):
    """a sampler works in the session it was given, whatever the default one is"""
    with env.tf_graph() as sess:
        ch = Chain(env, 'A', kind, 2, 1)
        mine = env.session_class(graph=tf.get_default_graph())
        others = [env.array('o%d' % i, s) for i, s in enumerate(ch.shapes)]
        for p, v in zip(ch.params, others):
            env.set_var(sess, p, v)
        if not inside:
            ch.build(mine)
            mine.run(tf.global_variables_initializer())
        with sess.as_default():
            # another session is the default one
            if inside:
                ch.build(mine)
                mine.run(tf.global_variables_initializer())
            for k in range(2):
                ch.step(mine)
        ch.stays(mine, 'after two steps')
        for i, (p, v) in enumerate(zip(ch.params, others)):
            env.equal('the default session keeps parameter %d' % i, np.asarray(sess.run(p), dtype=object), v)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    pairs = [('SGHMC', 'SGHMC'), ('SGLD', 'SGLD'), ('SGHMC', 'SGLD'), ('Relativistic', 'Relativistic'), ('SVGD', 'SVGD'),
             ('SGLD', 'Relativistic'), ('SVGD', 'SGHMC')]
    if th:
        pairs += [('SGLD', 'SGHMC'), ('Relativistic', 'SGHMC'), ('SVGD', 'Relativistic'), ('SGLD', 'SVGD')]
    for kinds in pairs:
        svgd = 'SVGD' in kinds
        for late in (False, True):
            out.append(Job('pair', pair, dict(kinds=kinds, steps=(1 + (th and not late) if svgd else 3 + th), late=late), wall=1500 if th else 400))
    # longer histories in given orders, with burn-ins that end at different times
    for kinds in [('SGHMC', 'SGHMC'), ('SGLD', 'SGLD'), ('SGHMC', 'SGLD')]:
        for order, burn_in in [('AABABB', (2, 2)), ('ABABAB', (1, 3)), ('AAABBB', (2, 1)), ('ABBBAA', (3, 1))]:
            out.append(Job('order', pair, dict(kinds=kinds, steps=len(order), late=False, burn_in=burn_in, order=order),
                           wall=1500 if th else 400))
    for kind in C.KINDS:
        for inside in (False, True):
            out.append(Job('session', session, dict(kind=kind, inside=inside)))
    return out
