import itertools

import numpy as np

from checks import common as C
from checks import diag as D
from checks.c30 import stacked, trace_mod
from sx.harness import Job, tf

PROPERTY = 'C31'
FUNCTIONS = ['diagnostics.sample_chains.PYSGMCMCTrace.from_sampler', 'diagnostics.sample_chains.pymc3_multitrace',
             'diagnostics.sampler_diagnostics.effective_sample_sizes', 'diagnostics.sampler_diagnostics.gelman_rubin',
             'diagnostics.sampler_diagnostics._pymc3_diagnostic']
BOUNDS = ('n_samples 1..4 (thorough: 6), keep_every 1..3 (thorough: 4) and 1..3 chains symbolic; also 5 and 9 chains, 25 samples, keep_every 3 and 11; 1..3 parameters of shapes (), (1,), (2,), (2,2); every sampled value; '
          'stand-in samplers and real SGHMC and SGLD samplers; every combination of initialised and uninitialised variables')
ASSUMPTIONS = ['pymc3 is not installed: its MultiTrace and diagnostics are stand-ins that record what they are given',
               'samplers yield lists with one value per parameter; with a single parameter either that or the value itself']


class Param(object):
    def __init__(self, name):
        self.name = name


class Stream(object):
    """a sampler as far as traces are concerned"""

    def __init__(self, values, names, unravel):
        self.params = [Param(n) for n in names]
        self.values, self.unravel, self.drawn = values, unravel, 0

    def __iter__(self):
        return self

    def __next__(self):
        s = self.values[self.drawn]
        self.drawn += 1
        return (s[0] if self.unravel == 'yes' or (self.unravel == 'later' and self.drawn > 1) else list(s)), 0.0

    next = __next__


def holds(env, tr, chain, names, samples, shapes):
    env.expect('chain id', tr.chain == chain)
    if not env.expect('names', list(tr.varnames) == list(names)):
        return
    if not env.expect('number of samples', len(tr) == len(samples)):
        return
    for v, sh in enumerate(shapes):
        env.equal('values of variable %d' % v, np.asarray(tr.get_values(names[v])), stacked(env, [s[v] for s in samples], sh))


def extract(env, shapes, top, every, named, unravel='no', default=False):
    m = trace_mod()
    values = [[env.array('s%d_v%d' % (t, v), sh) if sh != () else env.real('s%d_v%d' % (t, v)) for v, sh in enumerate(shapes)] for t in range(top * every)]
    own = ['w%d:0' % k for k in range(len(shapes))]
    sampler = Stream(values, own, unravel)
    n = env.int('n_samples', 1, top)
    kw = {}
    if default:
        k = 1
    else:
        k = kw['keep_every'] = env.int('keep_every', 1, every)
    given = ['first', 'second', 'third'][:len(shapes)] if named else None
    if named:
        kw['varnames'] = given
    tr = m.PYSGMCMCTrace.from_sampler(chain_id=11, sampler=sampler, n_samples=n, **kw)
    n, k = int(n), int(k)
    holds(env, tr, 11, given if named else own, values[0:n * k:k], shapes)
    # what the sampler produces next belongs to the next trace
    if sampler.drawn < len(values):
        tr2 = m.PYSGMCMCTrace.from_sampler(3, sampler, 1)
        env.expect('second trace has the next chain id', tr2.chain == 3 and len(tr2) == 1)
        env.expect('nothing is drawn that a trace does not need', sampler.drawn <= n * k + 1)


def real_sampler(env, kind, shapes, n, k, burn_in):
    m = trace_mod()

    def run(take):
        with env.tf_graph() as sess:
            params, x0 = C.variables(env, shapes)
            sampler = C.make(env, kind, sess, params, C.quadratic(len(shapes)), seed=3, burn_in=burn_in, momenta=[0.5] * len(shapes))
            sess.run(tf.global_variables_initializer())
            return take(sampler, [p.name for p in params])

    def alone(sampler, names):
        return [C.as_list(next(sampler)[0], len(shapes)) for _ in range((n - 1) * k + 1)][::k], names

    def traced(sampler, names):
        return m.PYSGMCMCTrace.from_sampler(0, sampler, n, keep_every=k), names
    want, names = run(alone)
    tr, names2 = run(traced)
    holds(env, tr, 0, names2, want, shapes)


class Counter(object):
    """sampler over graph variables whose next sample is determined by their state"""

    def __init__(self, session, start):
        self.session = session
        var = [tf.Variable(tf.constant(v, dtype=tf.float64), dtype=tf.float64, name='p%d' % k) for k, v in enumerate(start[:-1])]
        # internal state of a sampler is not trainable
        var.append(tf.Variable(tf.constant(start[-1], dtype=tf.float64), dtype=tf.float64, name='rate', trainable=False))
        self.params, self.rate = var[:-1], var[-1]
        self.step = [tf.assign_add(p, tf.ones_like(p) * self.rate) for p in self.params]

    def __iter__(self):
        return self

    def __next__(self):
        out = self.session.run(self.step)
        return (out[0] if len(out) == 1 else out), 0.0

    next = __next__


class Chains(object):
    def __init__(self, env, shapes, state=False):
        self.env, self.shapes, self.made, self.state, self.start = env, shapes, [], state, []

    def __call__(self, session):
        i = len(self.made)
        env = self.env
        start = [env.array('init%d_%d' % (i, k), sh) for k, sh in enumerate(self.shapes + ((),))]
        s = Counter(session, start)
        env.expect('built in the graph of its session', session.graph is tf.get_default_graph() and s.rate.graph is session.graph)
        self.made.append((session, session.graph, s))
        if self.state:
            for k, v in enumerate(s.params + [s.rate]):
                flag = env.bool('burnt_in%d_%d' % (i, k))
                val = env.array('state%d_%d' % (i, k), np.shape(start[k]))
                env.set_init(session, v, flag, val)
                new = np.empty(np.shape(val), dtype=object if env.symbolic else float)
                for j in np.ndindex(*np.shape(val)):
                    new[j] = env.where(flag, val[j], start[k][j])
                start[k] = new
        self.start.append(start)
        return s

    def samples(self, i, n, every):
        start = self.start[i]
        rate = start[-1]
        out = []
        for t in range(n):
            out.append([start[k] + rate * (1 + t * every) for k in range(len(self.shapes))])
        return out


def judge(env, chains, mt, n_chains, n, every, names):
    if not env.expect('number of chains', len(mt.straces) == n_chains == len(chains.made)):
        return
    for (s1, g1, m1), (s2, g2, m2) in itertools.combinations(chains.made, 2):
        env.expect('chains share no session or graph', s1 is not s2 and g1 is not g2)
    for i, tr in enumerate(mt.straces):
        own = [p.name for p in chains.made[i][2].params]
        holds(env, tr, i, names or own, chains.samples(i, n, every), chains.shapes)


def multi(env, shapes, named, state=False, top=3, fixed=None):
    m = trace_mod()
    chains = Chains(env, shapes, state)
    if fixed:
        n_chains, n, every = fixed
    else:
        n_chains, n, every = env.int('n_chains', 1, 3), env.int('samples_per_chain', 1, top), env.int('keep_every', 1, 2)
    names = ['first', 'second', 'third'][:len(shapes)] if named else None
    kw = dict(parameter_names=names) if named else {}
    mt = m.pymc3_multitrace(chains, n_chains=n_chains, samples_per_chain=n, keep_every=every, **kw)
    if not env.expect('a pymc3 multi trace', isinstance(mt, D.MultiTrace)):
        return
    judge(env, chains, mt, int(n_chains), int(n), int(every), names)


def diagnostics(env, which, shapes, default=False):
    m = trace_mod()
    import pysgmcmc.diagnostics.sampler_diagnostics as sd
    del D.CALLS[:]
    chains = Chains(env, shapes)
    if default:
        got = getattr(sd, which)(chains)
        n_chains, n = 2, 100
    else:
        n_chains, n = env.int('n_chains', 1, 3), env.int('samples_per_chain', 1, 3)
        got = getattr(sd, which)(chains, n_chains=n_chains, samples_per_chain=n)
        n_chains, n = int(n_chains), int(n)
    if not env.expect('pymc3 is asked once', len(D.CALLS) == 1):
        return
    name, mt, args, kwargs, result = D.CALLS[0]
    env.expect('the right diagnostic', name == {'effective_sample_sizes': 'effective_n', 'gelman_rubin': 'gelman_rubin'}[which])
    env.expect('its result is returned', got is result)
    env.expect('no other arguments', not args and not kwargs)
    if env.expect('computed on a multi trace', isinstance(mt, D.MultiTrace)):
        if not env.expect('number of chains', len(mt.straces) == n_chains == len(chains.made)):
            return
        again = Chains(env, shapes)
        want = m.pymc3_multitrace(again, n_chains=n_chains, samples_per_chain=n)
        for i, (tr, w) in enumerate(zip(mt.straces, want.straces)):
            env.expect('samples per chain', len(tr) == n)
            own = [p.name for p in chains.made[i][2].params]
            holds(env, tr, i, own, [[w.get_values(name)[t] for name in own] for t in range(n)], shapes)
            env.equal('first sample', tr.get_values(own[0])[:1], stacked(env, [chains.samples(i, 1, 1)[0][0]], shapes[0]))


def jobs(tier):
    th = tier == 'thorough'
    out = []
    top, every = (6, 4) if th else (4, 3)
    for shapes in (((), ()), ((2,), (), (2, 2))) + ((((1,), (3,)), ((), (), ())) if th else ()):
        for named in (True, False):
            out.append(Job('extract', extract, dict(shapes=shapes, top=top, every=every, named=named), max_paths=2000))
        out.append(Job('extract', extract, dict(shapes=shapes, top=top, every=1, named=False, default=True)))
    for sh in ((), (1,), (2,), (2, 2)):
        for unravel in ('yes', 'no', 'later'):
            for named in (True, False):
                out.append(Job('extract', extract, dict(shapes=(sh,), top=3, every=2, named=named, unravel=unravel), max_paths=2000))
    for kind in ('SGHMC', 'SGLD'):
        for shapes in (((),), ((2,),), ((), (2,))):
            out.append(Job('sampler', real_sampler, dict(kind=kind, shapes=shapes, n=2, k=2, burn_in=1)))
            if th:
                out.append(Job('sampler', real_sampler, dict(kind=kind, shapes=shapes, n=3, k=2, burn_in=1)))
    for shapes in (((),), ((2,), ())):
        for named in (True, False):
            out.append(Job('multi', multi, dict(shapes=shapes, named=named), max_paths=2000))
        for fixed in ((5, 1, 1), (9, 2, 1), (1, 25, 3), (2, 3, 11)):
            out.append(Job('multi', multi, dict(shapes=shapes, named=False, fixed=fixed)))
        out.append(Job('multi', multi, dict(shapes=shapes, named=False, state=True, fixed=(2, 2, 2)), max_paths=2000))
        for which in ('effective_sample_sizes', 'gelman_rubin'):
            out.append(Job('diagnostics', diagnostics, dict(which=which, shapes=shapes)))
            if shapes == ((),):
                out.append(Job('diagnostics', diagnostics, dict(which=which, shapes=shapes, default=True)))
    return out
