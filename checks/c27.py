import numpy as np

from checks import bnn as N
from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C27'
FUNCTIONS = ['models.bayesian_neural_network.BayesianNeuralNetwork.train']
BOUNDS = ('n_nets 1..3 (and 1..8 with sample_steps 1), n_iters 1..6 (thorough 9), burn_in_steps 0..4 (thorough 6), sample_steps 1..3 (thorough 4), all symbolic; two successive training runs; '
          'both supported sampling methods')
ASSUMPTIONS = ['the sampler is a recorded stand-in that counts its draws (samplers themselves: C06-C23)',
               'the first collected sample may be any of the first sample_steps + 1 ones after burn-in; only the spacing is fixed by the documentation']
STUBS = ['Sampler.get_sampler returns a counting iterator; the session stand-in returns zeros for the logged errors']


class Chain(object):
    def __init__(self, tag, stuck=False):
        self.stuck = stuck
        self.tag, self.drawn, self.given = tag, 0, []

    def value(self, k):
        # neither whole numbers nor ones of single precision
        return np.array([[0.1 if self.stuck else k + 0.1, self.tag]])

    def __iter__(self):
        return self

    def __next__(self):
        v = [self.value(self.drawn)]
        self.drawn += 1
        self.given.append(v)
        if self.drawn > 200:
            raise RuntimeError('the chain is drawn without end')
        return v, 0.0


class Session(object):
    def run(self, fetches, feed_dict=None, **kw):
        if isinstance(fetches, (list, tuple)):
            return [np.float64(0.0) for _ in fetches]
        return np.float64(0.0)


def judge(env, label, chain, samples, n_nets, n_iters, burn_in, steps):
    if chain.stuck:
        # a chain that stays where it is (all samples are equal): they count all the same
        for s in samples:
            env.expect(label + ': every network is the sample', isinstance(s, (list, tuple)) and len(s) == 1 and s[0].tolist() == chain.value(0).tolist())
        k = len(samples)
        env.check(label + ': at most n_iters draws', chain.drawn <= n_iters)
        env.check(label + ': at most n_nets networks', k <= n_nets)
        env.check(label + ': every sample_steps-th one is kept', env.any(k == n_nets, burn_in + steps + k * steps >= n_iters))
        return
    pos = []
    for s in samples:
        at = [k for k, g in enumerate(chain.given) if g is s or (isinstance(s, (list, tuple)) and len(s) == 1 and s[0] is g[0])]
        if len(at) != 1:
            # an equal copy is as good
            at = [k for k, g in enumerate(chain.given) if isinstance(s, (list, tuple)) and len(s) == 1 and np.array_equal(s[0], g[0])]
        if not env.expect(label + ': every network is a sample of this chain', len(at) == 1):
            return
        pos.append(at[0])
    for k, g in enumerate(chain.given):
        env.expect(label + ': samples are not modified', g[0].tolist() == chain.value(k).tolist())
    k = len(pos)
    env.check(label + ': at most n_iters draws', chain.drawn <= n_iters)
    env.check(label + ': at most n_nets networks', k <= n_nets)
    for a, b in zip(pos, pos[1:]):
        env.check(label + ': every sample_steps-th one, in order', b - a == steps)
    if pos:
        env.check(label + ': burn-in samples are discarded', pos[0] >= burn_in)
        env.check(label + ': collection starts after burn-in', pos[0] <= burn_in + steps)
        env.check(label + ': stops as soon as n_nets networks are collected',
                  env.any(env.all(k == n_nets, chain.drawn == pos[-1] + 1), env.all(k < n_nets, pos[-1] + steps >= n_iters)))
    else:
        env.check(label + ': nothing is left out', n_iters <= burn_in + steps)
    env.check(label + ': stops only when done', env.any(k == n_nets, chain.drawn == n_iters))


def train(env, kind, hi, runs, stuck=False):
    from pysgmcmc.sampling import Sampler
    n_nets, n_iters = env.int('n_nets', 1, hi[0]), env.int('n_iters', 1, hi[1])
    burn_in, steps = env.int('burn_in_steps', 0, hi[2]), env.int('sample_steps', 1, hi[3])
    chains = []

    def get_sampler(*a, **k):
        chains.append(Chain(float(len(chains)), stuck))
        return chains[-1]
    saved = Sampler.__dict__['get_sampler']
    with env.tf_graph(session=False):
        b = N.make(env, Session(), N.linear_net(env, 1), sampling_method=C.method(kind), n_nets=n_nets, n_iters=n_iters, burn_in_steps=burn_in, sample_steps=steps,
                   batch_size=1, seed=1)
        type.__setattr__(Sampler, 'get_sampler', staticmethod(get_sampler))
        try:
            for r in range(runs):
                b.train(np.array([[0.5], [1.5]]), np.array([1.0, 2.0]))
                if not env.expect('run %d: one sampler' % r, len(chains) == r + 1):
                    return
                judge(env, 'run %d' % r, chains[r], list(b.samples), n_nets, n_iters, burn_in, steps)
                env.expect('run %d: marked as trained' % r, b.is_trained is True)
        finally:
            type.__setattr__(Sampler, 'get_sampler', saved)


def jobs(tier):
    th = tier == 'thorough'
    hi = (4, 10, 6, 4) if th else (3, 6, 4, 3)
    out = [Job('train', train, dict(kind=k, hi=hi, runs=1), max_paths=20000, replays=12, wall=300 if not th else 3000) for k in ('SGHMC', 'SGLD')]
    out.append(Job('train', train, dict(kind='SGHMC', hi=(2, 4, 2, 2) if not th else (3, 6, 3, 3), runs=2), max_paths=20000, replays=12, wall=300 if not th else 3000))
    out.append(Job('stuck', train, dict(kind='SGHMC', hi=(3, 5, 1, 2), runs=1, stuck=True), max_paths=20000, replays=12, wall=300))
    # many networks
    out.append(Job('many', train, dict(kind='SGHMC', hi=(8, 9, 1, 1), runs=1), max_paths=20000, replays=12, wall=300))
    out.append(Job('long', train, dict(kind='SGHMC', hi=(2, 14 if not th else 30, 1, 5 if not th else 9), runs=1), max_paths=20000, replays=12, wall=300 if not th else 3000, optional=True))
    return out
