import numpy as np

from checks import batches as B
from sx import rng
from sx.harness import Job

PROPERTY = 'C04'
FUNCTIONS = ['data_batches.generate_batches', 'data_batches.generate_shuffled_batches']
BOUNDS = ('every seed in [0, 2**32 - 1] (symbolic), datasets of 2 and 3 rows with symbolic values, every batch size (symbolic), '
          'every interleaving of up to 4 draws from two generators (symbolic schedule) with global draws and reseeds in between; 2 batches per stream')
ASSUMPTIONS = ['numpy.random is external: a stream is a function of its seed and position (sx/rng.py)']
STUBS = ['numpy.random.RandomState and global functions (sx/rng.py)']


def make(env, shuffled, N, seed, b):
    px, py = B.placeholders()
    return px, py


def seeded(env, shuffled, N, steps, disturb):
    px, py = B.placeholders()
    x, y = B.dataset(env, N)
    b = env.int('batch_size', 1, N + 1)
    seed = env.int('seed', 0, 2 ** 32 - 1)
    with rng.world(env) as w:
        # the same data, in arrays of their own
        gens = [B.generator(shuffled)(x=x.copy(), y=y.copy(), x_placeholder=px, y_placeholder=py, batch_size=b, seed=seed) for _ in range(2)]
        got = [[], []]
        for t in range(steps):
            if disturb == 'draw':
                np.random.randint(0, 5)
            elif disturb == 'reseed':
                np.random.seed(t)
            before = (w.glob._key, w.glob._pos, w.global_seeds)
            who = 0 if env.bool('schedule%d' % t) else 1
            if len(got[who]) >= 2:
                who = 1 - who
            batch = next(gens[who])
            got[who].append((batch[px], batch[py]))
            env.expect('draw %d leaves the global random state alone' % t, (w.glob._key, w.glob._pos, w.global_seeds) == before)
        for k, (a, c) in enumerate(zip(*got)):
            env.equal('batch %d: same data' % k, np.array(a[0]), np.array(c[0]))
            env.equal('batch %d: same labels' % k, np.array(a[1]), np.array(c[1]))


def unseeded(env, shuffled, N):
    px, py = B.placeholders()
    x, y = B.dataset(env, N)
    b = env.int('batch_size', 1, N + 1)
    with rng.world(env) as w:
        streams = []
        for run in range(2):
            np.random.seed(11)
            n = w.global_draws
            gen = B.generator(shuffled)(x=x.copy(), y=y.copy(), x_placeholder=px, y_placeholder=py, batch_size=b, seed=None)
            out = []
            for t in range(2):
                batch = next(gen)
                out.append((np.array(batch[px]), np.array(batch[py])))
            env.expect('the global random state is used', w.global_draws > n)
            streams.append(out)
        for k, (a, c) in enumerate(zip(*streams)):
            env.equal('batch %d: same data from the same global state' % k, a[0], c[0])
            env.equal('batch %d: same labels from the same global state' % k, a[1], c[1])


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for sh in (False, True):
        for d in ('none', 'draw', 'reseed'):
            out.append(Job('seeded', seeded, dict(shuffled=sh, N=2, steps=4, disturb=d), max_paths=4000, replays=4))
        out.append(Job('unseeded', unseeded, dict(shuffled=sh, N=2), max_paths=4000, replays=4))
        if th or not sh:
            out.append(Job('seeded', seeded, dict(shuffled=sh, N=3, steps=4, disturb='draw'), max_paths=30000, replays=4, wall=240 if not th else 2400))
            out.append(Job('unseeded', unseeded, dict(shuffled=sh, N=3), max_paths=30000, replays=4, wall=240 if not th else 2400))
    return out
