import numpy as np

from checks import batches as B
from sx import rng
from sx.harness import Job

PROPERTY = 'C05'
FUNCTIONS = ['data_batches.generate_batches', 'data_batches.generate_shuffled_batches']
BOUNDS = ('batch_size and seed: every integer (symbolic, unbounded), every float (symbolic), and listed values of other types; datasets of 1..4 rows '
          'with 1..4 labels (symbolic counts), labels flat or column; joint query over all of them')
ASSUMPTIONS = ['for the shuffled generator an invalid seed may surface as numpy\'s own ValueError or TypeError: it seeds its shuffling streams first',
               'bool and numpy integers are not judged as batch size or seed']
STUBS = ['numpy.random.RandomState and global functions (sx/rng.py)']

OTHER = ('3', '', None, [2], (1,), {}, np.array([2, 3]), 1 + 0j, b'1', object)


def outcome(env, shuffled, x, y, b, seed):
    px, py = B.placeholders()
    with rng.world(env):
        try:
            gen = B.generator(shuffled)(x=x, y=y, x_placeholder=px, y_placeholder=py, batch_size=b, seed=seed)
            batch = next(gen)
        except AssertionError:
            return 'rejected'
        except (ValueError, TypeError) as e:
            return 'numpy'
    return 'accepted' if isinstance(batch, dict) and px in batch and py in batch else 'garbage'


def judge(env, label, shuffled, got, args_ok, seed_ok):
    """args_ok, seed_ok: conditions (possibly symbolic)"""
    env.labels.append(label)
    if got == 'accepted':
        env.check(label + ': accepted only if valid', env.all(args_ok, seed_ok))
    elif got == 'rejected':
        env.check(label + ': rejected only if invalid', env.not_(env.all(args_ok, seed_ok)))
    elif got == 'numpy' and shuffled:
        env.check(label + ': only an invalid seed is rejected by numpy', env.not_(seed_ok))
    else:
        env.fail(label + ': assertion error or a batch', got)


def data(env, nx, ny, labels):
    return env.array('x', (nx, 2)), env.array('y', (ny,) if labels == 'flat' else (ny, 1))


def ints(env, shuffled, labels, none):
    nx = int(env.int('nx', 1, 4))
    ny = nx if env.bool('same') else int(env.int('ny', 1, 4))
    x, y = data(env, nx, ny, labels)
    b = env.int('batch_size')
    seed = None if none else env.int('seed')
    got = outcome(env, shuffled, x, y, b, seed)
    judge(env, 'integers', shuffled, got, env.all(b >= 1, nx == ny), True if none else env.all(seed >= 0, seed <= 2 ** 32 - 1))


def floats(env, shuffled, which):
    x, y = data(env, 3, 3, 'flat')
    b = env.real('batch_size') if which == 'batch_size' else env.int('batch_size', 1)
    seed = env.real('seed') if which == 'seed' else env.int('seed', 0, 2 ** 32 - 1)
    got = outcome(env, shuffled, x, y, b, seed)
    judge(env, 'float ' + which, shuffled, got, which != 'batch_size', which != 'seed')


def others(env, shuffled):
    x, y = data(env, 3, 3, 'flat')
    r = env.real('r')
    for k, v in enumerate(OTHER + (2.0, 0.5, float('nan'), float('inf'))):
        got = outcome(env, shuffled, x, y, v, 1)
        judge(env, 'batch_size %d' % k, shuffled, got, False, True)
        if v is None:
            continue
        got = outcome(env, shuffled, x, y, 2, v)
        judge(env, 'seed %d' % k, shuffled, got, True, False)
    env.check('reached', r == r)


def jobs(tier):
    out = []
    for sh in (False, True):
        for labels in ('flat', 'column'):
            for none in (False, True):
                out.append(Job('integers', ints, dict(shuffled=sh, labels=labels, none=none), max_paths=4000, replays=8))
        for which in ('batch_size', 'seed'):
            out.append(Job('floats', floats, dict(shuffled=sh, which=which), max_paths=500))
        out.append(Job('others', others, dict(shuffled=sh)))
    return out
