"""Stand-ins for numpy's random generators: a stream is a function of its seed
and the position in the stream; unseeded streams and the global state are free.
The same stand-ins serve the replay, with values taken from the counterexample."""
import contextlib
import math
import zlib

import numpy as np

from sx import expr as E
from sx import harness
from sx import sym as S

real_np_random = {k: getattr(np.random, k) for k in (
    'RandomState', 'randint', 'seed', 'shuffle', 'permutation', 'random', 'rand', 'uniform', 'normal', 'choice',
    'random_sample', 'randn', 'get_state', 'set_state')}


NODES = {}


class World(object):
    """all randomness of one execution"""

    def __init__(self, env, collide=False):
        # collide: distinct seed terms may have equal values (forked)
        self.env, self.collide = env, collide
        self.fresh = 0
        self.seeds = {}
        self.glob = Stream(self, 'global0', is_global=True)
        self.global_draws = 0
        self.global_seeds = 0
        self.draws = []        # (stream key, position, kind, term)

    def seed_name(self, key):
        """streams are named by the first use of their seed, so that a replay
        with concrete seeds finds the same streams"""
        if key in self.seeds:
            return 'seed%d' % self.seeds[key]
        if self.env.symbolic and self.collide:
            # a different term (or a number) may still be the same seed
            node = NODES.get(key) if key[0] == 'sym' else E.const(key[1])
            for other, k in list(self.seeds.items()):
                o = NODES.get(other) if other[0] == 'sym' else E.const(other[1])
                if S.ctx().branch(E.eq(node, o)):
                    self.seeds[key] = k
                    return 'seed%d' % k
        return 'seed%d' % self.seeds.setdefault(key, len(set(self.seeds.values())))

    def int_value(self, name, lo, hi):
        """an integer lo <= v < hi"""
        env = self.env
        if not env.symbolic:
            v = int(env.value(name, int(lo)))
            return min(max(v, int(lo)), int(hi) - 1)
        v = E.var(name, E.I)
        env.doms.setdefault(name, lambda r: r.randint(0, 12))
        env.path.assume(S.b(lo <= S.wrap(v)))
        env.path.assume(S.b(S.wrap(v) < hi))
        env.nints += 1
        if harness.FORK_INTS and not (type(lo) is int and type(hi) is int and hi - lo > 50):
            return env.path.concretize(v)
        return S.wrap(v)

    def perm(self, name, n):
        """a permutation of range(n), forked over all of them (of up to 8
        elements; of more elements one given permutation per draw)"""
        n = int(n)
        if n > 8:
            return [int(k) for k in real_np_random['RandomState'](zlib.crc32(name.encode())).permutation(n)]
        rest, out = list(range(n)), []
        for k in range(n - 1):
            j = int(self.int_value('%s.%d' % (name, k), 0, len(rest)))
            out.append(rest.pop(j))
        return out + rest


def seed_key(world, seed, kind):
    if isinstance(seed, S._Sym):
        node = seed.node
        ok = E.and_(E.le(E.ZERO if node.sort == E.R else E.const(0), node), E.lt(node, E.const(2 ** 32, node.sort)))
        if node.sort != E.I:
            raise TypeError('Cannot cast float to int64')
        if not S.ctx().branch(ok):
            raise ValueError('Seed must be between 0 and 2**32 - 1')
        NODES[('sym', node.id)] = node
        return world.seed_name(('sym', node.id))
    real_np_random['RandomState']().seed(seed)      # numpy's own validation
    return world.seed_name(('int', int(seed)))


class Stream(object):
    """RandomState"""

    def __init__(self, world, key=None, is_global=False, kind='mt'):
        self._w, self._g = world, is_global
        self._kind = kind
        if key is None:
            world.fresh += 1
            key = 'fresh%d' % world.fresh
        self._key, self._pos = key, 0

    def _next(self, what):
        if self._g:
            self._w.global_draws += 1
        name = 'rng:%s:%s:%d:%s' % (self._kind, self._key, self._pos, what)
        self._w.draws.append((self._key, self._pos, what))
        self._pos += 1
        return name

    def seed(self, seed=None):
        if self._g:
            self._w.global_seeds += 1
        if seed is None:
            self._w.fresh += 1
            self._key = 'fresh%d' % self._w.fresh
        else:
            self._key = seed_key(self._w, seed, self._kind)
        self._pos = 0

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is not None:
            n = int(np.prod(size, dtype=int))
            return np.array([self.randint(low, high) for _ in range(n)], dtype=object).reshape(size)
        if not (low < high):
            raise ValueError('low >= high')
        return self._w.int_value(self._next('i'), low, high)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + 1 if endpoint else high, size)

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            return np.array(self._w.perm(self._next('p'), x), dtype=int)
        x = np.array(x)
        return x[self._w.perm(self._next('p'), x.shape[0])]

    def shuffle(self, x):
        name = self._next('p')
        if hasattr(x, '_sx_shuffle'):
            return x._sx_shuffle(name)
        p = self._w.perm(name, len(x))
        if isinstance(x, np.ndarray):
            x[:] = x[p]
        else:
            x[:] = [x[i] for i in p]

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise S.Unsupported('weighted choice')
        n = int(a) if not hasattr(a, '__len__') else len(a)
        if size is None:
            k = int(self.randint(0, n))
            return k if not hasattr(a, '__len__') else a[k]
        m = int(np.prod(size, dtype=int))
        if replace:
            idx = [int(self.randint(0, n)) for _ in range(m)]
        else:
            if m > n:
                raise ValueError('Cannot take a larger sample than population when replace=False')
            idx = self._w.perm(self._next('p'), n)[:m]
        idx = np.array(idx, dtype=int).reshape(size)
        return idx if not hasattr(a, '__len__') else np.asarray(a)[idx]

    def get_state(self, *a, **k):
        return ('state', self._key, self._pos)

    def set_state(self, st):
        self._key, self._pos = st[1], st[2]

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise S.Unsupported('random function ' + name)


@contextlib.contextmanager
def world(env, collide=False):
    w = World(env, collide)

    class RandomState(Stream):
        def __init__(self, seed=None):
            Stream.__init__(self, w)
            if seed is not None:
                self.seed(seed)

    def default_rng(seed=None):
        if isinstance(seed, Stream):
            return seed
        s = Stream(w, kind='pcg')
        if seed is not None:
            s.seed(seed)
        return s
    saved = dict((k, getattr(np.random, k)) for k in list(real_np_random) + ['default_rng'])
    try:
        np.random.RandomState = RandomState
        np.random.default_rng = default_rng
        for k in ('randint', 'seed', 'shuffle', 'permutation', 'choice', 'get_state', 'set_state'):
            setattr(np.random, k, getattr(w.glob, k))
        for k in ('random', 'rand', 'uniform', 'normal', 'random_sample', 'randn'):
            setattr(np.random, k, lambda *a, **kw: w.glob.__getattr__('float draw'))
        yield w
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)
