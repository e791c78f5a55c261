"""Shared harness for the minibatch generators (C01-C05)."""
import collections

import numpy as np

from sx import expr as E
from sx import rng
from sx import sym as S
from sx.harness import tf


def generator(shuffled):
    from pysgmcmc import data_batches as m
    return m.generate_shuffled_batches if shuffled else m.generate_batches


def placeholders():
    with tf.Graph().as_default():
        return tf.placeholder(tf.float64, name='x'), tf.placeholder(tf.float64, name='y')


def special(env, v):
    return S.wrap(E.const(v)) if env.symbolic else v


def dataset(env, N, D=2, labels='flat', share='', missing=False):
    """symbolic data; share: labels are a view of the data / both of one array"""
    if missing:
        x, y = dataset(env, N, D, labels, share)
        x[0, 0], x[N - 1, D - 1] = special(env, float('nan')), special(env, float('-inf'))
        y.reshape(-1)[N - 1], y.reshape(-1)[N // 2] = special(env, float('nan')), special(env, float('inf'))
        return x, y
    if share == 'column':
        x = env.array('x', (N, D))
        y = x[:, 0] if labels == 'flat' else x[:, :1]
    elif share == 'base':
        base = env.array('x', (N, D + 1))
        x = base[:, :D]
        y = base[:, D] if labels == 'flat' else base[:, D:]
    else:
        x = env.array('x', (N,) + (D if isinstance(D, tuple) else (D,)))
        y = env.array('y', (N,) if labels == 'flat' else (N, 1))
    return x, y


def key(row):
    out = []
    for v in np.asarray(row, dtype=object).reshape(-1):
        n = S.lift(v)
        out.append(n.id if isinstance(v, S._Sym) and n.op != 'special' else 'nan' if v != v else float(v))
    return tuple(out)


def rows(a):
    return [key(r) for r in a]


def check_batch(env, label, batch, px, py, X, Y, b, shuffled):
    """X, Y: keys of the dataset rows; returns the window start or None"""
    N = len(X)
    if not env.expect(label + ': feeds exactly the two placeholders', isinstance(batch, dict) and len(batch) == 2 and
                      px in batch and py in batch):
        return None
    bx, by = np.asarray(batch[px], dtype=object), np.asarray(batch[py], dtype=object)
    n = N if b >= N else int(b)
    if not env.expect(label + ': %d datapoints' % n, bx.ndim >= 1 and bx.shape[0] == n):
        return None
    if not env.expect(label + ': labels are a (batch, 1) column', by.shape == (n, 1)):
        return None
    kx, ky = rows(bx), rows(by)
    pairs = collections.Counter(zip(kx, ky))
    data = collections.Counter(zip(X, Y))
    env.expect(label + ': distinct datapoints of the dataset with their own labels', not (pairs - data))
    starts = [s for s in range(N - n + 1) if X[s:s + n] == kx and Y[s:s + n] == ky]
    if not shuffled:
        env.expect(label + ': consecutive datapoints in dataset order', bool(starts))
    else:
        starts = [s for s in range(N - n + 1) if collections.Counter(zip(X[s:s + n], Y[s:s + n])) == pairs]
    return starts[0] if starts else None


def stream(env, shuffled, N, draws, labels='flat', share='', D=2, seed=None, bmax=None, unchanged=False, missing=False, b=None):
    """draw batches with symbolic batch size, seed and random numbers"""
    px, py = placeholders()
    x, y = dataset(env, N, D, labels, share, missing)
    before = (np.array(x, copy=True), np.array(y, copy=True))
    X, Y = rows(x), rows(y)
    b = b or env.int('batch_size', 1, bmax)
    if seed == 'sym':
        seed = env.int('seed', 0, 2 ** 32 - 1)
    with rng.world(env):
        gen = generator(shuffled)(x=x, y=y, x_placeholder=px, y_placeholder=py, batch_size=b, seed=seed)
        for t in range(draws):
            batch = next(gen)
            if not unchanged:
                check_batch(env, 'batch %d' % t, batch, px, py, X, Y, b, shuffled)
                if px in batch:
                    env.expect('batch %d: datapoints keep their shape' % t, np.shape(batch[px])[1:] == x.shape[1:])
                env.equal('batch %d: size' % t, len(batch[px]) if px in batch else -1, env.minimum(b, N))
            else:
                env.expect('batch %d: data unchanged' % t, rows(x) == X and x.shape == before[0].shape)
                env.expect('batch %d: labels unchanged' % t, rows(y) == Y and y.shape == before[1].shape)
                env.equal('data after batch %d' % t, x, before[0])
                env.equal('labels after batch %d' % t, y, before[1])


# ---------------------------------------------------------------------------
# datasets of symbolic length
# ---------------------------------------------------------------------------

class Rows(object):
    """`length` consecutive rows from `start` of an array of any length"""

    def __init__(self, name, start, length, trail, perm=()):
        self.name, self.start, self.length, self.trail, self.perm = name, start, length, trail, perm
        self.read_only = None

    @property
    def shape(self):
        return (self.length,) + self.trail

    @property
    def ndim(self):
        return 1 + len(self.trail)

    def __len__(self):
        raise S.Unsupported('len() of an array of symbolic length')

    def _new(self, **kw):
        d = dict(name=self.name, start=self.start, length=self.length, trail=self.trail, perm=self.perm)
        d.update(kw)
        return Rows(**d)

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        sl, rest = idx[0], idx[1:]
        if not isinstance(sl, slice) or sl.step not in (None, 1) or self.perm:
            raise S.Unsupported('indexing with %r' % (idx,))
        a = 0 if sl.start is None else sl.start
        z = self.length if sl.stop is None else sl.stop
        # numpy slices clip
        if not (a >= 0):
            raise S.Unsupported('negative slice')
        if not (z <= self.length):
            z = self.length
        if not (a <= z):
            a = z
        trail = self.trail
        for k in rest:
            if k is None:
                trail = (1,) + trail
            elif k == slice(None):
                continue
            else:
                raise S.Unsupported('indexing with %r' % (idx,))
        return self._new(start=self.start + a, length=z - a, trail=trail)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        size = int(np.prod(self.trail, dtype=int))
        rest = tuple(shape[1:])
        if shape[0] is self.length or shape[0] == -1:
            if any(not isinstance(r, int) or r < 0 for r in rest) or int(np.prod(rest, dtype=int)) != size:
                raise S.Unsupported('reshape %r' % (shape,))
            return self._new(trail=rest)
        raise S.Unsupported('reshape %r' % (shape,))

    def copy(self, *a, **k):
        return self._new()

    def _sx_shuffle(self, name):
        self.perm = self.perm + (name,)


def any_length(env, shuffled, labels, seed=None, windows=False):
    """a dataset of ANY length and any batch size: the same code, with start and
    length of every slice as terms"""
    px, py = placeholders()
    N, b = env.int('N', 1), env.int('batch_size', 1)
    if seed == 'sym':
        seed = env.int('seed', 0, 2 ** 32 - 1)
    if not env.symbolic:
        N = min(N, 5000)
        x = np.arange(2.0 * N).reshape(N, 2)
        y = -1.0 - np.arange(N)
        if labels != 'flat':
            y = y.reshape(N, 1)
    else:
        x = Rows('x', 0, N, (2,))
        y = Rows('y', 0, N, () if labels == 'flat' else (1,))
    n = env.minimum(b, N)
    with rng.world(env) as w:
        gen = generator(shuffled)(x=x, y=y, x_placeholder=px, y_placeholder=py, batch_size=b, seed=seed)
        for t in range(2):
            batch = next(gen)
            bx, by = batch[px], batch[py]
            if env.symbolic:
                if not isinstance(bx, Rows) or not isinstance(by, Rows):
                    raise S.Unsupported('batches of another type')
                env.expect('data from x, labels from y', bx.name == 'x' and by.name == 'y')
                env.check('batch %d: window inside the dataset' % t, env.all(bx.start >= 0, bx.start + bx.length <= N))
                env.equal('batch %d: size of the data' % t, bx.length, n)
                env.equal('batch %d: size of the labels' % t, by.length, n)
                env.equal('batch %d: labels belong to the data' % t, by.start, bx.start)
                env.expect('batch %d: labels are a column' % t, by.trail == (1,))
                same = [a.split(':')[-2:] for a in bx.perm] == [a.split(':')[-2:] for a in by.perm] and \
                    [a.split(':')[2] for a in bx.perm] == [a.split(':')[2] for a in by.perm]
                env.expect('batch %d: data and labels are permuted alike' % t, same)
                if not shuffled:
                    env.expect('batch %d: dataset order' % t, bx.perm == ())
            else:
                env.equal('batch %d: size of the data' % t, len(bx), n)
                env.equal('batch %d: size of the labels' % t, len(by), n)
                env.equal('batch %d: labels belong to the data' % t, float(-1 - by[0][0]), float(bx[0][0]) / 2)
                check_batch(env, 'batch %d' % t, batch, px, py, rows(x), rows(y), b, shuffled)
