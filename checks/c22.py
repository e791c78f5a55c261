"""C22: pdist and squareform reproduce the full pairwise distance matrix."""
import numpy as np

from sx import sym as S
from sx.harness import Job, tf

PROPERTY = 'C22'
FUNCTIONS = ['pysgmcmc.tensor_utils.pdist', 'pysgmcmc.tensor_utils.squareform']
BOUNDS = ('point sets of 1..5 points in 1..3 dimensions and of 8, 9, 12 and 45 points (20 thorough), condensed vectors of length 0..15 (28 thorough) and up to 46 (190), '
          'arbitrary real entries; acceptance of lengths: every length 0..120 concretely, every length up to 400 (2000 thorough) '
          'as a symbolic integer')
ASSUMPTIONS = ['real arithmetic instead of float rounding']
DTS = {'float64': tf.float64, 'float32': tf.float32}


def pd(env, m, d, dtype, how='placeholder'):
    from pysgmcmc.tensor_utils import pdist, squareform
    dt = DTS[dtype]
    x = env.array('x', (m, d))
    with env.tf_graph() as sess:
        if how == 'variable':
            p = tf.get_variable('v', shape=(m, d), dtype=dt, initializer=tf.zeros_initializer())
            sess.run(p.initializer)
            env.set_var(sess, p, x)
            feed = {}
        else:
            p = tf.placeholder(dt, shape=(m, d))
            feed = {p: x}
        y = pdist(p)
        n = m * (m - 1) // 2
        env.expect('a vector of all pairs', y.shape.as_list() == [n])
        env.expect('dtype of the input', y.dtype == dt)
        sq = squareform(y)
        env.expect('square', sq.shape.as_list() == [m, m])
        env.expect('dtype of the matrix', sq.dtype == dt)
        # explicit metric name is the same as the default
        y2 = pdist(p, metric='euclidean')
        got, gsq, got2 = sess.run([y, sq, y2], feed)

    def dist(i, j):
        return env.sqrt(sum((x[i, k] - x[j, k]) * (x[i, k] - x[j, k]) for k in range(d)))
    want = np.empty((n,), dtype=object)
    want[:] = [dist(i, j) for i in range(m) for j in range(i + 1, m)]
    env.equal('distances of pairs in row-major order', got, want)
    env.equal('default metric', got2, want)
    full = np.empty((m, m), dtype=object)
    for i in range(m):
        for j in range(m):
            full[i, j] = 0.0 if i == j else dist(min(i, j), max(i, j))
    env.equal('full distance matrix', gsq, full)


def sq(env, n, dtype='float64'):
    """squareform of an arbitrary vector of length n"""
    from pysgmcmc.tensor_utils import squareform
    dt = DTS[dtype]
    dim = next((k for k in range(1, 100) if k * (k - 1) == 2 * n), None)
    x = env.array('x', (n,))
    with env.tf_graph() as sess:
        p = tf.placeholder(dt, shape=(n,))
        if dim is None:
            try:
                squareform(p)
            except ValueError:
                env.check('rejected', True)
                return
            env.fail('vector of impossible length is rejected', n)
            return
        m = squareform(p)
        env.expect('dtype of the input', m.dtype == dt)
        got = sess.run(m, {p: x})
    full = np.empty((dim, dim), dtype=object)
    k = 0
    for i in range(dim):
        full[i, i] = 0.0
        for j in range(i + 1, dim):
            full[i, j] = full[j, i] = x[k]
            k += 1
    env.equal('symmetric matrix with the vector as upper triangle', got, full)


class _Reached(Exception):
    pass


class _FakeShape(object):
    def __init__(self, n):
        self.n = n

    def as_list(self):
        return [self.n]

    def __len__(self):
        return 1

    def __getitem__(self, k):
        return self.n

    @property
    def ndims(self):
        return 1


class _FakeTensor(object):
    __class__ = property(lambda self: tf.Tensor)
    dtype = tf.float64

    def __init__(self, n):
        self.shape = _FakeShape(n)

    def get_shape(self):
        return self.shape


def length(env, lo, hi):
    """acceptance of a symbolic length"""
    from pysgmcmc.tensor_utils import squareform
    n = env.int('n', lo, hi)
    valid = [k * (k - 1) // 2 for k in range(2, hi) if lo <= k * (k - 1) // 2 <= hi]
    if env.symbolic:
        saved = tf.zeros, tf.reshape, tf.dynamic_stitch

        def reached(*a, **k):
            raise _Reached()
        tf.zeros = tf.reshape = tf.dynamic_stitch = reached
        try:
            squareform(_FakeTensor(n))
            accepted = True
        except _Reached:
            accepted = True
        except ValueError:
            accepted = False
        finally:
            tf.zeros, tf.reshape, tf.dynamic_stitch = saved
    else:
        with env.tf_graph(session=False):
            try:
                squareform(tf.placeholder(tf.float64, shape=(n,)))
                accepted = True
            except ValueError:
                accepted = False
    ok = env.any(*[n == v for v in valid]) if valid else False
    env.check('accepted exactly if n = k (k - 1) / 2', ok if accepted else env.not_(ok))


def rejects(env, lengths):
    from pysgmcmc.tensor_utils import pdist, squareform
    r = env.real('r')
    with env.tf_graph(session=False):
        for n in range(lengths):
            ok = any(k * (k - 1) == 2 * n for k in range(1, lengths))
            try:
                squareform(tf.placeholder(tf.float64, shape=(n,)))
                acc = True
            except ValueError:
                acc = False
            env.expect('length %d' % n, acc == ok)
        for shape in [(2, 2), (1, 1), (3, 1), (1, 2, 3)]:
            try:
                squareform(tf.placeholder(tf.float64, shape=shape))
                env.fail('non-vector is rejected', shape)
            except (NotImplementedError, ValueError):
                pass
        for bad in ([1.0, 2.0, 3.0], np.zeros(3), None):
            try:
                squareform(bad)
                env.fail('non-tensor is rejected')
            except Exception:
                pass
        for shape in [(3,), (2, 2, 2), (1,), (1, 1, 1, 1)]:
            try:
                pdist(tf.placeholder(tf.float64, shape=shape))
                env.fail('point set that is not 2-d is rejected', shape)
            except ValueError:
                pass
        p = tf.placeholder(tf.float64, shape=(3, 2))
        for metric in ('cityblock', 'Euclidean', '', 'euclid', 'sqeuclidean', 'lengthy_metric', 'euclidean ', None, 0):
            try:
                pdist(p, metric=metric)
                env.fail('unknown metric is rejected', metric)
            except NotImplementedError:
                pass
        for bad in ([[1.0, 2.0]], np.zeros((3, 2)), None):
            try:
                pdist(bad)
                env.fail('non-tensor is rejected')
            except Exception:
                pass
    env.check('reached', r == r)


def jobs(tier):
    out = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (3, 3), (5, 1), (5, 2)]
    if tier == 'thorough':
        sizes += [(6, 2), (6, 1), (4, 3), (7, 1)]
    for m, d in sizes:
        out.append(Job('pdist', pd, dict(m=m, d=d, dtype='float64')))
    for m in (1, 2, 3):
        out.append(Job('pdist', pd, dict(m=m, d=2, dtype='float32'), rel_tol=1e-4))
        out.append(Job('pdist', pd, dict(m=m, d=2, dtype='float64', how='variable')))
    for n in range(0, 29 if tier == 'thorough' else 16):
        out.append(Job('squareform', sq, dict(n=n)))
    # larger ones: lengths around the triangular numbers
    for n in (20, 21, 22, 27, 28, 36, 45, 46) + ((55, 66, 105, 120, 190) if tier == 'thorough' else ()):
        out.append(Job('squareform', sq, dict(n=n)))
    for m, d in [(9, 1), (8, 4), (12, 2), (45, 1)] + ([(17, 1), (20, 3)] if tier == 'thorough' else []):
        out.append(Job('pdist', pd, dict(m=m, d=d, dtype='float64')))
    for n in (0, 1, 3, 6):
        out.append(Job('squareform', sq, dict(n=n, dtype='float32'), rel_tol=1e-5))
    top = 2000 if tier == 'thorough' else 400
    out.append(Job('length', length, dict(lo=1, hi=top), optional=True, validate=False))
    out.append(Job('rejects', rejects, dict(lengths=121)))
    return out
