"""C19: median is the statistical median for every input."""
from fractions import Fraction

from sx.harness import Job, tf

PROPERTY = 'C19'
FUNCTIONS = ['pysgmcmc.tensor_utils.median (graph built by the real function, incl. its Reshape/TopKV2/StridedSlice ops)']
BOUNDS = 'tensors with 1..7 elements (quick) / 1..9 (thorough), shapes of rank 0..3, arbitrary real values (all orders, ties, signs); up to 25 (64) elements with arbitrary values in four layouts each, up to 64 (66) in one'
ASSUMPTIONS = ['real arithmetic instead of float rounding', 'top_k sorts as documented (sorting-network model, replayed on TensorFlow)']


def rank(env, vals, k):
    """k-th smallest value, by counting"""
    out = vals[-1]
    for v in vals[:-1]:
        less = sum(env.where(w < v, 1, 0) for w in vals)
        leq = sum(env.where(w <= v, 1, 0) for w in vals)
        out = env.where(env.all(less <= k, leq >= k + 1), v, out)
    return out


def harness(env, shape, dtype='float64', how='placeholder'):
    from pysgmcmc.tensor_utils import median
    x = env.array('x', shape)
    dt = tf.as_dtype(dtype)
    with env.tf_graph() as sess:
        if how == 'placeholder':
            p = tf.placeholder(dt, shape=shape)
            feed = {p: x}
        else:
            p = tf.get_variable('v', shape=shape, dtype=dt, initializer=tf.zeros_initializer())
            sess.run(p.initializer)
            env.set_var(sess, p, x)
            feed = {}
        m = median(p)
        env.expect('scalar tensor', m.shape.as_list() == [])
        env.expect('dtype kept', m.dtype.base_dtype == dt)
        got = sess.run(m, feed)
    vals = list(x.reshape(-1))
    n = len(vals)
    if n % 2:
        want = rank(env, vals, n // 2)
    else:
        want = (rank(env, vals, n // 2 - 1) + rank(env, vals, n // 2)) * 0.5
    env.equal('median', got, want)
    if dtype == 'float64':
        env.check('half of the values on each side', env.all(
            sum(env.where(v < got, 1, 0) for v in vals) * 2 <= n,
            sum(env.where(v > got, 1, 0) for v in vals) * 2 <= n))


def ordered(env, shape, layout, dtype='float64'):
    """larger tensors: the values lie in one of several orders, the values themselves
    (ties included) are arbitrary"""
    import random
    import numpy as np
    from pysgmcmc.tensor_utils import median
    n = int(np.prod(shape, dtype=int))
    vals = [env.real('low')]
    for k in range(1, n):
        vals.append(vals[-1] + env.real('gap%d' % k, 'nonneg'))
    order = list(range(n))
    if layout < 0:
        order.reverse()
    elif layout:
        random.Random(layout).shuffle(order)
    x = np.empty((n,), dtype=object if env.symbolic else np.float64)
    for k, j in enumerate(order):
        x[k] = vals[j]
    with env.tf_graph() as sess:
        p = tf.placeholder(tf.as_dtype(dtype), shape=shape)
        got = sess.run(median(p), {p: x.reshape(shape)})
    env.equal('median', got, vals[n // 2] if n % 2 else (vals[n // 2 - 1] + vals[n // 2]) * 0.5)


def jobs(tier):
    out = []
    shapes = [(), (1,), (2,), (3,), (4,), (5,), (6,), (7,), (1, 1), (2, 2), (3, 1), (2, 3), (1, 2, 2)]
    if tier == 'thorough':
        shapes += [(8,), (9,), (2, 2, 2), (3, 3), (1, 5), (1, 1, 7)]
    for s in shapes:
        out.append(Job('median', harness, dict(shape=s), rel_tol=1e-9, timeout=100 if tier == 'thorough' else 40))
    for s in [(3,), (4,)]:
        out.append(Job('median', harness, dict(shape=s, dtype='float32'), rel_tol=1e-5))
        out.append(Job('median', harness, dict(shape=s, how='variable'), rel_tol=1e-9))
    for shape in [(8,), (10,), (3, 4), (13,), (16,), (5, 5)] + ([(11,), (5, 6), (32,), (33,), (7, 7), (50,), (64,)] if tier == 'thorough' else []):
        for layout in (0, -1, 1, 2):
            out.append(Job('ordered', ordered, dict(shape=shape, layout=layout), rel_tol=1e-9, timeout=60))
    # long ones: every residue of the length, around powers of two
    for n in (23, 29, 31, 34, 64) + ((33, 35, 65, 66) if tier == 'thorough' else ()):
        out.append(Job('ordered', ordered, dict(shape=(n,), layout=1), rel_tol=1e-9, timeout=60))
    return out
