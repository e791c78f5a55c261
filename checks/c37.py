"""C37: the default network of the BNN."""
import contextlib
import math
import sys
import types

import numpy as np

from checks import common as C
from sx import sym as S
from sx import expr as E
from sx.harness import Job, tf

PROPERTY = 'C37'
FUNCTIONS = ['bayesian_neural_network.get_default_net (graph construction executed, the graph evaluated symbolically)']
BOUNDS = ('1 row of 1 feature with every weight symbolic (5,252 weights; thorough: 3 rows of 2 features), 2 rows of 2 and 3 features with about 6% of the '
          'weights symbolic and the others 0; every input value, every noise level; initial weights for seeds 0, 1, 42 and a symbolic seed (every 0 <= s < 2**31); '
          'float64 and float32')
ASSUMPTIONS = ['tensorflow.contrib is not installed: its variance_scaling_initializer is the equivalent tf.variance_scaling_initializer',
               'tanh is uninterpreted apart from its range']
STUBS = ['tensorflow.contrib.layers.variance_scaling_initializer']


@contextlib.contextmanager
def contrib(log=None):
    names = ('tensorflow.contrib', 'tensorflow.contrib.layers')
    keep = {n: sys.modules.get(n) for n in names}
    top, layers = types.ModuleType(names[0]), types.ModuleType(names[1])

    def variance_scaling_initializer(factor=2.0, mode='FAN_IN', uniform=False, seed=None, dtype=tf.float32):
        if log is not None:
            log.append(seed)
        return tf.variance_scaling_initializer(scale=factor, mode=mode.lower(), distribution='uniform' if uniform else 'truncated_normal',
                                               seed=seed, dtype=dtype)
    layers.variance_scaling_initializer = variance_scaling_initializer
    top.layers = layers
    sys.modules.update({names[0]: top, names[1]: layers})
    try:
        yield
    finally:
        for n, m in keep.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


def default_net(x, **kw):
    from pysgmcmc.models.bayesian_neural_network import get_default_net
    with contrib():
        return get_default_net(inputs=x, **kw)


def tanh(env, v):
    return S.wrap(E.tanh(S.lift(v))) if env.symbolic else math.tanh(v)


def forward(env, row, ws):
    """the documented network from its weights in order of creation"""
    h = list(row)
    for k in range(4):
        W, b = ws[2 * k], ws[2 * k + 1]
        nxt = []
        for j in range(W.shape[1]):
            z = h[0] * W[0, j]
            for i in range(1, len(h)):
                z = z + h[i] * W[i, j]
            z = z + b[j]
            nxt.append(tanh(env, z) if k < 3 else z)
        h = nxt
    return h[0]


def architecture(env, n, D, dtype='float64', free='all'):
    """output = 3 tanh layers of 50 units and a linear one, next to a constant column"""
    dt = getattr(tf, dtype)
    X = env.array('x', (n, D))
    with env.tf_graph() as sess:
        ph = tf.placeholder(dt, (None, D))
        out = default_net(ph, dtype=dt)
        vs = tf.trainable_variables()
        shapes = [tuple(v.shape.as_list()) for v in vs]
        want = [(D, 50), (50,), (50, 50), (50,), (50, 50), (50,), (50, 1), (1,), (1, 1)]
        if not env.expect('trainable weights: four layers and the noise level', sorted(shapes) == sorted(want)):
            return
        env.expect('weights have the requested dtype', all(v.dtype.base_dtype == dt for v in vs) and out.dtype == dt)
        sess.run(tf.global_variables_initializer())
        lay = [v for v, s in zip(vs, shapes) if s != (1, 1)]
        noise = [v for v, s in zip(vs, shapes) if s == (1, 1)][0]
        env.equal('initial noise variance is 1e-3', np.asarray(sess.run(noise), dtype=object).reshape(-1),
                  np.array([env.number(float(np.float32(math.log(1e-3))) if dtype == 'float32' else math.log(1e-3))], dtype=object))
        ws = []
        rng = np.random.RandomState(3)
        for k, v in enumerate(lay):
            s = tuple(v.shape.as_list())
            if free == 'all':
                w = env.array('w%d' % k, s)
            else:
                w = np.empty(s, dtype=object)
                for ix in np.ndindex(*s):
                    # sparse: free weights on a few connections, 0 elsewhere
                    w[ix] = env.real('w%d_%s' % (k, '_'.join(map(str, ix)))) if rng.rand() < 0.06 or ix == (0,) * len(s) or v is lay[-1] else env.number(0.0)
            env.set_var(sess, v, w)
            ws.append(w)
        c = env.real('noise')
        env.set_var(sess, noise, np.array([[c]], dtype=object))
        got = np.asarray(sess.run(out, feed_dict={ph: X}), dtype=object)
        if not env.expect('one mean and one log variance per row', got.shape == (n, 2)):
            return
        for i in range(n):
            env.equal('mean of row %d' % i, got[i, 0], forward(env, X[i], ws))
            env.equal('log variance of row %d' % i, got[i, 1], c)


def seeding(env, seed, symseed=False):
    if symseed:
        seed = env.int('seed', 0, 2 ** 31 - 1)
    r = env.real('r')
    env.check('reached', r == r)
    got = []
    for extra in (False, True):
        with env.tf_graph(real_random=True) as sess:
            if extra:
                tf.Variable(1.0, trainable=False) + tf.random_normal((2,)) + tf.random_normal((2,), seed=5)
            ph = tf.placeholder(tf.float64, (None, 1))
            default_net(ph, seed=seed, dtype=tf.float64)
            sess.run(tf.global_variables_initializer())
            got.append([np.asarray(sess.run(v), dtype=object).reshape(-1) for v in tf.trainable_variables()])
    env.expect('same weights', [len(v) for v in got[0]] == [len(v) for v in got[1]])
    for k, (a, b) in enumerate(zip(*got)):
        env.equal('initial weights %d' % k, a, b)


def jobs(tier):
    th = tier == 'thorough'
    out = [Job('architecture', architecture, dict(n=1, D=1), wall=600), Job('architecture', architecture, dict(n=2, D=2, free='sparse'), wall=600),
           Job('architecture', architecture, dict(n=2, D=3, free='sparse', dtype='float32'), wall=600, rel_tol=2e-3)]
    if th:
        out.append(Job('architecture', architecture, dict(n=3, D=2), wall=1500))
    for seed in (0, 1, 42):
        out.append(Job('seeding', seeding, dict(seed=seed), feed_noise=False))
    out.append(Job('seeding', seeding, dict(seed=None, symseed=True), feed_noise=False, optional=True))
    return out
