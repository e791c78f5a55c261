import numpy as np

from checks import batches as B
from checks import bnn as N
from checks import common as C
from sx import rng
from sx.harness import Job, tf

PROPERTY = 'C38'
FUNCTIONS = ['models.bayesian_neural_network.BayesianNeuralNetwork.train', 'BayesianNeuralNetwork.negative_log_likelihood', 'BayesianNeuralNetwork.predict',
             'sampling.Sampler.get_sampler', 'SGHMCSampler, SGLDSampler (graphs evaluated symbolically)', 'BurnInMCMCSampler.__next__',
             'data_batches.generate_batches', 'data_batches.generate_shuffled_batches']
BOUNDS = ('two complete training runs, in graphs of their own (one already holds other random operations, and numpy\'s global state differs), of a linear two-output network with and '
          'without bias on 2 (thorough also 3) datapoints with symbolic values, 3 iterations (thorough 5) with a burn-in of 1, batch sizes 1 and 20, both batch generators, seeds 0, 1, 2**31-2; '
          'the networks collected and the prediction for one symbolic test point')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 count as 0', 'numpy.random is external (sx/rng.py)',
               'a TensorFlow random op with a non-zero (graph seed, op seed) pair draws a stream that this pair and its type determine; one without draws freely',
               'counterexamples are replayed with the real random number generator of TensorFlow']
STUBS = ['numpy.random (sx/rng.py)']


def linear(D, bias, made):
    def net(inputs, seed=None, dtype=tf.float64):
        w = tf.Variable(tf.random_normal((D, 2), dtype=dtype, seed=seed), dtype=dtype, name='w')
        made.append(w)
        out = tf.matmul(inputs, w)
        if bias:
            b = tf.Variable(tf.zeros((2,), dtype=dtype), dtype=dtype, name='b')
            made.append(b)
            out = out + b
        return out
    return net


def one(env, w, kind, X, y, xt, seed, cfg, other):
    with env.tf_graph(real_random=True) as sess:
        if other:
            z = tf.Variable(tf.random_normal((2,)), trainable=False) + tf.random_normal((2,), seed=5)
            np.random.randint(0, 5)
        net = linear(X.shape[1], cfg['bias'], [])
        b = N.make(env, sess, net, sampling_method=C.method(kind), batch_generator=B.generator(cfg['shuffled']), batch_size=cfg['bs'], n_nets=cfg['iters'], n_iters=cfg['iters'],
                   burn_in_steps=1, sample_steps=1, normalize_input=cfg['norm'], normalize_output=cfg['norm'], seed=seed, stepsize_schedule=C.Schedule([0.125] * cfg['iters'], 0.125))
        b.train(X.copy(), y.copy())
        nets = [[np.asarray(v, dtype=object).reshape(-1) for v in (s if isinstance(s, (list, tuple)) else [s])] for s in b.samples]
        mean, var = b.predict(xt.copy(), return_individual_predictions=True)
        return nets, np.asarray(mean, dtype=object).reshape(-1), np.asarray(var, dtype=object).reshape(-1)


def data(env, n, norm):
    X, y = env.array('X', (n, 1), 'small'), env.array('y', (n,), 'small')
    if norm:
        for k in range(1, n):
            env.assume(X[k][0] - X[k - 1][0] > 0.5)
            env.assume(y[k - 1] - y[k] > 0.5)
    return X, y, env.array('xt', (1, 1), 'small')


def equal_seeds(env, kind, seed, n, **cfg):
    X, y, xt = data(env, n, cfg['norm'])
    with rng.world(env, collide=True) as w:
        A = one(env, w, kind, X, y, xt, seed, cfg, False)
        Z = one(env, w, kind, X, y, xt, seed, cfg, True)
    if not env.expect('as many networks', len(A[0]) == len(Z[0]) == cfg['iters'] - 2 and [len(s) for s in A[0]] == [len(s) for s in Z[0]]):
        return
    for k in range(len(A[0])):
        for j in range(len(A[0][k])):
            env.equal('network %d: parameter %d' % (k, j), A[0][k][j], Z[0][k][j])
    env.equal('predicted means', A[1], Z[1])
    env.equal('predicted noise variances', A[2], Z[2])


def jobs(tier):
    th = tier == 'thorough'
    out = []
    kw = dict(feed_noise=False, wall=300 if not th else 1500)
    for kind in ('SGHMC', 'SGLD'):
        for seed in (0, 1, 2 ** 31 - 2):
            out.append(Job('seed', equal_seeds, dict(kind=kind, seed=seed, n=2, bias=False, shuffled=False, bs=1, norm=False, iters=3), **kw))
        out.append(Job('seed', equal_seeds, dict(kind=kind, seed=0, n=2, bias=True, shuffled=True, bs=20, norm=True, iters=3), **kw))
        if th:
            out.append(Job('seed', equal_seeds, dict(kind=kind, seed=7, n=3, bias=True, shuffled=True, bs=2, norm=True, iters=3), **kw))
            out.append(Job('seed', equal_seeds, dict(kind=kind, seed=7, n=2, bias=False, shuffled=False, bs=1, norm=False, iters=5), **kw))
    return out
