import math

import numpy as np

from checks import bnn as N
from sx.harness import Job, tf

PROPERTY = 'C28'
FUNCTIONS = ['models.bayesian_neural_network.BayesianNeuralNetwork.negative_log_likelihood', 'models.bayesian_neural_network.log_variance_prior_log_like',
             'models.bayesian_neural_network.weight_prior_log_like', 'tensor_utils.safe_divide']
BOUNDS = ('batches of 1..4 datapoints, dataset sizes 1..5, configured batch sizes below, equal to and above the dataset size; every network output, label and weight '
          '(symbolic); one to three weight tensors of shapes (), (2,), (2, 2), (1, 2), and networks of 130 and 162 weights with 12 and 2 datapoints; float64 and float32; priors with free mean, variance and decay')
ASSUMPTIONS = ['real arithmetic; the guard constants 1e-16 are below the claim', 'the network is a black box: outputs are free symbolic values']


def log_var_prior(env, logvars, mean, var):
    lm, lv = env.log(mean), env.log(var)
    return sum(0 - (s - lm) * (s - lm) / (2 * var) - 0.5 * lv for s in logvars) / len(logvars)


def rnd(v, dtype):
    return float(np.dtype(dtype).type(v))


def weight_prior(env, weights, wdecay):
    flat = [w for a in weights for w in np.asarray(a, dtype=object).reshape(-1)]
    return sum(0 - wdecay * 0.5 * w * w for w in flat) / len(flat)


def cost(env, n, N_data, batch_size, shapes, dtype, how):
    dt = getattr(tf, dtype)
    with env.tf_graph() as sess:
        out = env.array('out', (n, 2))
        ws = [env.array('w%d' % k, s) for k, s in enumerate(shapes)]

        def net(inputs, seed=None, dtype=tf.float64):
            for k, w in enumerate(ws):
                tf.Variable(tf.constant(w, dtype=dtype), dtype=dtype, name='w%d' % k)
            return feedable
        feedable = tf.placeholder(dt, shape=(None, 2))
        x, y = tf.placeholder(dt, shape=(None, 1)), tf.placeholder(dt)
        b = N.make(env, sess, net, batch_size=batch_size, dtype=dt)
        b.X, b.y = np.zeros((N_data, 1)), np.zeros(N_data)
        nll, mse = b.negative_log_likelihood(X=x, Y=y)
        sess.run(tf.global_variables_initializer())
        lab = env.array('y', (n, 1))
        got, err = sess.run([nll, mse], feed_dict={x: np.zeros((n, 1)), y: lab, feedable: out})
        ll = 0.0
        sq = 0.0
        for i in range(n):
            d = lab[i][0] - out[i][0]
            ll = ll - d * d / (2 * env.exp(out[i][1])) - 0.5 * out[i][1]
            sq = sq + d * d
        want = ll / n + log_var_prior(env, [o[1] for o in out], rnd(1e-6, dtype), rnd(0.01, dtype)) / N_data + weight_prior(env, ws, 1.0) / N_data
        env.equal('cost', got, 0 - want)
        env.equal('mean squared error', err, sq / n)


def priors(env, n, shapes, dtype, defaults):
    from pysgmcmc.models import bayesian_neural_network as m
    dt = getattr(tf, dtype)
    with env.tf_graph() as sess:
        lv = env.array('lv', (n, 1))
        ws = [env.array('w%d' % k, s) for k, s in enumerate(shapes)]
        mean, var, wd = (rnd(1e-6, dtype), rnd(0.01, dtype), 1.0) if defaults else (env.real('mean', 'pos'), env.real('var', 'pos'), env.real('wdecay', 'pos'))
        vs = [tf.Variable(tf.constant(w, dtype=dt), dtype=dt) for w in ws]
        sess.run(tf.global_variables_initializer())
        kw = {} if defaults else dict(mean=mean, var=var)
        a = m.log_variance_prior_log_like(tf.constant(lv, dtype=dt), dtype=dt, **kw)
        c = m.weight_prior_log_like(vs, dtype=dt, **({} if defaults else dict(wdecay=wd)))
        a, c = sess.run([a, c])
        env.equal('log variance prior', a, log_var_prior(env, list(lv[:, 0]), mean, var))
        env.equal('weight prior', c, weight_prior(env, ws, wd))


def jobs(tier):
    th = tier == 'thorough'
    out = []
    W = ((), (2,), (2, 2))
    sizes = [(1, 1, 1), (2, 2, 2), (2, 5, 2), (3, 3, 20), (1, 1, 20), (2, 2, 3), (3, 4, 3), (1, 5, 1)]
    if th:
        sizes += [(4, 4, 5), (5, 7, 5), (6, 6, 20), (1, 100, 1), (4, 1000, 4)]
    for n, N_data, bs in sizes:
        for shapes in (W, ((1, 2),)):
            out.append(Job('cost', cost, dict(n=n, N_data=N_data, batch_size=bs, shapes=shapes, dtype='float64', how='')))
    out.append(Job('cost', cost, dict(n=2, N_data=4, batch_size=2, shapes=W, dtype='float32', how=''), rel_tol=1e-3))
    # larger networks and batches
    for n, N_data, bs, shapes in [(12, 40, 12, ((12, 10), (10,))), (2, 2, 20, ((30, 5), (5, 2), (2,))), (2, 3, 2, ((2,), ()) * 17)]:
        out.append(Job('cost', cost, dict(n=n, N_data=N_data, batch_size=bs, shapes=shapes, dtype='float64', how='')))
    out.append(Job('priors', priors, dict(n=2, shapes=((), (1, 2)) * 20, dtype='float64', defaults=True)))
    for n in (1, 2, 3):
        for shapes in (W, ((2, 2),), ((), ())):
            for d in (False, True):
                out.append(Job('priors', priors, dict(n=n, shapes=shapes, dtype='float64', defaults=d)))
    out.append(Job('priors', priors, dict(n=2, shapes=W, dtype='float32', defaults=True), rel_tol=1e-3))
    return out
