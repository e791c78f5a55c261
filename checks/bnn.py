"""Shared harness for the Bayesian neural network model (C26-C29)."""
import numpy as np

from checks import common as C
from sx.harness import tf

NP = {tf.float64: np.float64, tf.float32: np.float32}


def linear_net(env, D, shared=False):
    """two outputs, one (D + 1, 2) weight matrix; `shared`: separate weights and biases"""
    made = []

    def net(inputs, seed=None, dtype=tf.float64):
        w = tf.Variable(tf.zeros((D, 2), dtype=dtype), dtype=dtype, name='w')
        made.append(w)
        out = tf.matmul(inputs, w)
        if not shared:
            b = tf.Variable(tf.zeros((2,), dtype=dtype), dtype=dtype, name='b')
            made.append(b)
            out = out + b
        return out
    net.made = made
    return net


def outputs(params, x):
    """reference: network outputs of one parameter set on rows x"""
    w = np.asarray(params[0], dtype=object)
    out = []
    for row in x:
        o = [sum(row[d] * w[d][k] for d in range(len(row))) for k in range(2)]
        if len(params) > 1:
            o = [o[k] + params[1][k] for k in range(2)]
        out.append(o)
    return out


def make(env, sess, net, **kw):
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    return BayesianNeuralNetwork(session=sess, get_net=net, **kw)


def stats(env, col):
    n = len(col)
    m = sum(col) / n
    v = sum((x - m) * (x - m) for x in col) / n
    return m, v


def standardised(env, col):
    """reference standardisation of one column"""
    m, v = stats(env, col)
    if bool(env.all(*[c == col[0] for c in col])):
        return [c - m for c in col]
    s = env.sqrt(v)
    return [(c - m) / s for c in col]
