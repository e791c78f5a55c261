import math

import numpy as np

from checks import diag as D
from sx import harness as H
from sx.harness import Job, tf

PROPERTY = 'C33'
FUNCTIONS = ['diagnostics.objective_functions.' + n for n in (
    'to_negative_log_likelihood', 'banana_log_likelihood', 'gaussian_mixture_model_log_likelihood', 'gmm1_log_likelihood', 'gmm2_log_likelihood',
    'gmm3_log_likelihood', 'sinc', 'bohachevski', 'branin', 'camelback', 'goldstein_price', 'hartmann3', 'hartmann6', 'levy', 'rosenbrock', 'sin_one', 'sin_two')]
BOUNDS = ('every real argument; mixtures of 1..4, 6, 9 and 12 components with every mean, positive variance and positive weight; graph variables of dtype float64 and float32; '
          'sinc on arrays of shape (1..2, 1..2)')
ASSUMPTIONS = ['real arithmetic; floating point constants stand for the decimals or quotients they were written as',
               'scipy.special.logsumexp and numpy.sinc compute what their documentation says']


def mod():
    import pysgmcmc.diagnostics.objective_functions as o
    return o


def mixture(env, x, mu, var, w):
    if not env.symbolic:
        t = [math.log(k) - 0.5 * math.log(2 * math.pi * v) - (x - m) ** 2 / (2 * v) for m, v, k in zip(mu, var, w)]
        return max(t) + math.log(sum(math.exp(v - max(t)) for v in t))
    total = 0
    for m, v, k in zip(mu, var, w):
        total = total + k * env.exp(0 - (x - m) * (x - m) / (2 * v)) / env.sqrt(2 * math.pi * v)
    return env.log(total)


def call(o, name, x):
    return getattr(o, name)(x)


def gmm(env, n, form, kind='numeric', dtype='float64', fixed=None):
    o = mod()
    x = env.real('x')
    if fixed is None:
        mu = [env.real('mu%d' % k) for k in range(n)]
        var = [env.real('var%d' % k, 'pos') for k in range(n)]
        w = [env.real('w%d' % k, 'pos') for k in range(n)]
        f = lambda a: o.gaussian_mixture_model_log_likelihood(a, mu=mu, var=var, weights=w)
    else:
        mu, w = (-5., 0., 5.), (1. / 3,) * 3
        var = {1: (1., 1., 1.), 2: (2., 0.5, 2.), 3: (1 / 0.3, 0.3, 1 / 0.3), 0: (1., 1., 1.)}[fixed]
        f = getattr(o, 'gmm%d_log_likelihood' % fixed) if fixed else o.gaussian_mixture_model_log_likelihood
    want = mixture(env, x, mu, var, w)
    if kind == 'numeric':
        arg = {'plain': x, 'list': [x], 'tuple': (x,), 'array': np.array([x])}[form]
        env.equal('log likelihood', f(arg), want)
        return
    dt = getattr(tf, dtype)
    with env.tf_graph() as sess:
        v = tf.Variable(0., dtype=dt)
        got = f([v] if form == 'list' else v)
        sess.run(tf.global_variables_initializer())
        env.set_var(sess, v, x)
        env.expect('dtype', got.dtype.base_dtype == dt)
        env.equal('log likelihood of a graph variable', sess.run(got), want, tol=None if dtype == 'float64' else 2e-3)


def banana(env, kind):
    o = mod()
    x, y = env.real('x'), env.real('y')
    want = -0.5 * (x * x / 100 + (y + x * x / 10 - 10) * (y + x * x / 10 - 10))
    if kind == 'numeric':
        env.equal('log likelihood', o.banana_log_likelihood([x, y]), want)
        env.equal('log likelihood of an array', o.banana_log_likelihood(np.array([x, y])), want)
        return
    with env.tf_graph() as sess:
        a, b = tf.Variable(0., dtype=tf.float64), tf.Variable(0., dtype=tf.float64)
        got = o.banana_log_likelihood([a, b])
        sess.run(tf.global_variables_initializer())
        env.set_var(sess, a, x)
        env.set_var(sess, b, y)
        env.equal('log likelihood of graph variables', sess.run(got), want)


def negation(env):
    o = mod()
    a, b, c = env.real('a'), env.real('b'), env.real('c')
    seen = []

    def my_density(p, q=2.0, *rest, **kw):
        seen.append((p, q, rest, kw))
        r = p * 3 + q
        for v in rest:
            r = r * v
        for k in sorted(kw):
            r = r - kw[k]
        return r
    neg = o.to_negative_log_likelihood(my_density)
    env.expect('name is kept', neg.__name__ == 'my_density')
    env.equal('one argument', neg(a), 0 - (a * 3 + 2.0))
    env.equal('keyword argument', neg(a, q=b), 0 - (a * 3 + b))
    env.equal('all kinds of arguments', neg(a, b, c, extra=a), 0 - ((a * 3 + b) * c - a))
    env.equal('same call again', neg(a), 0 - (a * 3 + 2.0))
    env.expect('one call each', len(seen) == 4)
    neg2 = o.to_negative_log_likelihood(neg)
    env.equal('twice', neg2(a, b), a * 3 + b)
    env.expect('wrapped banana keeps its name', o.to_negative_log_likelihood(o.banana_log_likelihood).__name__ == 'banana_log_likelihood')
    env.equal('wrapped banana', o.to_negative_log_likelihood(o.banana_log_likelihood)([a, b]),
              0.5 * (0.01 * a * a + (b + 0.1 * a * a - 10) * (b + 0.1 * a * a - 10)))


H3 = ([1.0, 1.2, 3.0, 3.2],
      [[3.0, 10.0, 30.0], [0.1, 10.0, 35.0], [3.0, 10.0, 30.0], [0.1, 10.0, 35.0]],
      [[3689, 1170, 2673], [4699, 4387, 7470], [1090, 8732, 5547], [381, 5743, 8828]])
H6 = ([1.00, 1.20, 3.00, 3.20],
      [[10.00, 3.00, 17.00, 3.50, 1.70, 8.00], [0.05, 10.00, 17.00, 0.10, 8.00, 14.00],
       [3.00, 3.50, 1.70, 10.00, 17.00, 8.00], [17.00, 8.00, 0.05, 10.00, 0.10, 14.00]],
      [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991],
       [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]])


def hartmann(env, x, table):
    alpha, A, P = table
    total = 0
    for i in range(4):
        s = 0
        for j in range(len(x)):
            d = x[j] - P[i][j] / 10000.
            s = s + A[i][j] * d * d
        total = total + alpha[i] * env.exp(0 - s)
    return 0 - total


def reference(env, name, x):
    pi = math.pi
    if name == 'bohachevski':
        return x[0] * x[0] + 2 * x[1] * x[1] - 0.3 * env.cos(3 * pi * x[0]) - 0.4 * env.cos(4 * pi * x[1]) + 0.7
    if name == 'branin':
        b, c, t = 5.1 / (4 * pi ** 2), 5 / pi, 1 / (8 * pi)
        q = x[1] - b * x[0] * x[0] + c * x[0] - 6
        return q * q + 10 * (1 - t) * env.cos(x[0]) + 10
    if name == 'camelback':
        a, b = x[0] * x[0], x[1] * x[1]
        return (4 - 2.1 * a + a * a / 3) * a + x[0] * x[1] + (4 * b - 4) * b
    if name == 'goldstein_price':
        a, b = x[0], x[1]
        p = (a + b + 1) * (a + b + 1) * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b)
        q = (2 * a - 3 * b) * (2 * a - 3 * b) * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b)
        return (1 + p) * (30 + q)
    if name == 'hartmann3':
        return hartmann(env, x, H3)
    if name == 'hartmann6':
        return hartmann(env, x, H6)
    if name == 'levy':
        z = 1 + (x[0] - 1) / 4
        s, t = env.sin(pi * z), env.sin(2 * pi * z)
        return s * s + (z - 1) * (z - 1) * (1 + t * t)
    if name == 'rosenbrock':
        q = x[1] - x[0] * x[0]
        return 100 * q * q + (x[0] - 1) * (x[0] - 1)
    s = [0.5 * env.sin(13 * v) * env.sin(27 * v) + 0.5 for v in x]
    return s[0] if name == 'sin_one' else s[0] * s[1]


DIMS = dict(bohachevski=2, branin=2, camelback=2, goldstein_price=2, hartmann3=3, hartmann6=6, levy=1, rosenbrock=2, sin_one=1, sin_two=2)


def benchmark(env, name):
    o = mod()
    x = [env.real('x%d' % k) for k in range(DIMS[name])]
    want = reference(env, name, x)
    env.equal('value', getattr(o, name)(list(x)), want)
    env.equal('value for an array', getattr(o, name)(np.array(x)), want)


def sinc(env, shape):
    o = mod()
    x = env.array('x', shape)
    keep = np.array(x, copy=True)
    got = o.sinc(x)
    if not env.expect('one value per row', np.shape(got) == (shape[0],)):
        return
    for i in range(shape[0]):
        total = 0
        for v in keep[i]:
            t = math.pi * (v * 10 - 5)
            total = total + (1.0 if v == 0.5 else env.sin(t) / t)
        env.equal('row %d' % i, got[i], total)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for name in DIMS:
        out.append(Job(name, benchmark, dict(name=name)))
    for shape in ((1, 1), (2, 1), (1, 2)) + (((2, 2), (3, 2)) if th else ()):
        out.append(Job('sinc', sinc, dict(shape=shape)))
    for k in ('numeric', 'graph'):
        out.append(Job('banana', banana, dict(kind=k)))
    out.append(Job('negation', negation, {}))
    for n in (1, 2, 3, 4) + ((5, 6) if th else ()):
        for form in ('plain', 'list', 'tuple', 'array')[:4 if n == 3 else 1]:
            out.append(Job('mixture', gmm, dict(n=n, form=form)))
    for n in (6, 9, 12):
        out.append(Job('mixture', gmm, dict(n=n, form='list')))
        out.append(Job('mixture, graph', gmm, dict(n=n, form='list', kind='graph')))
    for fixed in (0, 1, 2, 3):
        out.append(Job('named mixture', gmm, dict(n=3, form='list', fixed=fixed)))
        for dt in ('float64', 'float32'):
            out.append(Job('named mixture, graph', gmm, dict(n=3, form='list', kind='graph', dtype=dt, fixed=fixed)))
    for n in (1, 2, 3):
        for form in ('list', 'plain'):
            out.append(Job('mixture, graph', gmm, dict(n=n, form=form, kind='graph')))
    return out
