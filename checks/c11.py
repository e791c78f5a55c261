import numpy as np

from checks import common as C
from sx import sym as S
from sx.harness import Job, tf

PROPERTY = 'C11'
FUNCTIONS = ['SVGDSampler.__init__/svgd_kernel (graph construction executed, the graph with its while loops evaluated symbolically)',
             'tensor_utils.pdist/squareform/median', 'MCMCSampler.__next__', 'tf.gradients through tf.map_fn']
BOUNDS = ('2 particles of dimension 1 and 2, 3 particles of dimension 1 (thorough: dimension 2 with 3 and 3 with 2 particles), up to 5 particles of dimension 2 (thorough 7, dimension 3) at fixed positions with the rest symbolic, '
          '1 step (2 steps for 2 particles of dimension 1; thorough up to 3; one step from an arbitrary history of squared gradients), pairwise distinct; particle values, cost coefficients, stepsize, alpha in (0,1) and fudge factor symbolic')
ASSUMPTIONS = ['exact real arithmetic; exp, log and sqrt are uninterpreted apart from their algebraic axioms',
               'cost of a particle is a polynomial with symbolic coefficients, evaluated through tf.map_fn and tf.gradients of the real code',
               'particles pairwise distinct (the median heuristic is undefined for coincident ones)']


def sort(env, xs):
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = env.minimum(a, b), env.maximum(a, b)
    return xs


def reference(env, X, grad, hist, alpha, fudge, eps):
    """X: particles (list of lists), grad: same layout"""
    n, D = len(X), len(X[0])
    d2 = [[sum((X[i][k] - X[j][k]) * (X[i][k] - X[j][k]) for k in range(D)) for j in range(n)] for i in range(n)]
    off = sort(env, [d2[i][j] for i in range(n) for j in range(i + 1, n)])
    allv = [0.0] * n + [v for v in off for _ in (0, 1)]
    med = allv[(n * n) // 2] if (n * n) % 2 else (allv[n * n // 2 - 1] + allv[n * n // 2]) / 2
    h2 = 0.5 * med / env.log(n + 1.0)
    K = [[env.exp(-d2[i][j] / (2 * h2)) if i != j else 1.0 for j in range(n)] for i in range(n)]
    out, newhist = [], []
    for i in range(n):
        row, hrow = [], []
        for k in range(D):
            drive = sum(K[i][j] * grad[j][k] for j in range(n))
            # gradient of k(xj, xi) with respect to xj
            repel = sum(K[i][j] * (X[i][k] - X[j][k]) / h2 for j in range(n))
            phi = (drive - repel) / n
            hk = alpha * hist[i][k] + (1 - alpha) * phi * phi
            row.append(X[i][k] - eps * phi / (fudge + env.sqrt(hk)))
            hrow.append(hk)
        out.append(row)
        newhist.append(hrow)
    return out, newhist


def svgd(env, n, shape, steps, dtype='float64', cubic=False, numbers=False, fixed=0, visit=None, schedules=False, history=False):
    dt = getattr(tf, dtype)
    D = int(np.prod(shape, dtype=int))
    with env.tf_graph(**(dict(explore_schedules=True) if schedules else {})) as sess:
        if fixed:
            import random
            r = random.Random(fixed)
            order = r.sample(range(n), n)
            x0 = [np.array([order[i] - n / 2 + r.randint(-1024, 1024) / 4096.0 for _ in range(D)]).reshape(shape) for i in range(n)]
            parts = [tf.Variable(tf.constant(v, dtype=dt), dtype=dt) for v in x0]
        else:
            parts, x0 = C.variables(env, (shape,) * n, dt)
        a = env.array('a', shape)
        b = env.array('b', shape)
        q = env.real('q') if cubic else 0.0
        pa, pb = tf.placeholder(dt, shape, name='pa'), tf.placeholder(dt, shape, name='pb')

        def cost(x):
            c = tf.reduce_sum(pa * x * x + pb * x)
            if cubic:
                c = c + tf.constant(q, dtype=dt) * tf.reduce_sum(x * x * x)
            return c
        eps = [env.real('eps%d' % t, 'pos') for t in range(steps)]
        if numbers:
            # plain numbers where the constructor insists on them
            alpha, fudge = 0.75, 0.015625
        else:
            alpha, fudge = env.real('alpha', 'unit'), env.real('fudge', 'pos')
        X = [[env.number(u) if fixed else u for u in v.reshape(-1)] for v in x0]
        sched = C.Schedule(eps, 0.01)
        sampler = C.make(env, 'SVGD', sess, parts, cost, C.Batches([{pa: a, pb: b} for _ in range(steps)]), sched,
                         dtype=dt, alpha=alpha, fudge_factor=fudge)
        sess.explore_schedules = False
        sess.run(tf.global_variables_initializer())
        sess.explore_schedules = schedules
        hist = [[0.0] * D for _ in range(n)]
        if history:
            # an arbitrary history of squared gradients
            rest = [v for v in tf.global_variables() if not any(v is p for p in parts) and v.dtype.base_dtype == dt and
                    v.shape.num_elements() == n * D and n * D > 1]
            if len(rest) != 1:
                raise S.Unsupported('%d variables could hold the history' % len(rest))
            h = env.array('hist', tuple(rest[0].shape.as_list()), 'nonneg')
            env.set_var(sess, rest[0], h)
            h = h.reshape(-1)
            hist = [[h[i * D + k] for k in range(D)] for i in range(n)]
        av, bv = a.reshape(-1), b.reshape(-1)
        for t in range(steps):
            if t:
                # continue from arbitrary new particle positions (the history stays)
                fresh = [env.array('y%d_%d' % (t, i), shape) for i in range(n)]
                for p, v in zip(parts, fresh):
                    env.set_var(sess, p, v)
                X = [list(v.reshape(-1)) for v in fresh]
            for i in range(n):
                for j in range(i):
                    env.assume(sum((X[i][k] - X[j][k]) * (X[i][k] - X[j][k]) for k in range(D)) > 1e-11)
            sample, c = next(sampler)
            if visit is not None:
                visit(t, sched)
            env.equal('step %d: cost of each particle before the step' % t, np.asarray(c, dtype=object).reshape(-1), np.array(
                [sum(av[k] * x[k] * x[k] + bv[k] * x[k] + q * x[k] * x[k] * x[k] for k in range(D)) for x in X], dtype=object))
            grad = [[2 * av[k] * x[k] + bv[k] + 3 * q * x[k] * x[k] for k in range(D)] for x in X]
            want, hist = reference(env, X, grad, hist, alpha, fudge, eps[t])
            for i in range(n):
                got = np.asarray(sample[i], dtype=object)
                env.equal('step %d particle %d' % (t, i), got, np.array(want[i], dtype=object).reshape(shape))


def jobs(tier):
    th = tier == 'thorough'
    confs = [(2, (1,), 1), (2, (2,), 1), (3, (1,), 1), (2, (1,), 2)]
    if th:
        confs += [(3, (2,), 1), (2, (3,), 1), (2, (1,), 3), (3, (1,), 2), (2, (2,), 2)]
    out = []
    for n, shape, steps in confs:
        out.append(Job('svgd', svgd, dict(n=n, shape=shape, steps=steps, numbers=True), wall=1500 if th else 400, budget=120 if not th else 600))
    out.append(Job('svgd', svgd, dict(n=2, shape=(1,), steps=1, numbers=True, cubic=True)))
    out.append(Job('svgd', svgd, dict(n=2, shape=(2,), steps=1, numbers=True, dtype='float32'), rel_tol=2e-3))
    for n, shape in ((2, (1,)), (2, (2,))):
        out.append(Job('inductive', svgd, dict(n=n, shape=shape, steps=1, numbers=True, history=True), optional='strengthen'))
    # larger swarms: particle positions fixed (several layouts), everything else symbolic
    for n, shape in ((4, (1,)), (5, (2,))) + (((4, (2,)), (6, (1,)), (5, (3,)), (7, (2,))) if th else ()):
        for k in (1, 2) + ((3, 4) if th else ()):
            out.append(Job('svgd', svgd, dict(n=n, shape=shape, steps=1, numbers=True, fixed=k), budget=60))
    if th:
        out.append(Job('svgd', svgd, dict(n=4, shape=(1,), steps=1, numbers=True), wall=1500, budget=600, optional=True))
    return out
