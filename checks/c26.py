import collections

import numpy as np

from checks import bnn as N
from sx.harness import Job, tf

PROPERTY = 'C26'
FUNCTIONS = ['models.bayesian_neural_network.BayesianNeuralNetwork.predict', 'BayesianNeuralNetwork.compute_network_output',
             'BayesianNeuralNetwork.train (set-up)', 'models.base_model.zero_mean_unit_var_(un)normalization']
BOUNDS = ('ensembles of 1..3, 5 and 64 (thorough 200) networks with symbolic weights, 1..3, 33 and 130 test points with 1..2 features, training sets of 2 points (symbolic, normalisation statistics derived '
          'from them, and free symbolic statistics), linear two-output networks with and without bias, all normalisation flags, float64; further predictions for other points of the same shape, after the networks were exchanged and after a second training run')
ASSUMPTIONS = ['real arithmetic instead of floating point', 'networks are linear in their input; the prediction code treats the network as a black box',
               'at least one collected network']


def predict(env, nets, points, D, nin, nout, single, free):
    with env.tf_graph() as sess:
        net = N.linear_net(env, D, shared=single)
        b = N.make(env, sess, net, normalize_input=nin, normalize_output=nout, n_nets=nets, n_iters=1, burn_in_steps=0, sample_steps=1, batch_size=1, seed=1)
        xt = env.array('xt', (points, D))
        try:
            b.predict(xt)
            env.fail('predicting before training raises ValueError')
        except ValueError:
            pass
        X, y = env.array('X', (2, D)), env.array('y', (2,))
        if not free:
            for d in range(D):
                env.assume(X[0][d] - X[1][d] > 0.5)
            env.assume(y[1] - y[0] > 0.5)
            b.train(X, y)
        else:
            b.train(np.array([[0.25] * D, [1.0] * D]), np.array([0.5, -1.0]))
            b.x_mean, b.x_std = env.array('x_mean', (D,)), env.array('x_std', (D,), 'pos')
            b.y_mean, b.y_std = env.real('y_mean'), env.real('y_std', 'pos')
        shapes = [(D, 2)] if single else [(D, 2), (2,)]
        ens = [[env.array('net%d_%d' % (k, j), s) for j, s in enumerate(shapes)] for k in range(nets)]
        b.samples.clear()
        for e in ens:
            # samplers hand out a bare array for a single parameter
            b.samples.append(e[0] if single else list(e))
        held = [np.array(v, copy=True) for e in ens for v in e]
        state = {k: getattr(b, k, None) for k in ('x_mean', 'x_std', 'y_mean', 'y_std')}
        keep = np.array(xt, copy=True)
        # reference
        if free:
            xm, xs = list(b.x_mean), list(b.x_std)
            ym, ys = b.y_mean, b.y_std
        else:
            xm, xs = zip(*[(m, env.sqrt(v)) for m, v in (N.stats(env, list(X[:, d])) for d in range(D))])
            ym, v = N.stats(env, list(y))
            ys = env.sqrt(v)
        rows = [[(r[d] - xm[d]) / xs[d] if nin else r[d] for d in range(D)] for r in keep]
        outs = [N.outputs(e, rows) for e in ens]
        if not nout:
            ym, ys = 0.0, 1.0
        f = [[o[0] * ys + ym for o in out] for out in outs]
        noise = [[env.exp(o[1]) * ys * ys for o in out] for out in outs]
        mean, var = b.predict(xt)
        wm = [sum(f[k][p] for k in range(nets)) / nets for p in range(points)]
        wv = [sum((f[k][p] - wm[p]) * (f[k][p] - wm[p]) for k in range(nets)) / nets for p in range(points)]
        arr = lambda v: np.array(v, dtype=object if env.symbolic else float)
        env.equal('mean', mean, arr(wm))
        env.equal('variance', var, arr(wv))
        fi, ni = b.predict(xt, return_individual_predictions=True)
        env.equal('individual means', fi, arr(f))
        env.equal('individual noise variances', ni, arr(noise))
        mean, var = b.predict(xt)
        env.equal('mean again', mean, arr(wm))
        env.equal('variance again', var, arr(wv))
        env.equal('test data unchanged', xt, keep)
        # other points of the same shape, in an array of their own and in the same one
        for how in ('other', 'same'):
            x2 = env.array('x2_' + how, (points, D))
            if how == 'same':
                xt[...] = x2
                q = xt
            else:
                q = np.array(x2, copy=True)
            rows2 = [[(r[d] - xm[d]) / xs[d] if nin else r[d] for d in range(D)] for r in x2]
            f2 = [[o[0] * ys + ym for o in N.outputs(e, rows2)] for e in ens]
            m2, _ = b.predict(q)
            env.equal('mean at other points (%s array)' % how, m2, arr([sum(f2[k][p] for k in range(nets)) / nets for p in range(points)]))
        for a, c in zip([v for e in ens for v in e], held):
            env.equal('networks unchanged', a, c)
        env.expect('same networks', len(b.samples) == nets and all((s is e[0] if single else s[0] is e[0]) for s, e in zip(b.samples, ens)))
        for k, v in state.items():
            if v is not None:
                env.equal('%s unchanged' % k, getattr(b, k), v)


def replaced(env, nin, nout, again):
    """networks are exchanged (or all collected anew by another training run) between predictions for the same points"""
    with env.tf_graph() as sess:
        net = N.linear_net(env, 1)
        b = N.make(env, sess, net, normalize_input=nin, normalize_output=nout, n_nets=2, n_iters=1, burn_in_steps=0, sample_steps=1, batch_size=1, seed=1)
        b.train(np.array([[0.25], [1.0]]), np.array([0.5, -1.0]))
        xt = env.array('xt', (2, 1))
        for k in range(2):
            if k and again:
                retrain(b, net)
            xm, xs = env.real('x_mean%d' % k), env.real('x_std%d' % k, 'pos')
            ym, ys = env.real('y_mean%d' % k), env.real('y_std%d' % k, 'pos')
            if nin:
                b.x_mean, b.x_std = np.array([xm]), np.array([xs])
            if nout:
                b.y_mean, b.y_std = ym, ys
            ens = [[env.array('net%d_%d_%d' % (k, i, j), s) for j, s in enumerate([(1, 2), (2,)])] for i in range(2)]
            b.samples.clear()
            b.samples.extend(list(e) for e in ens)
            rows = [[(r[0] - xm) / xs if nin else r[0]] for r in xt]
            f = [[o[0] * ys + ym if nout else o[0] for o in N.outputs(e, rows)] for e in ens]
            mean, _ = b.predict(xt)
            env.equal('mean of the networks collected now (%d)' % k, mean,
                      np.array([(f[0][p] + f[1][p]) / 2 for p in range(2)], dtype=object if env.symbolic else float))


def retrain(b, net, X=None, y=None):
    """train once more; only the variables of the new network are trainable"""
    tf.get_default_graph().clear_collection(tf.GraphKeys.TRAINABLE_VARIABLES)
    del net.made[:]
    b.train(np.array([[0.5], [2.0], [1.5]]) if X is None else X, np.array([1.5, 1.0, -1.0]) if y is None else y)


def units(env, nin, nout, individual):
    """after another training run its statistics are the ones that count"""
    with env.tf_graph() as sess:
        net = N.linear_net(env, 1)
        b = N.make(env, sess, net, normalize_input=nin, normalize_output=nout, n_nets=2, n_iters=1, burn_in_steps=0, sample_steps=1, batch_size=1, seed=1)
        xt = env.array('xt', (2, 1))
        for k in range(2):
            X, y = env.array('X%d' % k, (2, 1)), env.array('y%d' % k, (2,))
            env.assume(X[0][0] - X[1][0] > 0.5)
            env.assume(y[1] - y[0] > 0.5)
            b.train(X, y) if not k else retrain(b, net, X, y)
            xm, xv = N.stats(env, list(X[:, 0]))
            ym, yv = N.stats(env, list(y))
            xs, ys = env.sqrt(xv), env.sqrt(yv)
            ens = [[env.array('net%d_%d' % (k, j), s) for j, s in enumerate([(1, 2), (2,)])]]
            b.samples.clear()
            b.samples.extend(list(e) for e in ens)
            outs = N.outputs(ens[0], [[(r[0] - xm) / xs if nin else r[0]] for r in xt])
            arr = lambda v: np.array(v, dtype=object if env.symbolic else float)
            f = [o[0] * ys + ym if nout else o[0] for o in outs]
            if individual:
                fi, ni = b.predict(xt, return_individual_predictions=True)
                env.equal('run %d: individual means' % k, fi, arr([f]))
                env.equal('run %d: individual noise variances' % k, ni, arr([[env.exp(o[1]) * (ys * ys if nout else 1.0) for o in outs]]))
            else:
                env.equal('run %d: mean' % k, b.predict(xt)[0], arr(f))


def failed(env, how):
    """a training run that fails leaves the model untrained"""
    with env.tf_graph() as sess:
        net = N.linear_net(env, 1)
        kw = {}
        if how == 'batches':
            def broken(**k):
                raise RuntimeError('no data')
            kw = dict(batch_generator=broken)
        b = N.make(env, sess, net, n_nets=1, n_iters=2, burn_in_steps=0, sample_steps=1, batch_size=1, seed=1, **kw)
        xt = env.array('xt', (1, 1))
        env.equal('test point', xt, np.array(xt, copy=True))
        try:
            if how == 'labels':
                b.train(np.array([[0.25], [1.0]]), np.array([0.5, -1.0, 2.0]))
            else:
                b.train(np.array([[0.25], [1.0]]), np.array([0.5, -1.0]))
            env.fail('training on unusable data fails')
        except (AssertionError, RuntimeError, ValueError):
            pass
        try:
            b.predict(xt)
            env.fail('predicting without a completed training run raises ValueError')
        except ValueError:
            pass


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for nin in (False, True):
        for nout in (False, True):
            for single in (False, True):
                out.append(Job('predict', predict, dict(nets=2, points=2, D=1, nin=nin, nout=nout, single=single, free=True)))
            out.append(Job('predict', predict, dict(nets=2, points=1, D=1, nin=nin, nout=nout, single=False, free=False)))
            out.append(Job('predict', predict, dict(nets=3, points=1, D=2, nin=nin, nout=nout, single=False, free=True)))
            if th:
                out.append(Job('predict', predict, dict(nets=4, points=3, D=2, nin=nin, nout=nout, single=False, free=True), wall=1500))
                out.append(Job('predict', predict, dict(nets=3, points=2, D=2, nin=nin, nout=nout, single=False, free=False), wall=1500))
            if nin or nout:
                for ind in (False, True):
                    out.append(Job('units', units, dict(nin=nin, nout=nout, individual=ind)))
            for again in (False, True):
                out.append(Job('replaced', replaced, dict(nin=nin, nout=nout, again=again)))
    for how in ('labels', 'batches'):
        out.append(Job('failed', failed, dict(how=how)))
    for nets in (5, 64) + ((200,) if th else ()):
        out.append(Job('predict', predict, dict(nets=nets, points=1, D=1, nin=True, nout=True, single=False, free=True), wall=400 if not th else 1500))
    out.append(Job('predict', predict, dict(nets=1, points=130, D=1, nin=True, nout=True, single=False, free=True), wall=400))
    out.append(Job('predict', predict, dict(nets=2, points=33, D=1, nin=True, nout=True, single=False, free=True), wall=400))
    out.append(Job('predict', predict, dict(nets=1, points=3, D=1, nin=True, nout=True, single=False, free=True)))
    out.append(Job('predict', predict, dict(nets=1, points=1, D=2, nin=True, nout=True, single=True, free=True)))
    return out
