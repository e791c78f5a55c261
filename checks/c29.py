import numpy as np

from checks import batches as B
from checks import bnn as N
from checks import c28
from checks import common as C
from sx import rng
from sx.harness import Job, tf

PROPERTY = 'C29'
FUNCTIONS = ['models.bayesian_neural_network.BayesianNeuralNetwork.__init__', 'BayesianNeuralNetwork.train', 'BayesianNeuralNetwork.negative_log_likelihood',
             'data_batches.generate_batches', 'models.base_model.zero_mean_unit_var_normalization']
BOUNDS = ('wiring: 1..3 datapoints with 1..2 features (symbolic values), batch sizes 1, 2 and 20, burn-in length and seed symbolic, all normalisation flags, all sampling methods '
          'the model supports, both batch generators, first 2 batches and the cost on them; two successive training runs on datasets of different sizes; two models with different settings in one process; construction: every integer and every float (symbolic) per hyperparameter, listed other types')
ASSUMPTIONS = ['real arithmetic instead of floating point', 'numpy.random is external (sx/rng.py)', 'linear two-output network']
STUBS = ['Sampler.get_sampler records its arguments and returns an empty chain', 'numpy.random (sx/rng.py)']


def supported():
    from pysgmcmc.sampling import Sampler
    return [k for k in C.KINDS if Sampler.is_supported(C.method(k))]


def wiring(env, kind, n, D, bs, nin, nout, shuffled, dtype='float64', const=False):
    from pysgmcmc.sampling import Sampler
    dt = getattr(tf, dtype)
    seed = env.int('seed', 0, 2 ** 32 - 1)
    burn_in = env.int('burn_in_steps', 0)
    extra = {'mdecay': env.real('mdecay')} if kind == 'SGHMC' else {'A': env.real('A')} if kind == 'SGLD' else {}
    sched = C.Schedule([0.5], 0.5)
    X, y = env.array('X', (n, D)), env.array('y', (n,))
    if const:
        X[:, 0] = X[0, 0]
    elif n > 1:
        for d in range(D):
            env.assume(X[1][d] - X[0][d] > 0.5)
        env.assume(y[0] - y[1] > 0.5)
    keep = (np.array(X, copy=True), np.array(y, copy=True))
    calls = []

    def get_sampler(method, *a, **k):
        calls.append((method, a, dict(k)))
        return iter(())
    saved = Sampler.__dict__['get_sampler']
    with env.tf_graph() as sess, rng.world(env):
        net = N.linear_net(env, D)
        b = N.make(env, sess, net, sampling_method=C.method(kind), batch_generator=B.generator(shuffled), batch_size=bs, stepsize_schedule=sched,
                   burn_in_steps=burn_in, normalize_input=nin, normalize_output=nout, seed=seed, dtype=dt, n_iters=3, n_nets=1, sample_steps=1, **extra)
        type.__setattr__(Sampler, 'get_sampler', staticmethod(get_sampler))
        try:
            b.train(X, y)
        finally:
            type.__setattr__(Sampler, 'get_sampler', saved)
        if not env.expect('one sampler is built', len(calls) == 1 and not calls[0][1]):
            return
        method, _, kw = calls[0]
        env.expect('configured sampling method', method is C.method(kind))
        ps = kw.get('params', kw.get('particles'))
        env.expect('all network parameters', ps is not None and [id(p) for p in ps] == [id(p) for p in net.made])
        env.expect('session', kw.get('session') is sess)
        env.expect('stepsize schedule', kw.get('stepsize_schedule') is sched)
        env.expect('seed', kw.get('seed') is seed or (not env.symbolic and kw.get('seed') == seed))
        env.expect('dtype', kw.get('dtype') == dt)
        for k, v in extra.items():
            env.expect('extra argument ' + k, kw.get(k) is v)
        if issubclass(C.sampler_class(kind), base().BurnInMCMCSampler):
            env.equal('gradient scale is the dataset size', kw.get('scale_grad', -1), n)
            env.equal('burn-in length', kw.get('burn_in_steps', -1), burn_in)
        else:
            env.expect('no burn-in arguments', 'scale_grad' not in kw and 'burn_in_steps' not in kw)
        known = set(extra) | {'params', 'particles', 'session', 'stepsize_schedule', 'seed', 'dtype', 'scale_grad', 'burn_in_steps', 'cost_fun', 'batch_generator'}
        env.expect('no other arguments', set(kw) <= known)
        # the data the batches come from
        cols = [N.standardised(env, list(keep[0][:, d])) if nin else list(keep[0][:, d]) for d in range(D)]
        labels = N.standardised(env, list(keep[1])) if nout else list(keep[1])
        gen, cost = kw['batch_generator'], kw['cost_fun']
        nll = cost(ps)
        ws = [env.array('w%d' % k, p.shape.as_list()) for k, p in enumerate(net.made)]
        for p, w in zip(net.made, ws):
            env.set_var(sess, p, w)
        m = min(bs, n)
        for t in range(2 if n < 3 else 1):
            batch = next(gen)
            if not env.expect('batch %d feeds the model\'s placeholders' % t, set(batch) == {b.X_Minibatch, b.Y_Minibatch}):
                return
            bx, by = np.asarray(batch[b.X_Minibatch]), np.asarray(batch[b.Y_Minibatch])
            if not env.expect('batch %d has the configured size' % t, bx.shape == (m, D) and by.shape == (m, 1)):
                return
            # the data rows of the batch, by any injective assignment
            want = assignment(env, bx, by, cols, labels, m, n)
            env.check('batch %d: datapoints of the (standardised) data with their labels' % t, want)
            got = sess.run(nll, feed_dict=batch)
            outs = N.outputs(ws, bx.astype(object))
            ll = 0.0
            for i in range(m):
                d = by[i][0] - outs[i][0]
                ll = ll - d * d / (2 * env.exp(outs[i][1])) - 0.5 * outs[i][1]
            total = ll / m + c28.log_var_prior(env, [o[1] for o in outs], c28.rnd(1e-6, dtype), c28.rnd(0.01, dtype)) / n + c28.weight_prior(env, ws, 1.0) / n
            env.equal('cost on batch %d' % t, got, 0 - total)
        env.equal('data unchanged', X, keep[0])
        env.equal('labels unchanged', y, keep[1])


def again(env, kind, n, nin, nout):
    """a second training run uses the new dataset, and the hyperparameters set by then"""
    from pysgmcmc.sampling import Sampler
    burn_in = [env.int('burn_in%d' % k, 0) for k in range(2)]
    seed = [env.int('seed%d' % k, 0, 2 ** 32 - 1) for k in range(2)]
    sched = [C.Schedule([0.5], 0.5) for k in range(2)]
    extra = {'mdecay': env.real('mdecay')} if kind == 'SGHMC' else {'A': env.real('A')}
    calls = []

    def get_sampler(method, *a, **k):
        calls.append((method, a, dict(k)))
        return iter(())
    saved = Sampler.__dict__['get_sampler']
    with env.tf_graph() as sess, rng.world(env, collide=True):
        net = N.linear_net(env, 1)
        b = N.make(env, sess, net, sampling_method=C.method(kind), batch_size=2, stepsize_schedule=sched[0], burn_in_steps=burn_in[0], normalize_input=nin,
                   normalize_output=nout, seed=seed[0], n_iters=3, n_nets=1, sample_steps=1, **extra)
        type.__setattr__(Sampler, 'get_sampler', staticmethod(get_sampler))
        try:
            for k in range(2):
                X, y = env.array('X%d' % k, (n[k], 1)), env.array('y%d' % k, (n[k],))
                if n[k] > 1:
                    env.assume(X[1][0] - X[0][0] > 0.5)
                    env.assume(y[0] - y[1] > 0.5)
                if k:
                    tf.get_default_graph().clear_collection(tf.GraphKeys.TRAINABLE_VARIABLES)
                    del net.made[:]
                    b.burn_in_steps, b.seed, b.stepsize_schedule = burn_in[1], seed[1], sched[1]
                b.train(X, y)
                if not env.expect('one sampler per run', len(calls) == k + 1 and not calls[k][1]):
                    return
                kw = calls[k][2]
                env.expect('run %d: the parameters of its network' % k, [id(p) for p in kw['params']] == [id(p) for p in net.made])
                env.equal('run %d: gradient scale is the dataset size' % k, kw.get('scale_grad', -1), n[k])
                env.equal('run %d: burn-in length' % k, kw.get('burn_in_steps', -1), burn_in[k])
                env.equal('run %d: seed' % k, kw.get('seed', -1), seed[k])
                env.expect('run %d: stepsize schedule' % k, kw.get('stepsize_schedule') is sched[k])
                env.expect('run %d: session and dtype' % k, kw.get('session') is sess and kw.get('dtype') == tf.float64)
                for name, v in extra.items():
                    env.expect('run %d: extra argument' % k, kw.get(name) is v)
                col = N.standardised(env, list(X[:, 0])) if nin else list(X[:, 0])
                labels = N.standardised(env, list(y)) if nout else list(y)
                batch = next(kw['batch_generator'])
                if not env.expect('run %d: batches for the placeholders of its cost' % k, set(batch) == {b.X_Minibatch, b.Y_Minibatch}):
                    return
                bx, by = np.asarray(batch[b.X_Minibatch]), np.asarray(batch[b.Y_Minibatch])
                m = min(2, n[k])
                if not env.expect('run %d: batch size' % k, bx.shape == (m, 1) and by.shape == (m, 1)):
                    return
                env.check('run %d: datapoints of its dataset' % k, assignment(env, bx, by, [col], labels, m, n[k]))
                nll = kw['cost_fun'](kw['params'])
                ws = [env.array('w%d_%d' % (k, j), p.shape.as_list()) for j, p in enumerate(net.made)]
                for p, w in zip(net.made, ws):
                    env.set_var(sess, p, w)
                ll = 0.0
                outs = N.outputs(ws, bx.astype(object))
                for i in range(m):
                    d = by[i][0] - outs[i][0]
                    ll = ll - d * d / (2 * env.exp(outs[i][1])) - 0.5 * outs[i][1]
                total = ll / m + c28.log_var_prior(env, [o[1] for o in outs], c28.rnd(1e-6, 'float64'), c28.rnd(0.01, 'float64')) / n[k] + c28.weight_prior(env, ws, 1.0) / n[k]
                env.equal('run %d: cost' % k, sess.run(nll, feed_dict=batch), 0 - total)
        finally:
            type.__setattr__(Sampler, 'get_sampler', saved)


def big(env, kind, n):
    """a large dataset"""
    from pysgmcmc.sampling import Sampler
    calls = []

    def get_sampler(method, *a, **k):
        calls.append(dict(k))
        return iter(())
    saved = Sampler.__dict__['get_sampler']
    with env.tf_graph() as sess, rng.world(env):
        net = N.linear_net(env, 1)
        bs = env.int('batch_size', 1, n)
        b = N.make(env, sess, net, sampling_method=C.method(kind), batch_size=bs, stepsize_schedule=C.Schedule([0.5], 0.5), normalize_input=False, normalize_output=False,
                   burn_in_steps=env.int('burn_in', 0), seed=1, n_iters=1, n_nets=1, sample_steps=1)
        type.__setattr__(Sampler, 'get_sampler', staticmethod(get_sampler))
        try:
            X = np.arange(float(n)).reshape(n, 1)
            b.train(X, 2 * X[:, 0])
        finally:
            type.__setattr__(Sampler, 'get_sampler', saved)
        env.equal('gradient scale is the dataset size', calls[0].get('scale_grad', -1), n)
        env.equal('burn-in length', calls[0].get('burn_in_steps', -1), env.int('burn_in', 0))


def separate(env, order):
    """two models in one process: neither sees the other's settings"""
    from pysgmcmc.sampling import Sampler
    calls = []

    def get_sampler(method, *a, **k):
        calls.append((method, a, dict(k)))
        return iter(())
    opts = {'SGHMC': dict(mdecay=env.real('mdecay')), 'SGLD': dict(A=env.real('A')), 'plain': {}}
    models, nets = [], []
    saved = Sampler.__dict__['get_sampler']
    with env.tf_graph() as sess, rng.world(env, collide=True):
        for k, kind in enumerate(order):
            nets.append(N.linear_net(env, 1))
            models.append(N.make(env, sess, nets[k], sampling_method=C.method('SGHMC' if kind == 'plain' else kind), batch_size=1 + k, stepsize_schedule=C.Schedule([0.5], 0.5),
                                 burn_in_steps=7 + k, normalize_input=False, normalize_output=False, seed=11 + k, n_iters=3 + k, n_nets=1 + k, sample_steps=1 + k, **opts[kind]))
        type.__setattr__(Sampler, 'get_sampler', staticmethod(get_sampler))
        try:
            for k in reversed(range(len(order))):
                tf.get_default_graph().clear_collection(tf.GraphKeys.TRAINABLE_VARIABLES)
                n = 2 + k
                X, y = env.array('X%d' % k, (n, 1)), env.array('y%d' % k, (n,))
                models[k].train(X, y)
                method, a, kw = calls[-1]
                kind = order[k]
                env.expect('model %d: its sampling method' % k, method is C.method('SGHMC' if kind == 'plain' else kind))
                for name in ('mdecay', 'A'):
                    env.expect('model %d: %s' % (k, name), (kw[name] is opts[kind][name]) if name in opts[kind] else name not in kw)
                env.equal('model %d: gradient scale' % k, kw.get('scale_grad', -1), n)
                env.equal('model %d: burn-in length and seed' % k, [kw.get('burn_in_steps', -1), kw.get('seed', -1)], [7 + k, 11 + k])
                env.expect('model %d: parameters' % k, [id(p) for p in kw['params']] == [id(p) for p in nets[k].made])
                batch = next(kw['batch_generator'])
                bx, by = np.asarray(batch[models[k].X_Minibatch]), np.asarray(batch[models[k].Y_Minibatch])
                if env.expect('model %d: batch size' % k, bx.shape == (1 + k, 1)):
                    env.check('model %d: its datapoints' % k, assignment(env, bx, by, [list(X[:, 0])], list(y), 1 + k, n))
        finally:
            type.__setattr__(Sampler, 'get_sampler', saved)
        for k, b in enumerate(models):
            env.expect('model %d: its settings' % k, (b.n_nets, b.n_iters, b.sample_steps, b.batch_size, b.burn_in_steps, b.seed) == (1 + k, 3 + k, 1 + k, 1 + k, 7 + k, 11 + k))
            env.expect('model %d: its networks' % k, b.samples is not models[1 - k].samples and b.samples.maxlen == 1 + k)


def base():
    from pysgmcmc.samplers import base_classes
    return base_classes


def close(env, a, b):
    if env.symbolic:
        return a == b
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def assignment(env, bx, by, cols, labels, m, n):
    import itertools
    alts = []
    for rows in itertools.permutations(range(n), m):
        alts.append(env.all(*[env.all(close(env, by[i][0], labels[r]), *[close(env, bx[i][d], cols[d][r]) for d in range(len(cols))]) for i, r in enumerate(rows)]))
    return env.any(*alts)


PARAMS = dict(n_nets=1, n_iters=1, burn_in_steps=0, sample_steps=1, batch_size=1)


def construct(env, name, value):
    """value: 'int' / 'real' symbolic, or a concrete one"""
    v = env.int('v') if value == 'int' else env.real('v') if value == 'real' else value
    others = {k: env.int(k, lo) for k, lo in PARAMS.items() if k != name}
    env.labels.append(name)
    env.check('reached', True)
    try:
        b = N.make(env, None, lambda **k: None, **dict(others, **{name: v}))
        ok = True
    except (AssertionError, ValueError, TypeError) as e:
        env.note(repr(e))
        ok = False
    valid = (v >= PARAMS[name]) if value == 'int' else False
    if ok is True:
        env.check('%s accepted only if valid' % name, valid)
        for k, w in dict(others, **{name: v}).items():
            env.expect('%s kept' % k, getattr(b, k) is w or getattr(b, k) == w)
    else:
        env.check('%s rejected only if invalid' % name, env.not_(valid))


def construct_other(env):
    r = env.real('r')
    env.check('reached', r == r)
    from pysgmcmc.sampling import Sampler

    def rejected(**kw):
        try:
            N.make(env, None, kw.pop('get_net', lambda **k: None), **kw)
        except (AssertionError, ValueError):
            return True
        return False
    for bad in (None, 'x', 3, [], object()):
        env.expect('get_net that is not callable is rejected', rejected(get_net=bad))
        env.expect('batch generator that is not callable is rejected', rejected(batch_generator=bad))
        env.expect('stepsize schedule of another type is rejected', rejected(stepsize_schedule=bad))
        env.expect('dtype of another type is rejected', rejected(dtype=bad))
        env.expect('unknown sampling method is rejected', rejected(sampling_method=bad))
    for kind in supported():
        env.expect('supported method is accepted', not rejected(sampling_method=C.method(kind)))
    env.expect('defaults are accepted', not rejected())
    env.expect('dtype float32 is accepted', not rejected(dtype=tf.float32))
    env.expect('burn-in samplers are supported', {'SGHMC', 'SGLD'} <= set(supported()))


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in supported():
        if kind == 'SVGD':
            continue        # takes particles; the model offers single-chain samplers
        for nin in (False, True):
            for nout in (False, True):
                out.append(Job('wiring', wiring, dict(kind=kind, n=2, D=1, bs=2, nin=nin, nout=nout, shuffled=False), max_paths=500))
        out.append(Job('wiring', wiring, dict(kind=kind, n=2, D=2, bs=1, nin=True, nout=True, shuffled=False), max_paths=500))
        out.append(Job('wiring', wiring, dict(kind=kind, n=2, D=1, bs=20, nin=True, nout=False, shuffled=True), max_paths=500))
        out.append(Job('wiring', wiring, dict(kind=kind, n=1, D=1, bs=20, nin=False, nout=False, shuffled=False, dtype='float32'), max_paths=500, rel_tol=1e-3))
        out.append(Job('wiring', wiring, dict(kind=kind, n=2, D=2, bs=20, nin=True, nout=True, shuffled=False, const=True), max_paths=500))
        out.append(Job('wiring', wiring, dict(kind=kind, n=3, D=1, bs=2, nin=False, nout=False, shuffled=False), max_paths=500, wall=300 if not th else 2000))
        if th:
            out.append(Job('wiring', wiring, dict(kind=kind, n=3, D=2, bs=2, nin=True, nout=True, shuffled=True), max_paths=500, wall=2000))
        if issubclass(C.sampler_class(kind), base().BurnInMCMCSampler):
            for n in ((2, 3), (3, 1)):
                out.append(Job('again', again, dict(kind=kind, n=n, nin=False, nout=False), max_paths=500))
            out.append(Job('again', again, dict(kind=kind, n=(1, 2), nin=True, nout=True), max_paths=500))
    for n in (700, 30000):
        for kind in supported():
            if kind != 'SVGD':
                out.append(Job('big', big, dict(kind=kind, n=n), max_paths=500))
    for order in (('SGHMC', 'SGLD'), ('SGLD', 'SGHMC'), ('SGHMC', 'plain'), ('plain', 'SGHMC')):
        out.append(Job('separate', separate, dict(order=order), max_paths=500))
    for name in PARAMS:
        for v in ('int', 'real', None, '3', 1.5, [1]):
            out.append(Job('construct', construct, dict(name=name, value=v), max_paths=500))
    out.append(Job('others', construct_other))
    return out
