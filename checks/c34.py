import json

import numpy as np

from sx import sym as S
from sx.harness import Job

PROPERTY = 'C34'
FUNCTIONS = ['models.base_model.BaseModel.update', 'models.base_model.BaseModel.get_incumbent', 'models.base_model.BaseModel.get_json_data',
             'models.base_model.BaseModel._check_shapes_train']
BOUNDS = ('models of 1..5 datapoints with 1..2 features, up to 3 updates of 1..2 points each (and up to 120 points); observations that differ in the 9th digit; every data value (symbolic), ties included')
ASSUMPTIONS = ['models keep the data passed to train() in X and y, as BaseModel documents']


def model():
    from pysgmcmc.models.base_model import BaseModel

    class Model(BaseModel):
        runs = 0

        @BaseModel._check_shapes_train
        def train(self, X, y):
            self.X, self.y = X, y
            self.runs += 1

        def predict(self, X_test):
            return None
    return Model()


def update(env, sizes, D):
    m = model()
    xs = [env.array('x%d' % k, (n, D)) for k, n in enumerate(sizes)]
    ys = [env.array('y%d' % k, (n,)) for k, n in enumerate(sizes)]
    keep = [(np.array(a, copy=True), np.array(b, copy=True)) for a, b in zip(xs, ys)]
    m.train(xs[0], ys[0])
    for k in range(1, len(sizes)):
        m.update(xs[k], ys[k])
        env.expect('update %d retrains once' % k, m.runs == k + 1)
        env.equal('data after update %d' % k, m.X, np.concatenate([a for a, _ in keep[:k + 1]]))
        env.equal('targets after update %d' % k, m.y, np.concatenate([b for _, b in keep[:k + 1]]))
    for k in range(len(sizes)):
        env.equal('passed data %d unchanged' % k, xs[k], keep[k][0])
        env.equal('passed targets %d unchanged' % k, ys[k], keep[k][1])
    js = m.get_json_data()
    env.expect('JSON keys', {'X', 'y'} <= set(js))
    env.equal('exported data', np.array(js['X'], dtype=object if env.symbolic else float), np.concatenate([a for a, _ in keep]))
    env.equal('exported targets', np.array(js['y'], dtype=object if env.symbolic else float), np.concatenate([b for _, b in keep]))
    if not env.symbolic:
        env.expect('serialisable', json.loads(json.dumps(js))['y'] == list(m.y))
    env.equal('data kept by the export', m.X, np.concatenate([a for a, _ in keep]))


def incumbent(env, n, D):
    m = model()
    env.expect('untrained model exports no data', (lambda j: j['X'] is None and j['y'] is None)(m.get_json_data()))
    x, y = env.array('x', (n, D)), env.array('y', (n,))
    m.train(x, y)
    p, v = m.get_incumbent()
    p, v = np.asarray(p, dtype=object), np.asarray(v, dtype=object)
    if not env.expect('one point and one value', p.shape == (D,) and v.size == 1):
        return
    v = v.reshape(-1)[0]
    env.check('no smaller observation', env.all(*[v <= w for w in y]))
    env.check('an observed pair', env.any(*[env.all(v == y[k], *[p[j] == x[k][j] for j in range(D)]) for k in range(n)]))


def close(env, n):
    """observations that differ by less than single precision resolves"""
    m = model()
    x, d = env.array('x', (n, 1)), env.array('d', (n,))
    y = np.empty((n,), dtype=object if env.symbolic else float)
    for k in range(n):
        env.assume(env.all(d[k] > -1000, d[k] < 1000))
        y[k] = 1 + d[k] * 2.0 ** -36
    m.train(x, y)
    p, v = m.get_incumbent()
    v = np.asarray(v, dtype=object).reshape(-1)[0]
    env.check('no smaller observation', env.all(*[v <= w for w in y]))
    env.check('an observed pair', env.any(*[env.all(v == y[k], np.asarray(p, dtype=object).reshape(-1)[0] == x[k][0]) for k in range(n)]))


def shapes(env):
    """data and targets that do not belong together are not trained on"""
    r = env.real('r')
    for sx_, sy in (((2, 1), (3,)), ((2,), (2,)), ((2, 1), (2, 1)), ((2, 1, 1), (2,)), ((3, 1), (2,))):
        m = model()
        try:
            m.train(np.zeros(sx_), np.zeros(sy))
            env.fail('shapes %s and %s are rejected' % (sx_, sy))
        except AssertionError:
            env.expect('nothing trained', m.runs == 0)
    m = model()
    m.train(np.zeros((2, 1)), np.zeros(2))
    env.expect('matching shapes are accepted', m.runs == 1)
    env.check('reached', r == r)


def jobs(tier):
    out = []
    for sizes in ((1, 1), (2, 1), (1, 2), (3, 2), (1, 1, 1), (2, 1, 2), (2, 1, 1, 1)):
        for D in (1, 2):
            # data are copied, not computed with
            out.append(Job('update', update, dict(sizes=sizes, D=D), rel_tol=1e-15))
    for n in (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7):
        for D in (1, 2):
            out.append(Job('incumbent', incumbent, dict(n=n, D=D), max_paths=5000))
    for sizes in ((60, 1), (40, 70), (1, 1, 120)):
        out.append(Job('update', update, dict(sizes=sizes, D=1), rel_tol=1e-15))
    for n in (2, 3):
        out.append(Job('close', close, dict(n=n)))
    out.append(Job('shapes', shapes))
    return out
