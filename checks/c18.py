"""C18: vectorize and unvectorize are mutually inverse."""
import numpy as np

from sx.harness import Job, tf

PROPERTY = 'C18'
FUNCTIONS = ['pysgmcmc.tensor_utils.vectorize', 'pysgmcmc.tensor_utils.unvectorize']
BOUNDS = ('shapes of rank 0..6 with up to 132 elements, dimensions of size 1 and 0 included; '
          'arbitrary real (float64, float32), integer and boolean element values; variables initialised or not')
ASSUMPTIONS = ['shapes are static, as in the samplers']
DTS = {'float64': tf.float64, 'float32': tf.float32, 'int32': tf.int32, 'bool': tf.bool, 'int64': tf.int64}


def values(env, name, shape, dtype):
    if dtype.startswith('float'):
        return env.array(name, shape)
    n = int(np.prod(shape, dtype=int))
    vals = [env.int('%s_%d' % (name, k), -100, 100) if dtype.startswith('int') else env.bool('%s_%d' % (name, k))
            for k in range(n)]
    out = np.empty(n, dtype=object)
    for k, v in enumerate(vals):
        out[k] = v
    out = out.reshape(shape)
    return out if env.symbolic else out.astype(DTS[dtype].as_numpy_dtype)


def tensor(env, shape, dtype, kind='placeholder'):
    from pysgmcmc.tensor_utils import vectorize, unvectorize
    x = values(env, 'x', shape, dtype)
    dt = DTS[dtype]
    n = int(np.prod(shape, dtype=int))
    with env.tf_graph() as sess:
        p = tf.placeholder(dt, shape=shape)
        t = p if kind == 'placeholder' else tf.identity(p)
        v = vectorize(t)
        env.expect('a tensor', isinstance(v, tf.Tensor))
        env.expect('dtype kept', v.dtype == dt)
        env.expect('static shape (n, 1)', v.shape.as_list() == [n, 1])
        u = unvectorize(v, original_shape=p.shape)
        env.expect('original shape', u.shape.as_list() == list(shape))
        env.expect('original dtype', u.dtype == dt)
        gv, gu = sess.run([v, u], {p: x})
        env.equal('row-major elements', gv, x.reshape(n, 1))
        env.equal('unvectorize undoes vectorize', gu, x)
        # the other direction: any (n, 1) column
        q = tf.placeholder(dt, shape=(n, 1))
        w = vectorize(unvectorize(q, original_shape=tf.TensorShape(shape)))
        gw = sess.run(w, {q: x.reshape(n, 1)})
        env.equal('vectorize undoes unvectorize', gw, x.reshape(n, 1))


def variable(env, shape, dtype, initialised):
    from pysgmcmc.tensor_utils import vectorize, unvectorize
    x, y, z = [values(env, k, shape, dtype) for k in 'xyz']
    dt = DTS[dtype]
    n = int(np.prod(shape, dtype=int))
    with env.tf_graph() as sess:
        var = tf.Variable(tf.constant(x, dtype=dt), dtype=dt)
        want = x
        if initialised:
            sess.run(var.initializer)
            env.set_var(sess, var, y)
            want = y
        v = vectorize(var)
        env.expect('a variable', isinstance(v, tf.Variable))
        env.expect('a separate variable', v is not var)
        env.expect('dtype kept', v.dtype.base_dtype == dt)
        env.expect('static shape (n, 1)', v.shape.as_list() == [n, 1])
        sess.run(v.initializer)
        env.equal("initialised with the variable's value", sess.run(v), want.reshape(n, 1))
        u = unvectorize(v, original_shape=var.shape)
        env.equal('unvectorize undoes vectorize', sess.run(u), want)
        # separate storage, in both directions
        if not initialised:
            sess.run(var.initializer)
        env.set_var(sess, var, z)
        env.equal('copy does not follow the original', sess.run(v), want.reshape(n, 1))
        env.set_var(sess, v, y.reshape(n, 1))
        env.equal('original does not follow the copy', sess.run(var), z)


class _Other(object):
    dtype = tf.float32
    shape = tf.TensorShape([2])


def rejects(env):
    from pysgmcmc.tensor_utils import vectorize
    r = env.real('r')
    with env.tf_graph(session=False):
        for bad in ([1.0], [[1.0, 2.0], [3.0, 4.0]], 1.0, r, 3, None, 'x', np.zeros((2, 2)), np.float64(1.0), (1.0,), _Other(),
                    [tf.constant(1.0)], {}, np.array(2.0)):
            try:
                vectorize(bad)
            except ValueError:
                continue
            env.fail('other input is rejected with ValueError', repr(type(bad)))
    env.check('reached', r == r)


def jobs(tier):
    shapes = [(), (1,), (3,), (1, 1), (2, 3), (3, 1), (1, 4), (2, 1, 3), (2, 2, 2), (2, 1, 2, 1), (0,), (2, 0), (12,), (130,), (11, 12), (2, 1, 2, 1, 2, 1), (1, 70), (65, 1)]
    if tier == 'thorough':
        shapes += [(24,), (4, 6), (2, 3, 4), (2, 3, 2, 2), (1, 1, 1, 1), (5, 3), (3, 0, 2), (2, 2, 1, 2, 1)]
    out = []
    for s in shapes:
        out.append(Job('tensor', tensor, dict(shape=s, dtype='float64')))
        if 0 not in s:
            for i in (False, True):
                out.append(Job('variable', variable, dict(shape=s, dtype='float64', initialised=i)))
    for d in ('float32', 'int32', 'bool', 'int64'):
        for s in [(), (2, 2), (3,)]:
            out.append(Job('tensor', tensor, dict(shape=s, dtype=d, kind='op')))
            if d != 'bool':
                for i in (False, True):
                    out.append(Job('variable', variable, dict(shape=s, dtype=d, initialised=i)))
    out.append(Job('rejects', rejects))
    return out
