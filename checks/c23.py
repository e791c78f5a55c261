"""C23: only uninitialised variables are reported, and initialised ones are kept."""
import numpy as np

from sx.harness import Job, tf
from checks import common as C

PROPERTY = 'C23'
FUNCTIONS = ['pysgmcmc.tensor_utils.uninitialized_params', 'pysgmcmc.samplers.base_classes.MCMCSampler.__init__ (and the four sampler constructors)']
BOUNDS = 'up to 4 variables (5 thorough; 12 and 33 with all but one alike); every combination of initialised / uninitialised (trainable or not, in any collection or none; also asked repeatedly and in a second session) and every value, as symbolic booleans and reals'
ASSUMPTIONS = []


# every kind of variable there is
KINDS = [dict(trainable=False), dict(collections=[]), dict(collections=[tf.GraphKeys.LOCAL_VARIABLES], trainable=False), dict()]


def query(env, n, container='list', names=None):
    from pysgmcmc.tensor_utils import uninitialized_params
    flags = [env.bool('init_%d' % k) for k in range(n)]
    vals = [env.real('x_%d' % k) for k in range(n)]
    with env.tf_graph() as sess:
        vs = [tf.get_variable('v%d' % k if names is None else names[k], shape=(), dtype=tf.float64, initializer=tf.zeros_initializer(),
                              **(KINDS[k % len(KINDS)] if container == 'kinds' else {})) for k in range(n)]
        if container == 'backwards':
            # passed in another order than that of their creation
            vs.reverse()
        for v, f, x in zip(vs, flags, vals):
            env.set_init(sess, v, f, x)
        got = uninitialized_params(params=tuple(vs) if container == 'tuple' else list(vs), session=sess)
        got = list(got)
        # concrete on this path: identities of the reported variables
        idx = []
        for g in got:
            hit = [k for k, v in enumerate(vs) if v is g]
            if not env.expect('reports only given variables', len(hit) == 1):
                return
            idx.append(hit[0])
        env.expect('in the given order', idx == sorted(idx) and len(set(idx)) == len(idx))
        for k in range(n):
            env.check('exactly the uninitialised ones', env.not_(flags[k]) if k in idx else flags[k])
        for k, v in enumerate(vs):
            if k not in idx:
                env.equal('query does not change values', sess.run(v), vals[k])


def other_session(env):
    """initialisation is judged in the given session"""
    from pysgmcmc.tensor_utils import uninitialized_params
    fa, fb = env.bool('a'), env.bool('b')
    g = tf.Graph()
    with g.as_default():
        v = tf.get_variable('v', shape=(), dtype=tf.float64, initializer=tf.zeros_initializer())
        s1, s2 = env.session_class(graph=g), env.session_class(graph=g)
        env.set_init(s1, v, fa, env.real('x'))
        env.set_init(s2, v, fb, env.real('y'))
        with s1.as_default():
            got = uninitialized_params(params=[v], session=s2)
        env.check('given session decides', env.not_(fb) if len(got) else fb)


def again(env):
    """the same question again: after initialisation, and in a new session"""
    from pysgmcmc.tensor_utils import uninitialized_params
    f = [env.bool('a'), env.bool('b')]
    h = [env.bool('c'), env.bool('d')]
    with env.tf_graph() as sess:
        vs = [tf.get_variable('v%d' % k, shape=(), dtype=tf.float64, initializer=tf.zeros_initializer()) for k in range(2)]
        for v, flag in zip(vs, f):
            env.set_init(sess, v, flag, env.real('x'))

        def ask(label, s, flags):
            got = list(uninitialized_params(params=list(vs), session=s))
            for v, flag in zip(vs, flags):
                env.check(label, env.not_(flag) if any(v is w for w in got) else flag)
            return got
        first = ask('first', sess, f)
        ask('asked again', sess, f)
        if first:
            sess.run(tf.variables_initializer(first))
        ask('after initialisation', sess, [True, True])
        other = env.session_class(graph=tf.get_default_graph())
        for v, flag in zip(vs, h):
            env.set_init(other, v, flag, env.real('y'))
        ask('in a new session', other, h)
        ask('in the first session', sess, [True, True])


def build(env, kind, n, shape, names=None, dtype='float64'):
    dt = getattr(tf, dtype)
    flags = [env.bool('init_%d' % k) for k in range(n)]
    inits = [env.array('i%d' % k, shape) for k in range(n)]
    vals = [env.array('x%d' % k, shape) for k in range(n)]
    with env.tf_graph() as sess:
        ps = [tf.Variable(tf.constant(inits[k], dtype=dt), dtype=dt, name=names[k] if names else 'p%d' % k) for k in range(n)]
        # a bystander that is no target parameter
        other = tf.Variable(tf.constant(env.real('o'), dtype=tf.float64), dtype=tf.float64, name='other')
        of = env.bool('init_other')
        ov = env.real('ov')
        env.set_init(sess, other, of, ov)
        for p, f, x in zip(ps, flags, vals):
            env.set_init(sess, p, f, x)
        C.make(env, kind, sess, ps, C.quadratic(n), dtype=dt)
        for k, p in enumerate(ps):
            f = sess.run(tf.is_variable_initialized(p))
            env.check('target parameters are initialised', f)
            if not env.expect('initialised', bool(f)):
                return
            got = np.asarray(sess.run(p), dtype=object)
            want = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                want[ix] = env.where(flags[k], vals[k][ix], inits[k][ix])
            env.equal('initialised parameters keep their value, others get their initial value', got, want)
        if bool(of):
            env.equal('other variables are left alone', sess.run(other), ov)


def many(env, n):
    """many variables, one of them (any) initialised differently from the others"""
    from pysgmcmc.tensor_utils import uninitialized_params
    odd, rest = env.int('odd', 0, n - 1), env.bool('rest')
    with env.tf_graph() as sess:
        vs = [tf.get_variable('v%d' % k, shape=(), dtype=tf.float64, initializer=tf.zeros_initializer()) for k in range(n)]
        at, rest = int(odd), bool(rest)
        for k, v in enumerate(vs):
            env.set_init(sess, v, rest != (k == at), env.real('x_%d' % k))
        got = list(uninitialized_params(params=list(vs), session=sess))
        want = [v for k, v in enumerate(vs) if rest == (k == at)]
        env.expect('exactly the uninitialised ones', [id(v) for v in got] == [id(v) for v in want])
        env.equal('others keep their value', sess.run([v for v in vs if not any(v is w for w in want)]), [env.real('x_%d' % k) for k, v in enumerate(vs) if not any(v is w for w in want)])


def jobs(tier):
    out = [Job('many', many, dict(n=12 if tier != 'thorough' else 33))]
    for n in ((1, 2, 3, 4, 5) if tier == 'thorough' else (1, 2, 3, 4)):
        out.append(Job('query', query, dict(n=n)))
    out.append(Job('query', query, dict(n=2, container='tuple')))
    out.append(Job('query', query, dict(n=3, container='backwards')))
    out.append(Job('query', query, dict(n=4, container='kinds')))
    for names in (('c', 'a', 'b'), ('b', 'c', 'a'), ('w', 'w_1', 'w_2'), ('w_10', 'w_1', 'w'), ('s/w', 'w', 't/w')):
        out.append(Job('query', query, dict(n=3, names=names)))
    out.append(Job('session', other_session))
    out.append(Job('again', again))
    for kind in ('SGHMC', 'SGLD', 'Relativistic', 'SVGD'):
        for n in ((1, 2, 3) if tier == 'thorough' else (1, 2)):
            shape = () if kind == 'Relativistic' else (2,)
            if kind == 'SVGD' and n == 1:
                n = 3
            out.append(Job('build', build, dict(kind=kind, n=n, shape=shape)))
            if n == 2 or kind == 'SVGD':
                out.append(Job('build', build, dict(kind=kind, n=4, shape=shape, dtype='float32'), rel_tol=1e-4))
            if n == 2:
                out.append(Job('build', build, dict(kind=kind, n=n, shape=shape, names=('w_1', 'w'))))
                out.append(Job('build', build, dict(kind=kind, n=n, shape=shape, names=('t/w', 'w'))))
    return out
