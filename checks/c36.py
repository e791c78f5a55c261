"""C36: sampler constructors accept exactly the documented arguments."""
import functools

import numpy as np

from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C36'
FUNCTIONS = ['MCMCSampler.__init__, BurnInMCMCSampler.__init__', 'SGHMCSampler, SGLDSampler, RelativisticSGHMCSampler, SVGDSampler .__init__',
             'StepsizeSchedule/ConstantStepsizeSchedule', 'MCMCSampler.__next__ (fed values)']
BOUNDS = ('all four samplers; seed and burn-in length: every integer (seeds 0 <= s < 2**31; symbolic) and every float (symbolic), jointly, and listed values of other types; '
          'session, dtype, cost function, batch source, stepsize schedule: listed objects of right and wrong kind, each incomplete schedule and batch source; '
          'accepted configurations make 2 steps')
ASSUMPTIONS = ['bool and numpy integers are not judged as seed or burn-in length', 'negative seeds and seeds of 2**31 and above are not judged',
               'any exception of the constructor counts as rejection']


class Iterator(object):
    def __iter__(self):
        return self

    def __next__(self):
        return {}


class Partial(object):
    """a schedule that lacks one part of the protocol"""

    def __init__(self, without):
        for name in ('initial_value', 'update'):
            if name != without:
                setattr(self, name, 0.01 if name == 'initial_value' else (lambda *a, **k: None))


class PartialNext(Partial):
    def __next__(self):
        return 0.01


class Callable(object):
    """a cost function that is an object"""

    def __init__(self, fun):
        self.fun = fun

    def __call__(self, *args):
        return self.fun(*args)


def build(env, kind, **kw):
    """(accepted, sampler or exception) in a graph of its own"""
    with env.tf_graph() as sess:
        if kw.pop('default', False):
            with sess.as_default():
                return build_in(env, kind, kw.pop('sess', sess), **kw)
        return build_in(env, kind, kw.pop('sess', sess), **kw)


def build_in(env, kind, sess, **kw):
    shapes = ((1,), (1,)) if kind == 'SVGD' else ((), ())
    params = [tf.Variable(tf.constant(np.full(s, 0.5 + 0.25 * k), dtype=kw.get('dtype') if isinstance(kw.get('dtype'), tf.DType) else tf.float64))
              for k, s in enumerate(shapes)]
    args = dict(seed=None, burn_in=1, dtype=tf.float64, cost=C.quadratic(2), gen=None, sched=None, sess=sess, momenta=[0.25, 0.5])
    args.update(kw)
    extra = args.pop('extra', {})
    try:
        s = C.make(env, kind, args.pop('sess'), params, args.pop('cost'), **dict(args, **extra))
        return True, s
    except (AssertionError, ValueError, TypeError, AttributeError) as e:
        env.note(repr(e)[:200])
        return False, e


def iff(env, p, q):
    return env.any(env.all(p, q), env.all(env.not_(p), env.not_(q)))


def number(env, kind, which, value):
    """seed / burn_in: 'int', 'real' symbolic or a concrete object"""
    v = env.int('v', 0, 2 ** 31 - 1) if value == 'int' else env.real('v') if value == 'real' else value
    env.labels.append(which)
    env.check('reached', True)
    other = {}
    if kind in ('SGHMC', 'SGLD'):
        other = dict(burn_in=env.int('b', 0, 10 ** 6)) if which == 'seed' else dict(seed=env.int('s', 0, 2 ** 31 - 1))
    ok, s = build(env, kind, **dict(other, **{which: v}))
    valid = value == 'int' or (value is None and which == 'seed')
    env.check('%s accepted exactly if valid' % which, ok == valid)
    if ok and which == 'burn_in':
        env.check('the burn-in phase has the given length', iff(env, s.is_burning_in, v > 0))


def objects(env, kind):
    r = env.real('r')
    env.check('reached', r == r)

    def rejected(**kw):
        return not build(env, kind, **kw)[0]
    for bad in (None, 'session', 3, object(), tf.Graph()):
        env.expect('a session of another type is rejected', rejected(sess=bad))
    env.expect('no session is rejected, whatever the default session is', rejected(sess=None, default=True))
    for bad in (None, 'float64', float, np.float64, np.dtype('float64'), 3):
        env.expect('a dtype of another type is rejected', rejected(dtype=bad))
    for bad in (None, 'cost', 3, [], object()):
        env.expect('a cost that is not callable is rejected', rejected(cost=bad))
    for bad in ([], {}, [{}], 'batches', 3, object(), range(3)):
        env.expect('a batch source that is no iterator is rejected', rejected(gen=bad))
    for bad in (None, 0.01, object(), PartialNext('initial_value'), PartialNext('update'), Partial(None), iter([0.01]), [0.01]):
        if bad is not None:
            env.expect('an incomplete stepsize schedule is rejected', rejected(sched=bad))
    if kind == 'SVGD':
        for name in ('alpha', 'fudge_factor'):
            for bad in (None, '0.9', [0.9], object()):
                env.expect('%s of another type is rejected' % name, rejected(extra={name: bad}))
            for good in (0.5, 1, 0, 1.5, 3, -0.25, 1e-8, 100.0):
                env.expect('a number is accepted as %s' % name, not rejected(extra={name: good}))
    elif kind == 'Relativistic':
        for name in ('mass', 'speed_of_light'):
            for bad in ('1', [1.0]):
                env.expect('%s of another type is rejected' % name, rejected(extra={name: bad}))
            env.expect('a float is accepted as %s' % name, not rejected(extra={name: 0.5}))


def accepted(env, kind, what):
    """right arguments of every documented kind: accepted, and the sampler steps"""
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    e = env.real('eps', 'small')
    if kind == 'SVGD':
        cost = lambda p: tf.reduce_sum(tf.square(p))
    else:
        cost = C.quadratic(2)
    kw = {}
    if what == 'cost object':
        kw['cost'] = Callable(cost)
    elif what == 'partial':
        kw['cost'] = functools.partial(lambda k, p: cost(p), 3)
    elif what == 'method':
        kw['cost'] = Callable(cost).fun.__call__
    elif what == 'generator':
        kw['gen'] = ({} for _ in range(5))
    elif what == 'iterator':
        kw['gen'] = Iterator()
    elif what == 'list iterator':
        kw['gen'] = iter([{}, {}, {}])
    elif what == 'float32':
        kw['dtype'] = tf.float32
    kw.setdefault('cost', cost)
    with env.tf_graph() as sess:
        ok, s = build_in(env, kind, sess, sched=ConstantStepsizeSchedule(e), **kw)
        if not env.expect('%s is accepted' % what, ok):
            return
        sess.run(tf.global_variables_initializer())
        for k in range(2):
            before = [env.get_var(sess, p) for p in s.params]
            sample, c = next(s)
            want = [sum(v * v for v in np.asarray(b, dtype=object).reshape(-1)) for b in before]
            if kind == 'SVGD':
                env.equal('cost in step %d' % k, np.asarray(c, dtype=object).reshape(-1), np.array(want, dtype=object))
            else:
                env.equal('cost in step %d' % k, c, sum(want))
            env.expect('one sample per parameter', len(sample) == 2)


def jobs(tier):
    out = []
    for kind in C.KINDS:
        for v in ('int', 'real', None, '3', 1.5, (1,)):
            out.append(Job('number', number, dict(kind=kind, which='seed', value=v), max_paths=500))
            if kind in ('SGHMC', 'SGLD'):
                out.append(Job('number', number, dict(kind=kind, which='burn_in', value=v), max_paths=500))
        out.append(Job('objects', objects, dict(kind=kind)))
        for what in ('function', 'cost object', 'partial', 'method', 'generator', 'iterator', 'list iterator', 'float32'):
            out.append(Job('accepted', accepted, dict(kind=kind, what=what), rel_tol=2e-3 if what == 'float32' else 1e-6))
    return out
