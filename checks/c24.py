import functools
import inspect

from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C24'
FUNCTIONS = ['sampling.Sampler.get_sampler', 'sampling.Sampler.is_burn_in_mcmc']
BOUNDS = ('all 4 methods; every subset of overridden arguments (symbolic presence bits, required arguments included); values: any real (symbolic), None, 0, \'\', False, []; '
          'one unknown argument next to any subset; every pair of calls (and three calls of one method) one after another; plus 2 sampling steps of factory-built samplers against the reference dynamics, hyperparameters symbolic or defaulted')
ASSUMPTIONS = ['Relativistic: scalar parameters; initial momenta are symbolic stand-ins (external ARS library)']
STUBS = ['sampler __init__ recorder with the original signature (merge jobs); real __init__ in the effect jobs']

CLASSES = {'SGHMC': 'SGHMCSampler', 'SGLD': 'SGLDSampler', 'Relativistic': 'RelativisticSGHMCSampler', 'SVGD': 'SVGDSampler'}
# as documented in the samplers' docstrings; stepsize_schedule and session: what the class itself defaults to
DOCUMENTED = {
    'SGHMC': dict(batch_generator=None, burn_in_steps=3000, mdecay=0.05, scale_grad=1.0, dtype=tf.float64, seed=None),
    'SGLD': dict(batch_generator=None, burn_in_steps=3000, A=1.0, scale_grad=1.0, dtype=tf.float64, seed=None),
    'Relativistic': dict(batch_generator=None, mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0, dtype=tf.float64, seed=None),
    'SVGD': dict(batch_generator=None, alpha=0.9, fudge_factor=1e-6, dtype=tf.float64, seed=None),
}
REQUIRED = {'SVGD': ('particles', 'cost_fun')}
UNKNOWN = {'SGHMC': ('A', 'particles', 'burn_in', ''), 'SGLD': ('mdecay', 'Seed', 'stepsize'),
           'Relativistic': ('burn_in_steps', 'scale_grad', 'c'), 'SVGD': ('params', 'burn_in_steps', 'sess')}


class Recorder(object):
    def __init__(self, cls):
        self.cls, self.orig, self.calls = cls, cls.__init__, []

    def __enter__(self):
        rec, orig = self, self.orig
        sig = inspect.signature(orig)

        @functools.wraps(orig)
        def init(me, *a, **k):
            b = sig.bind(me, *a, **k)
            given = dict(b.arguments)
            b.apply_defaults()
            rec.calls.append((me, given, dict(b.arguments)))
        self.cls.__init__ = init
        self.params = [p for p in sig.parameters.values()][1:]
        return self

    def __exit__(self, *exc):
        self.cls.__init__ = self.orig


def merge(env, kind, value, unknown=None):
    from pysgmcmc.sampling import Sampler
    with Recorder(C.sampler_class(kind)) as rec:
        required = REQUIRED.get(kind, ('params', 'cost_fun'))
        args = {}
        for k, p in enumerate(rec.params):
            if env.bool('named_%s' % p.name):
                args[p.name] = env.real('value_%s' % p.name) if value == 'real' else value
        given = dict(args)
        if unknown is not None:
            args[unknown] = 1
        try:
            got = Sampler.get_sampler(C.method(kind), **args)
        except ValueError:
            got = None
        missing = [r for r in required if r not in given]
        env.labels.append('merge')
        env.check('reached', True)
        if unknown is not None or missing:
            env.expect('unknown or missing argument raises ValueError', got is None and not rec.calls)
            return
        if not env.expect('a sampler is built', got is not None and len(rec.calls) == 1):
            return
        me, _, bound = rec.calls[0]
        env.expect('instance of the method\'s class', type(got) is C.sampler_class(kind) and me is got and type(got).__name__ == CLASSES[kind])
        for p in rec.params:
            if p.name in given:
                env.expect('%s is the user\'s value' % p.name, bound[p.name] is given[p.name])
            elif p.name in DOCUMENTED[kind]:
                d = DOCUMENTED[kind][p.name]
                env.expect('%s has its documented default' % p.name, type(bound[p.name]) is type(d) and bound[p.name] == d)
            else:
                env.expect('%s has the default of its class' % p.name, bound[p.name] is p.default)


def history(env, kinds, value):
    """what earlier calls were given does not reach a later one"""
    from pysgmcmc.sampling import Sampler
    env.labels.append('history')
    env.check('reached', True)
    for step, kind in enumerate(kinds):
        with Recorder(C.sampler_class(kind)) as rec:
            args = {}
            for p in rec.params:
                if p.name in REQUIRED.get(kind, ('params', 'cost_fun')):
                    args[p.name] = object()
                elif step < len(kinds) - 1 and (step == 0 or env.bool('named%d_%s' % (step, p.name))):
                    args[p.name] = env.real('value%d_%s' % (step, p.name)) if value == 'real' else value
            given = dict(args)
            got = Sampler.get_sampler(C.method(kind), **args)
            if not env.expect('a sampler is built', len(rec.calls) == 1 and rec.calls[0][0] is got):
                return
            bound = rec.calls[0][2]
            env.expect('the caller\'s arguments are left alone', args == given)
            for p in rec.params:
                if p.name in given:
                    env.expect('call %d: %s is the user\'s value' % (step, p.name), bound[p.name] is given[p.name])
                else:
                    env.expect('call %d: %s has its default' % (step, p.name), bound[p.name] is p.default)


def classify(env):
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.samplers.base_classes import BurnInMCMCSampler
    r = env.real('r')
    for kind in CLASSES:
        env.expect('%s classified by its burn-in phase' % kind,
                   Sampler.is_burn_in_mcmc(C.method(kind)) == issubclass(C.sampler_class(kind), BurnInMCMCSampler))
        env.expect('%s has its name' % kind, C.method(kind).name == C.method(kind).value)
    for other in (0, 'test', None, 2.5, object()):
        env.expect('other values are no burn-in method', not Sampler.is_burn_in_mcmc(other))
        try:
            Sampler.get_sampler(other, params=[], cost_fun=None)
            env.fail('unknown method raises ValueError', repr(other))
        except ValueError:
            pass
    env.check('reached', r == r)


def effect(env, kind, defaults):
    hyp = None
    if defaults:
        hyp = {k: v for k, v in DOCUMENTED[kind].items() if k in ('mdecay', 'scale_grad', 'A', 'mass', 'D', 'Bhat')}
        if kind == 'Relativistic':
            hyp = dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0)
    C.chain(env, kind, ((),), 2, burn_in=1, concrete_hyper=hyp, factory=True, pass_hyper=not defaults)


def jobs(tier):
    out = []
    for kind in CLASSES:
        for v in ('real', None, 0, '', False):
            out.append(Job('merge', merge, dict(kind=kind, value=v), max_paths=5000, replays=10))
        for u in UNKNOWN[kind]:
            out.append(Job('unknown', merge, dict(kind=kind, value=0, unknown=u), max_paths=5000, replays=10))
        if kind != 'SVGD':
            for d in (False, True):
                out.append(Job('effect', effect, dict(kind=kind, defaults=d)))
    for a in CLASSES:
        for b in CLASSES:
            out.append(Job('history', history, dict(kinds=(a, b), value='real')))
        out.append(Job('history', history, dict(kinds=(a, a, a), value='real'), max_paths=5000))
        out.append(Job('history', history, dict(kinds=(a, a), value=None)))
    out.append(Job('classify', classify))
    return out
