"""Shared pieces of the sampler harnesses: construction of the real samplers,
symbolic batches and stepsizes, and independent reference models."""
import contextlib
import sys

import numpy as np

from sx import sym as S
from sx import tfexec as X
from sx.harness import tf

NOISY = ('SGHMC', 'SGLD', 'Relativistic')
KINDS = ('SGHMC', 'SGLD', 'Relativistic', 'SVGD')


class Batches(object):
    """batch generator over a fixed list of feed dictionaries"""

    def __init__(self, dicts):
        self.dicts = list(dicts)
        self.drawn = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.drawn >= len(self.dicts):
            raise StopIteration()
        d = self.dicts[self.drawn]
        self.drawn += 1
        return dict(d)


class Schedule(object):
    """user stepsize schedule over a fixed list of values"""

    def __init__(self, values, initial):
        self.values, self.initial_value = list(values), initial
        self.drawn = 0
        self.updates = []

    def __iter__(self):
        return self

    def __next__(self):
        v = self.values[self.drawn]
        self.drawn += 1
        return v

    def update(self, *args, **kwargs):
        self.updates.append((args, kwargs))


def quadratic(n):
    def cost(ps):
        if not isinstance(ps, (list, tuple)):
            return tf.reduce_sum(tf.square(ps))
        return tf.add_n([tf.reduce_sum(tf.square(p)) for p in ps])
    return cost


class Linear(object):
    """cost = sum_i <c_i, theta_i> + c0 with fed coefficients: the gradient of
    each step is whatever is fed"""

    def __init__(self, params, dtype=tf.float64):
        self.params = params
        self.ph = [tf.placeholder(dtype, shape=p.shape, name='coef') for p in params]
        self.c0 = tf.placeholder(dtype, shape=(), name='offset')

    def __call__(self, ps):
        return tf.add_n([tf.reduce_sum(c * p) for c, p in zip(self.ph, ps)]) + self.c0

    def feed(self, grads, c0):
        d = dict(zip(self.ph, grads))
        d[self.c0] = c0
        return d


ARS = []      # (stub calls) (logpdf, n_samples, seed, kwargs)


@contextlib.contextmanager
def ars_stub(values):
    """The adaptive rejection sampler (external library) returns `values`."""
    import pysgmcmc.samplers.relativistic_sghmc as mod
    import arspy.ars as lib
    orig = lib.adaptive_rejection_sampling
    del ARS[:]

    def stub(logpdf, a, b, domain, n_samples, *args, **kw):
        ARS.append(dict(logpdf=logpdf, a=a, b=b, domain=domain, n_samples=n_samples, args=args, kw=kw))
        if callable(values):
            return values(kw.get('seed'), int(n_samples), len(ARS))
        start = sum(int(a['n_samples']) for a in ARS[:-1])
        return [values[(start + k) % len(values)] if len(values) else 0.0 for k in range(int(n_samples))]
    patched = []
    for m in [mod, lib] + [sys.modules[n] for n in list(sys.modules) if n == 'arspy' or n.startswith('pysgmcmc.')]:
        for k, v in list(vars(m).items()):
            if v is orig:
                patched.append((m, k))
                setattr(m, k, stub)
    try:
        yield
    finally:
        for m, k in patched:
            setattr(m, k, orig)


def seeded_ars(env):
    """momenta as a function of the seed handed to the external sampler"""
    tag = env.nsessions

    def draw(seed, n, call):
        if env.symbolic:
            node = S.lift(seed) if seed is not None else None
            key = 'u%d_%d' % (tag, call) if seed is None else 's%d' % node.id
            return [env.real('ars:%s:%d' % (key, k)) for k in range(n)]
        return list(np.random.RandomState(seed).normal(size=n))
    return draw


def sampler_class(kind):
    if kind == 'SGHMC':
        from pysgmcmc.samplers.sghmc import SGHMCSampler
        return SGHMCSampler
    if kind == 'SGLD':
        from pysgmcmc.samplers.sgld import SGLDSampler
        return SGLDSampler
    if kind == 'Relativistic':
        from pysgmcmc.samplers.relativistic_sghmc import RelativisticSGHMCSampler
        return RelativisticSGHMCSampler
    if kind == 'SVGD':
        from pysgmcmc.samplers.svgd import SVGDSampler
        return SVGDSampler
    raise KeyError(kind)


def method(kind):
    from pysgmcmc.sampling import Sampler
    return getattr(Sampler, {'Relativistic': 'RelativisticSGHMC'}.get(kind, kind))


def make(env, kind, sess, params, cost, gen=None, sched=None, seed=None, burn_in=2, momenta=None, dtype=tf.float64,
         factory=False, **kw):
    """construct the real sampler (factory: through Sampler.get_sampler)"""
    kw.update(cost_fun=cost, session=sess, dtype=dtype, seed=seed)
    if sched is not None:
        kw['stepsize_schedule'] = sched
    if gen is not None:
        kw['batch_generator'] = gen
    kw['particles' if kind == 'SVGD' else 'params'] = params
    if kind in ('SGHMC', 'SGLD'):
        kw['burn_in_steps'] = burn_in

    def build():
        if factory:
            from pysgmcmc.sampling import Sampler
            return Sampler.get_sampler(method(kind), **kw)
        return sampler_class(kind)(**kw)
    if kind == 'Relativistic':
        if momenta == 'seeded':
            momenta = seeded_ars(env)
        if momenta is None:
            momenta = [env.real('momentum_%d' % k) for k in range(len(params))]
        with ars_stub(momenta):
            return build()
    return build()


def variables(env, shapes, dtype=tf.float64, prefix='x'):
    """target parameters with symbolic initial values"""
    out, vals = [], []
    for k, shape in enumerate(shapes):
        x = env.array('%s%d' % (prefix, k), shape)
        out.append(tf.Variable(tf.constant(x, dtype=dtype), dtype=dtype, name='%s%d' % (prefix, k)))
        vals.append(x)
    return out, vals


def data_closure(tensor):
    """ops the value of `tensor` is computed from (control inputs excluded)"""
    seen, stack = {}, [tensor.op]
    while stack:
        op = stack.pop()
        if op.name in seen:
            continue
        seen[op.name] = op
        stack.extend(t.op for t in op.inputs)
    return seen


def noise_ops(sampler):
    """random op behind each parameter's update"""
    out = []
    for t in sampler.theta_t:
        out.append(sorted(n for n, op in data_closure(t).items() if op.type in X.RANDOM))
    return out


def draws(env, sess, sampler, shapes):
    """per parameter the flat list of noise values used in the last step"""
    out = []
    for names, shape in zip(noise_ops(sampler), shapes):
        n = int(np.prod(shape, dtype=int))
        if not names:
            out.append([0.0] * n)       # no noise at all
            continue
        if len(names) != 1:
            raise S.Unsupported('%d noise operations behind one parameter' % len(names))
        a = env.noise(sess, names[0])
        if a is None:
            raise S.Unsupported('noise of %s not recorded' % names[0])
        a = np.asarray(a).reshape(-1)
        if a.shape[0] == 1:
            a = np.repeat(a, n)
        if a.shape[0] != n:
            raise S.Unsupported('%d noise values for %d elements' % (a.shape[0], n))
        out.append(list(a))
    return out


def as_list(sample, n):
    """samples of one parameter may come unravelled"""
    if n == 1 and not isinstance(sample, (list, tuple)):
        return [sample]
    return list(sample)


# ---------------------------------------------------------------------------
# reference models (one element each), written from the papers' equations
# ---------------------------------------------------------------------------

class RefBurnIn(object):
    """scale adaptation of Springenberg et al. 2016 for one element"""

    def __init__(self, env):
        self.env = env
        self.tau, self.g, self.v, self.minv = 1.0, 1.0, 1.0, 1.0

    def adapt(self, grad, burning):
        env = self.env
        r = 1.0 / (self.tau + 1.0)
        if burning:
            self.minv = 1.0 / env.sqrt(env.maximum(self.v, 0.0))
        self.tau = self.tau + 1.0 - self.g * self.g * self.tau / self.v
        self.g = self.g + r * (grad - self.g)
        self.v = self.v + r * (grad * grad - self.v)


class RefSGHMC(RefBurnIn):
    def __init__(self, env, theta, mdecay, scale_grad):
        super().__init__(env)
        self.theta, self.mdecay, self.scale_grad = theta, mdecay, scale_grad
        self.V = 0.0

    def step(self, grad, eps, n, burning):
        env = self.env
        self.adapt(grad, burning)
        e = eps / env.sqrt(self.scale_grad)
        var = 2.0 * e * e * self.mdecay * self.minv - e * e * e * e
        sigma = env.sqrt(env.maximum(var, 1e-16))
        self.V = self.V - eps * eps * self.minv * grad - self.mdecay * self.V + sigma * n
        self.theta = self.theta + self.V
        return self.theta


class RefSGLD(RefBurnIn):
    def __init__(self, env, theta, A, scale_grad):
        super().__init__(env)
        self.theta, self.A, self.scale_grad = theta, A, scale_grad

    def step(self, grad, eps, n, burning):
        env = self.env
        self.adapt(grad, burning)
        sigma = env.sqrt(env.maximum(2.0 * eps * self.minv * self.A / self.scale_grad, 0.0))
        self.theta = self.theta - eps * self.minv * self.A * grad + sigma * n
        return self.theta


class RefRelativistic(object):
    def __init__(self, env, theta, p, m, c, D, Bhat):
        self.env, self.theta, self.p = env, theta, p
        self.m, self.c, self.D, self.Bhat = m, c, D, Bhat

    def velocity(self, p):
        return p / (self.m * self.env.sqrt(p * p / (self.m * self.m * self.c * self.c) + 1.0))

    def step(self, grad, eps, n, burning=None):
        env = self.env
        sigma = env.sqrt(eps * (2.0 * self.D - eps * self.Bhat))
        self.p = self.p - eps * grad - self.D * eps * self.velocity(self.p) + sigma * n
        self.theta = self.theta + eps * self.velocity(self.p)
        return self.theta


def hyper(env, kind):
    """symbolic hyperparameters of a sampler"""
    if kind == 'SGHMC':
        return dict(mdecay=env.real('mdecay', 'unit'), scale_grad=env.real('scale_grad', 'pos'))
    if kind == 'SGLD':
        return dict(A=env.real('A', 'pos'), scale_grad=env.real('scale_grad', 'pos'))
    if kind == 'Relativistic':
        return dict(mass=env.real('mass', 'pos'), speed_of_light=env.real('c', 'pos'), D=env.real('D', 'ge1'),
                    Bhat=env.real('Bhat', 'unit'))
    return {}


def reference(env, kind, theta, hyp, momentum=None):
    if kind == 'SGHMC':
        return RefSGHMC(env, theta, hyp['mdecay'], hyp['scale_grad'])
    if kind == 'SGLD':
        return RefSGLD(env, theta, hyp['A'], hyp['scale_grad'])
    if kind == 'Relativistic':
        return RefRelativistic(env, theta, momentum, hyp['mass'], hyp['speed_of_light'], hyp['D'], hyp['Bhat'])
    raise KeyError(kind)


def chain(env, kind, shapes, steps, burn_in=2, concrete_hyper=None, eps_dom='small', seed=None, sess_kw=None,
          visit=None, dtype=tf.float64, before=None, schedule=None, eps_values=None,
          factory=False, pass_hyper=True):
    """Run the real sampler `steps` steps from symbolic parameters with
    symbolic gradients, stepsizes and noise, next to the reference."""
    n = len(shapes)
    with env.tf_graph(**(sess_kw or {})) as sess:
        params, x0 = variables(env, shapes, dtype)
        cost = Linear(params, dtype)
        grads = [[env.array('g%d_%d' % (t, i), shapes[i]) for i in range(n)] for t in range(steps)]
        offs = [env.real('off%d' % t) for t in range(steps)]
        eps = [env.real('eps%d' % t, eps_dom) for t in range(steps)]
        gen = Batches([cost.feed(g, o) for g, o in zip(grads, offs)])
        eps = eps_values or eps
        sched = schedule or Schedule(eps, env.real('eps_init', 'small'))
        hyp = dict(concrete_hyper) if concrete_hyper is not None else hyper(env, kind)
        mom = [env.real('momentum_%d' % k) for k in range(n)]
        if kind == 'Relativistic':
            for e in eps:
                env.assume(e * hyp['Bhat'] <= 2 * hyp['D'])
        sampler = make(env, kind, sess, params, cost, gen, sched, seed=seed, burn_in=burn_in, momenta=mom, dtype=dtype, factory=factory,
                       **(hyp if pass_hyper else {}))
        sess.run(tf.global_variables_initializer())
        refs = [[reference(env, kind, v, hyp, mom[i]) for v in x0[i].reshape(-1)] for i in range(n)]
        cur = x0
        for t in range(steps):
            burning = bool(t < burn_in) if kind in ('SGHMC', 'SGLD') else False
            if before is not None:
                before(t, sampler)
            sample, c = next(sampler)
            sample = as_list(sample, n)
            noise = draws(env, sess, sampler, shapes)
            want_cost = offs[t]
            for i in range(n):
                for v, g in zip(cur[i].reshape(-1), grads[t][i].reshape(-1)):
                    want_cost = want_cost + v * g
            env.equal('cost before the step', c, want_cost)
            for i in range(n):
                want = np.empty(int(np.prod(shapes[i], dtype=int)), dtype=object)
                for k, ref in enumerate(refs[i]):
                    want[k] = ref.step(grads[t][i].reshape(-1)[k], eps[t], noise[i][k], burning)
                want = want.reshape(shapes[i])
                env.equal('step %d of parameter %d' % (t, i), sample[i], want)
            cur = [np.asarray(s, dtype=object) for s in sample]
            if visit is not None:
                visit(t, sampler, sess, sched, gen, sample, c)


STATE = {'tau': 'tau', 'g': 'g', 'v': 'v_hat', 'minv': 'minv', 'V': 'v'}


def state_vars(i, kind):
    """internal estimates of parameter i, by variable name"""
    out = {}
    for v in tf.global_variables():
        base = v.op.name.split('/')[-1]
        for k, nm in STATE.items():
            if base == '%s_%d' % (nm, i):
                if k in out:
                    raise S.Unsupported('ambiguous variable name ' + base)
                out[k] = v
    need = set(STATE) - (set() if kind == 'SGHMC' else {'V'})
    if set(out) != need:
        raise S.Unsupported('internal state has other names')
    return out


def inductive(env, kind, shapes=((),), burning=True, dtype=tf.float64):
    """A step (two during burn-in: the second may be the first one after it)
    from an ARBITRARY internal state (tau >= 1, v > 0): the samples and the new
    internal state follow the reference, so the claim extends to histories of
    any length."""
    n = len(shapes)
    steps = 2 if burning else 1
    with env.tf_graph() as sess:
        params, x0 = variables(env, shapes, dtype)
        cost = Linear(params, dtype)
        grads = [[env.array('g%d_%d' % (t, i), shapes[i]) for i in range(n)] for t in range(steps)]
        off, eps = env.real('off'), [env.real('eps%d' % t, 'small') for t in range(steps)]
        hyp = hyper(env, kind)
        burn_in, done = env.int('burn_in', 1, 10 ** 6), env.int('steps_done', 0, 10 ** 7)
        env.assume(done < burn_in if burning else done >= burn_in)
        sampler = make(env, kind, sess, params, cost, Batches([cost.feed(g, off) for g in grads]), Schedule(eps, 0.01),
                       burn_in=burn_in, dtype=dtype, **hyp)
        sess.run(tf.global_variables_initializer())
        sampler.n_iterations = done
        refs, frozen, svars = [], [], []
        for i in range(n):
            sv = state_vars(i, kind)
            svars.append(sv)
            size = int(np.prod(shapes[i], dtype=int))
            st = {k: env.array('%s_%d' % (k, i), (size, 1), {'tau': 'ge1', 'v': 'pos', 'minv': 'pos'}.get(k, 'real')) for k in sv}
            for k, v in sv.items():
                env.set_var(sess, v, st[k])
            frozen.append(st['minv'])
            rs = []
            for e in range(size):
                r = reference(env, kind, x0[i].reshape(-1)[e], hyp)
                for k in sv:
                    setattr(r, k, st[k][e, 0])
                rs.append(r)
            refs.append(rs)
        if not burning:
            sampler.minv = frozen
        for t in range(steps):
            adapt = bool(done + t < burn_in)
            sample, c = next(sampler)
            if kind in ('SGHMC', 'SGLD'):
                env.equal('steps counted', sampler.n_iterations, done + t + 1)
            sample = as_list(sample, n)
            noise = draws(env, sess, sampler, shapes)
            for i in range(n):
                want = [r.step(g, eps[t], z, adapt) for r, g, z in zip(refs[i], grads[t][i].reshape(-1), noise[i])]
                env.equal('step of parameter %d' % i, np.asarray(sample[i], dtype=object).reshape(-1), np.array(want, dtype=object))
                for k, v in svars[i].items():
                    # what the next step starts from; the second step only has to follow in its sample
                    if t or k == 'minv' and not burning:
                        continue
                    env.equal('new %s of parameter %d' % (k, i), np.asarray(env.get_var(sess, v), dtype=object).reshape(-1),
                              np.array([getattr(r, k) for r in refs[i]], dtype=object))


def long_history(kind):
    """Finder for a failed induction step: a history of the real code from its
    initial state, as long as the step count of the solver's counterexample."""
    def find(job, label, asg):
        from sx import harness
        done, b = int(asg.get('steps_done', 0)), int(asg.get('burn_in', 1))
        n = min(done + 2, 2500)
        for burn_in, steps in ((b if b <= 2000 else 1500, n), (min(b, 50), max(n, 400))):
            fails, env = harness.replay(harness.Job('history', chain, dict(kind=kind, shapes=((),), steps=steps, burn_in=burn_in)), {})
            if fails:
                return fails
        return None
    return find


def inductive_jobs(kind, shapes=((), (2,))):
    from sx.harness import Job
    return [Job('inductive', inductive, dict(kind=kind, shapes=shapes, burning=burning), optional='strengthen', finder=long_history(kind))
            for burning in (True, False)]
