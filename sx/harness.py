"""Harness environments (symbolic and concrete replay), job execution,
verdicts and evidence."""
import collections
import contextlib
import itertools
import json
import logging
import math
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import zlib
from fractions import Fraction

os.environ.pop('TF_DETERMINISTIC_OPS', None)

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import tf_v1_api  # noqa: F401  (makes `import tensorflow` the v1 API)
import tensorflow as tf
from tensorflow.python.framework import random_seed

import sx
from sx import expr as E
from sx import sym as S
from sx import prove as P
from sx import tfexec as X
from sx import state
from sx import stubs

logging.disable(logging.CRITICAL)
RealSession = tf.Session

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'

CURRENT = None     # current Env


class ReplayMismatch(Exception):
    pass


DOMS = {
    'real': lambda r: Fraction(r.randint(-3000, 3000), 1009),
    'pos': lambda r: Fraction(r.randint(100, 4000), 1013),
    'nonneg': lambda r: Fraction(r.randint(0, 4000), 1013),
    'unit': lambda r: Fraction(r.randint(50, 960), 1019),
    'small': lambda r: Fraction(r.randint(10, 500), 1021),
    'ge1': lambda r: 1 + Fraction(r.randint(0, 4000), 1013),
}


SEED_NODES = {}     # stand-in of a symbolic op seed -> its term


def symbolic_seed(orig):
    def get_seed(op_seed):
        if S.is_sym(op_seed):
            n = op_seed.node
            k = (1 << 40) + n.id
            SEED_NODES[k] = n
            return 87654321, k
        return orig(op_seed)
    return get_seed


class Env(object):
    """Common interface of the symbolic and the replay environment."""
    symbolic = False

    def __init__(self):
        self.failures = []
        self.labels = []
        self.actuals = {}
        self.nsessions = 0
        self.sessions = []
        self.notes = []
        self.raised = None
        self.prefix = ''

    def fail(self, label, detail=''):
        self.failures.append((label, str(detail)[:400]))

    def note(self, s):
        self.notes.append(s)

    def noise(self, sess, name):
        """what the random op `name` drew in the last run"""
        raise NotImplementedError()

    # arrays of fresh inputs
    def array(self, name, shape, dom='real'):
        out = np.empty(shape, dtype=object)
        flat = out.reshape(-1)
        for i in range(flat.shape[0]):
            flat[i] = self.real('%s_%d' % (name, i), dom)
        if not self.symbolic:
            return out.astype(np.float64)
        return out

    def expect(self, label, cond):
        """concrete (non-symbolic) expectation"""
        if not cond:
            self.fail(label)
        return cond

    @contextlib.contextmanager
    def patched(self):
        global CURRENT
        old = CURRENT
        CURRENT = self
        saved = (tf.Session, tf.InteractiveSession)
        tf.Session = self.session_class
        get_seed = random_seed.get_seed
        if self.symbolic:
            random_seed.get_seed = symbolic_seed(get_seed)
        np_state = np.random.get_state()
        py_state = random.getstate()
        try:
            yield
        finally:
            tf.Session, tf.InteractiveSession = saved
            random_seed.get_seed = get_seed
            CURRENT = old
            np.random.set_state(np_state)
            random.setstate(py_state)

    @contextlib.contextmanager
    def tf_graph(self, session=True, **kw):
        g = tf.Graph()
        with g.as_default():
            if session:
                s = self.session_class(graph=g, **kw)
                try:
                    yield s
                finally:
                    s.close()
            else:
                yield g


class SymEnv(Env):
    symbolic = True

    def __init__(self, path):
        super(SymEnv, self).__init__()
        self.path = path
        self.pairs = []       # (label, actual node, expected node)
        self.checks = []      # (label, node)
        self.doms = {}
        self.sorts = {}
        self.hints = {}
        self.nints = 0
        self.session_class = _SymSession
        self.ideal = True

    def real(self, name, dom='real'):
        name = self.prefix + name
        v = E.var(name)
        self.sorts[name] = E.R
        self.doms[name] = DOMS[dom]
        if dom in ('pos', 'small'):
            self.path.assume(E.lt(E.ZERO, v))
        elif dom == 'nonneg':
            self.path.assume(E.le(E.ZERO, v))
        elif dom == 'unit':
            self.path.assume(E.and_(E.lt(E.ZERO, v), E.lt(v, E.ONE)))
        elif dom == 'ge1':
            self.path.assume(E.le(E.ONE, v))
        return S.SymReal(v)

    def int(self, name, lo=None, hi=None):
        name = self.prefix + name
        v = E.var(name, E.I)
        self.sorts[name] = E.I
        l0, h0 = (lo if lo is not None else -4), (hi if hi is not None else (lo or 0) + 12)
        self.doms[name] = lambda r: r.randint(l0, max(l0, min(h0, l0 + 40)))
        if lo is not None:
            self.path.assume(E.le(E.const(lo), v))
        if hi is not None:
            self.path.assume(E.le(v, E.const(hi)))
        self.nints += 1
        if FORK_INTS and 'seed' not in name:
            top = l0 + 6 if hi is None else min(hi, l0 + 6)
            self.path.assume(E.le(v, E.const(top)))
            return self.path.concretize(v)
        return S.SymInt(v)

    def bool(self, name):
        name = self.prefix + name
        self.sorts[name] = E.B
        return S.SymBool(E.var(name, E.B))

    def number(self, v):
        """a plain number as a term: arithmetic on it is exact"""
        return S.SymReal(E.const(Fraction(v)))

    def assume(self, cond):
        n = S.b(cond)
        if n is E.FALSE:
            raise S.Infeasible()
        self.path.assume(n)

    def feasible(self):
        return P.check(self.path.pc, timeout=3)[0] != 'unsat'

    def equal(self, label, actual, expected, tol=None):
        a, x = _objarr(actual), _objarr(expected)
        if a is None or x is None:
            self.fail(label, 'not numeric: %r vs %r' % (type(actual), type(expected)))
            return
        if a.shape != x.shape:
            self.fail(label, 'shape %s, expected %s' % (a.shape, x.shape))
            return
        self.labels.append(label)
        acc = []
        for u, v in zip(a.reshape(-1), x.reshape(-1)):
            nu, nv = S.lift(u), S.lift(v)
            if nu is None or nv is None:
                if u is v or (nu is None and nv is None and u == v):
                    continue
                self.fail(label, 'not numeric: %r vs %r' % (u, v))
                return
            if nu.sort == E.B or nv.sort == E.B:
                if nu.sort != nv.sort:
                    self.fail(label, 'boolean versus number')
                    return
                self.checks.append((label, E.eq(nu, nv)))
                continue
            self.pairs.append((label, E.toreal(nu), E.toreal(nv)))
            acc.append(E.toreal(nu))
        self.actuals.setdefault(label, []).append(acc)

    def check(self, label, cond):
        self.labels.append(label)
        self.checks.append((label, S.b(cond)))

    # math on harness level values
    def sqrt(self, x): return _mapf(E.sqrt, x)
    def exp(self, x): return _mapf(E.exp, x)
    def log(self, x): return _mapf(E.log, x)
    def sin(self, x): return _mapf(E.sin, x)
    def cos(self, x): return _mapf(E.cos, x)

    def maximum(self, a, b): return S.wrap(E.maximum(S.lift(a), S.lift(b)))
    def minimum(self, a, b): return S.wrap(E.minimum(S.lift(a), S.lift(b)))

    def where(self, c, a, b):
        return S.wrap(E.ite(S.b(c), S.lift(a), S.lift(b)))

    def all(self, *cs): return S.wrap(E.and_(*[S.b(c) for c in cs]))
    def any(self, *cs): return S.wrap(E.or_(*[S.b(c) for c in cs]))
    def not_(self, c): return S.wrap(E.not_(S.b(c)))

    def distinct_draws(self, values):
        """assume that different draws of the generator differ"""
        names = E.variables(*[S.lift(v) for v in values])
        rnd = [n for k, n in sorted(names.items()) if k.startswith(('rnd:', 'ars:'))]
        for a, b in itertools.combinations(rnd, 2):
            self.path.assume(E.not_(E.eq(a, b)))

    def defined(self, *values):
        """no undefined operation (x/0, sqrt(<0), log(<=0)) contributes to the values"""
        return S.wrap(E.defined([S.lift(v) for a in values for v in np.asarray(a, dtype=object).reshape(-1)]))

    def ops_defined(self, sess):
        """no op of the last run was applied outside its domain"""
        rec = sess.runs[-1]
        out = []
        for name, a in rec.divs:
            out += [E.not_(E.eq(E.toreal(S.lift(v)), E.ZERO)) for v in np.asarray(a, dtype=object).reshape(-1)]
        for name, a in rec.sqrts:
            out += [E.le(E.ZERO, E.toreal(S.lift(v))) for v in np.asarray(a, dtype=object).reshape(-1)]
        for name, a in rec.logs:
            out += [E.lt(E.ZERO, E.toreal(S.lift(v))) for v in np.asarray(a, dtype=object).reshape(-1)]
        return S.wrap(E.and_(*out)) if out else True

    def op_seed(self, op):
        k = op.get_attr('seed2')
        n = SEED_NODES.get(k)
        return S.wrap(n) if n is not None else k

    def set_var(self, sess, var, value):
        sess.set_var(var, value)

    def get_var(self, sess, var):
        return sess.get_var(var)

    def noise(self, sess, name):
        for n, key, cnt, out in sess.runs[-1].random:
            if n == name:
                return out
        return None

    def set_init(self, sess, var, flag, value):
        """var holds `value` and is initialised exactly if `flag`"""
        sess.set_var(var, value)
        sess.inits[sess._vname(var)] = flag


def _mapf(f, x):
    if isinstance(x, np.ndarray):
        return X._map1(lambda v: S.wrap(f(S.real(v))), x if x.dtype == object else S.sym_array(x))
    return S.wrap(f(S.real(x)))


def _objarr(x):
    if S.is_sym(x):
        return X.arr(x)
    if x is None or isinstance(x, str):
        return None
    try:
        a = np.asarray(x, dtype=object)
    except Exception:
        return None
    if a.dtype != object:
        a = a.astype(object)
    # nested arrays of equal shape inside object array
    if a.ndim == 0 and isinstance(a[()], np.ndarray):
        return _objarr(a[()])
    return a


class _SymSession(X.SymSession):
    def __init__(self, target='', graph=None, config=None, **kw):
        kw.pop('real_random', None)
        super(_SymSession, self).__init__(target, graph=graph, config=config, **kw)
        self.sid = CURRENT.nsessions
        CURRENT.nsessions += 1
        CURRENT.sessions.append(self)


class RepEnv(Env):
    """Runs the harness on the real code with concrete values."""

    def __init__(self, assignment, feed_noise=True, schedule=None):
        super(RepEnv, self).__init__()
        self.asg = assignment
        self.session_class = _ReplaySession
        self.feed_noise = feed_noise
        self.schedule = schedule
        self.defaults = random.Random(7)
        self.used = {}
        self.tol = 1e-6
        self.floor = 1e-3
        self.worst = 0.0

    def value(self, name, default):
        v = self.asg.get(name)
        if v is None:
            v = default
        self.used[name] = v
        return v

    def real(self, name, dom='real'):
        name = self.prefix + name
        d = DOMS[dom](random.Random(zlib.crc32(name.encode())))
        return float(self.value(name, d))

    def int(self, name, lo=None, hi=None):
        return int(self.value(self.prefix + name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self.value(self.prefix + name, False))

    def number(self, v):
        return float(v)

    def assume(self, cond):
        if not bool(cond):
            raise S.Infeasible()

    def feasible(self):
        return True

    def equal(self, label, actual, expected, tol=None):
        tol = tol or self.tol
        try:
            a = np.asarray(actual, dtype=np.float64)
            x = np.asarray(expected, dtype=np.float64)
        except Exception as e:
            try:
                if actual is expected or bool(actual == expected):
                    return
            except Exception:
                pass
            self.fail(label, 'not numeric: %r vs %r' % (type(actual), type(expected)))
            return
        if a.shape != x.shape:
            self.fail(label, 'shape %s, expected %s' % (a.shape, x.shape))
            return
        self.labels.append(label)
        self.actuals.setdefault(label, []).append(a.reshape(-1).tolist())
        for u, v in zip(a.reshape(-1), x.reshape(-1)):
            if u == v or (math.isnan(u) and math.isnan(v)):
                continue
            if math.isnan(u) or math.isnan(v) or math.isinf(u) or math.isinf(v):
                self.fail(label, 'got %r, expected %r' % (u, v))
                return
            d = abs(u - v) / (self.floor + max(abs(u), abs(v)))
            self.worst = max(self.worst, d)
            if d > tol:
                self.fail(label, 'got %r, expected %r' % (u, v))
                return

    def check(self, label, cond):
        self.labels.append(label)
        if not bool(cond):
            self.fail(label)

    def sqrt(self, x): return _cmap(lambda v: math.sqrt(v) if v >= 0 else float('nan'), x)
    def exp(self, x): return _cmap(math.exp, x)
    def log(self, x): return _cmap(lambda v: math.log(v) if v > 0 else float('nan'), x)
    def sin(self, x): return _cmap(math.sin, x)
    def cos(self, x): return _cmap(math.cos, x)
    def maximum(self, a, b): return max(a, b)
    def minimum(self, a, b): return min(a, b)
    def where(self, c, a, b): return a if c else b
    def all(self, *cs): return all(bool(c) for c in cs)
    def any(self, *cs): return any(bool(c) for c in cs)
    def not_(self, c): return not bool(c)

    def set_var(self, sess, var, value):
        g = sess.graph
        with g.as_default():
            v = np.asarray(value, dtype=np.float64)
            p = tf.placeholder(var.dtype.base_dtype, shape=v.shape)
            RealSession.run(sess, tf.assign(var, p, validate_shape=False).op, {p: v})

    def get_var(self, sess, var):
        return RealSession.run(sess, var)

    def set_init(self, sess, var, flag, value):
        if flag:
            self.set_var(sess, var, value)

    def noise(self, sess, name):
        return sess.noise_log.get(name)

    def distinct_draws(self, values):
        pass

    def defined(self, *values):
        return all(bool(np.all(np.isfinite(np.asarray(v, dtype=np.float64)))) for v in values)

    def ops_defined(self, sess):
        return True

    def op_seed(self, op):
        return op.get_attr('seed2')


def _cmap(f, x):
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=np.float64)
        fo, fi = out.reshape(-1), x.reshape(-1)
        for i in range(fo.shape[0]):
            fo[i] = f(float(fi[i]))
        return out
    return f(float(x))


class _ReplaySession(RealSession):
    def __init__(self, target='', graph=None, config=None, **kw):
        super(_ReplaySession, self).__init__(target, graph=graph, config=config)
        self.sid = CURRENT.nsessions
        CURRENT.nsessions += 1
        CURRENT.sessions.append(self)
        self.rand_counts = collections.Counter()
        self.nruns = 0
        self.env = CURRENT
        self.real_random = kw.get('real_random', False)

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        env = self.env
        k = self.nruns
        self.nruns += 1
        feed = dict(feed_dict or {})
        self.noise_log = {}
        counts = self.rand_counts.copy()
        if env.feed_noise and not self.real_random:
            ops = [el if isinstance(el, tf.Operation) else el.op
                   for el in (self.graph.as_graph_element(f, allow_tensor=True, allow_operation=True)
                              for f in _flatten(fetches))]
            names = set()
            for t in feed:
                try:
                    names.add(self.graph.as_graph_element(t).name)
                except Exception:
                    pass
            for n, op in X.closure(ops, names).items():
                if op.type in X.RANDOM and op.outputs[0].name not in names:
                    seed, seed2 = op.get_attr('seed'), op.get_attr('seed2')
                    cnt = self.rand_counts[n]
                    self.rand_counts[n] += 1
                    if seed or seed2:
                        key = '%s_s%d_%d' % (op.type, seed, seed2)
                    else:
                        key = '%s_u%d_%s' % (op.type, self.sid, op.name)
                    shape = tf.get_static_value(op.inputs[0])
                    if shape is None:
                        continue
                    val = np.empty(tuple(int(x) for x in shape), dtype=np.float64)
                    fl = val.reshape(-1)
                    for i in range(fl.shape[0]):
                        name = 'rnd:%s:%d:%d' % (key, cnt, i)
                        d = DOMS['unit' if op.type == 'RandomUniform' else 'real'](random.Random(zlib.crc32(name.encode())))
                        fl[i] = float(env.value(name, d))
                    feed[op.outputs[0]] = val
                    self.noise_log[n] = val
        sched = (env.schedule or {}).get((self.sid, k))
        if sched:
            return self._run_scheduled(fetches, feed, sched)
        try:
            return super(_ReplaySession, self).run(fetches, feed_dict=feed)
        except (ValueError, TypeError):
            # rejected feeds: nothing was executed
            self.nruns, self.rand_counts = k, counts
            raise

    def _run_scheduled(self, fetches, feed, edges):
        """Run one step with extra control edges that force an order of
        independent operations, on an exact copy of the graph."""
        gd = self.graph.as_graph_def()
        byname = {n.name: n for n in gd.node}
        for (a, _), (b, _) in edges:
            if a in byname and b in byname:
                byname[b].input.append('^' + a)
        g2 = tf.Graph()
        with g2.as_default():
            tf.import_graph_def(gd, name='')
        varops = [op for op in self.graph.get_operations() if op.type in ('VariableV2', 'Variable')]
        s2 = RealSession(graph=g2)
        init = []
        for op in varops:
            ok = RealSession.run(self, _is_init(self.graph, op))
            if ok:
                init.append(op)
        vals = RealSession.run(self, [op.outputs[0] for op in init])
        with g2.as_default():
            for op, v in zip(init, vals):
                ref = g2.get_operation_by_name(op.name).outputs[0]
                p = tf.placeholder(ref.dtype.base_dtype, shape=v.shape)
                s2.run(tf.raw_ops.Assign(ref=ref, value=p, validate_shape=False).op, {p: v})

        def tr(f):
            if isinstance(f, (list, tuple)):
                return [tr(x) for x in f]
            el = self.graph.as_graph_element(f, allow_tensor=True, allow_operation=True)
            return g2.as_graph_element(el.name)
        out = s2.run(tr(fetches), {g2.as_graph_element(self.graph.as_graph_element(t).name): v for t, v in feed.items()})
        # carry the variables back
        vals = s2.run([g2.get_operation_by_name(op.name).outputs[0] for op in init])
        with self.graph.as_default():
            for op, v in zip(init, vals):
                ref = op.outputs[0]
                p = tf.placeholder(ref.dtype.base_dtype, shape=v.shape)
                RealSession.run(self, tf.raw_ops.Assign(ref=ref, value=p, validate_shape=False).op, {p: v})
        s2.close()
        return out


def _is_init(graph, op):
    with graph.as_default():
        return tf.raw_ops.IsVariableInitialized(ref=op.outputs[0])


def _flatten(f):
    if isinstance(f, (list, tuple)):
        for x in f:
            for y in _flatten(x):
                yield y
    elif isinstance(f, dict):
        for x in f.values():
            for y in _flatten(x):
                yield y
    else:
        yield f


# ---------------------------------------------------------------------------
# running one harness job
# ---------------------------------------------------------------------------

class Job(object):
    """One harness with one configuration (structural sizes)."""

    def __init__(self, name, fn, cfg=None, ideal=True, timeout=20.0, max_paths=400, budget=60.0,
                 feed_noise=True, validate=True, replays=6, finder=None, wall=240, expect_paths=True,
                 rel_tol=1e-6, split=False, optional=False, custom=None):
        self.name, self.fn, self.cfg = name, fn, cfg or {}
        self.ideal, self.timeout, self.max_paths, self.budget = ideal, timeout, max_paths, budget
        self.feed_noise, self.validate, self.replays, self.finder = feed_noise, validate, replays, finder
        self.wall = wall
        self.rel_tol = rel_tol
        self.split = split
        # optional: if the code leaves what this job can encode, the job is
        # dropped (reported as reduced bound) instead of blocking a verdict
        self.optional = optional
        # custom(job, res) -> list of (label, assignment) solver counterexamples
        self.custom = custom

    @property
    def id(self):
        return self.name + ('' if not self.cfg else '[' + ','.join('%s=%s' % kv for kv in sorted(self.cfg.items(), key=str)) + ']')


class Lives(object):
    """Two lives in one process: what the first one leaves behind (module
    state, caches keyed on names, shapes or graphs) must not matter to the
    second one, which has its own inputs."""

    def __init__(self, first, second):
        self.first, self.second = first, second

    def __call__(self, env):
        env.prefix = 'before_'
        try:
            self.first.fn(env, **self.first.cfg)
        finally:
            env.prefix = ''
        if not env.failures:
            self.second.fn(env, **self.second.cfg)


def lives(jobs, tier):
    groups = collections.OrderedDict()
    for j in jobs:
        if j.custom is None and j.finder is None and not j.optional:
            groups.setdefault((j.fn, j.ideal), []).append(j)
    out = []
    for js in groups.values():
        pairs = [(js[0], js[0])] + [(js[k], js[k + 1]) for k in range(len(js) - 1)]
        for a, b in pairs if tier == 'thorough' else pairs[:2]:
            out.append(Job('lives', Lives(a, b), ideal=b.ideal, timeout=b.timeout, max_paths=b.max_paths, budget=b.budget,
                           feed_noise=a.feed_noise and b.feed_noise,
                           replays=3, rel_tol=max(a.rel_tol, b.rel_tol), split=b.split, optional=True,
                           wall=40 if tier != 'thorough' else b.wall))
            out[-1].name = 'lives[%s then %s]' % (a.id, b.id)
    return out


def all_jobs(mod, tier):
    jobs = mod.jobs(tier)
    return jobs + lives(jobs, tier)


def jsonable(asg):
    out = {}
    for k, v in (asg or {}).items():
        if isinstance(v, bool):
            out[k] = v
        elif isinstance(v, int):
            out[k] = v
        elif isinstance(v, float):
            out[k] = 'float:' + v.hex()
        else:
            out[k] = str(Fraction(v))
    return out


def unjson(asg):
    out = {}
    for k, v in asg.items():
        if isinstance(v, str) and v.startswith('float:'):
            out[k] = float.fromhex(v[6:])
        elif isinstance(v, str):
            out[k] = Fraction(v)
        else:
            out[k] = v
    return out


def replay(job, asg, schedule=None, repeat=1):
    """Run the harness on the real code. Returns (failures, env)."""
    stubs.leave_symbolic()
    state.restore()
    env = RepEnv(asg, feed_noise=job.feed_noise, schedule=schedule)
    env.tol = job.rel_tol
    if job.rel_tol > 1e-4:
        env.floor = 4.0      # single precision: errors relative to the inputs' size
    with env.patched():
        try:
            job.fn(env, **job.cfg)
        except S.Infeasible:
            return None, env
        except X.Unsupported:
            raise
        except Exception as e:
            env.raised = e
            env.fail('raises', ''.join(traceback.format_exception_only(type(e), e)).strip())
            env.tb = traceback.format_exc()
    return env.failures, env


FORK_INTS = False


def run_job(job):
    """One job; when the code leaves what the encoding supports while an integer
    input or draw is a term (numpy needs concrete sizes), once more with every
    integer forked over its values when it appears (smaller bound)."""
    global FORK_INTS
    t0 = time.time()

    def late(sig, frame):
        if CURRENT is not None and (getattr(CURRENT, 'nints', 0) or job.optional == 'deep'):
            raise S.PathLimit('took longer than %ds' % (0.45 * job.wall))
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 0.45 * job.wall)
    res = run_job_once(job)
    signal.setitimer(signal.ITIMER_REAL, 0)
    if res['status'] in ('unknown', 'spurious') and job.optional in (False, 'deep') and res.pop('ints', 0) and time.time() - t0 < job.wall / 2:
        FORK_INTS = True
        try:
            again = run_job_once(job)
        finally:
            FORK_INTS = False
        if again['status'] in ('proved', 'violated'):
            again['notes'] = ['REDUCED BOUND: integers forked (at most 7 values of an unbounded one): ' + n[-300:] for n in res['notes'][-1:]] + again['notes']
            again['reduced'] = again.get('reduced', 0) + 1
            res = again
    if job.optional and res['status'] in ('unknown', 'spurious') and (job.optional != 'deep' or res.get('limit')):
        # 'deep' jobs (long histories) are only dropped when the code has too many paths
        res['status'] = 'dropped'
        res['notes'].append('REDUCED BOUND: job dropped')
        res['reduced'] = 1
    res.pop('ints', None)
    return res


def run_job_once(job):
    """Symbolic exploration of one job -> result dict"""
    t0 = time.time()
    res = dict(job=job.id, status='proved', paths=0, goals=0, decisions=0, ops=0, opkinds={}, samples=[],
               validated=0, notes=[], vacuous=True, runs=0, schedules=0, inputs=0, races=0, lines=[])
    P.RNG.seed(SEED * 7919 + zlib.crc32(job.id.encode()))
    cex = []
    unknown = []
    leads = []       # points of paths that left the encoding

    def lead(env, pc):
        if env is None or len(leads) >= 3:
            return
        names = {k: E.var(k, v) for k, v in env.sorts.items()}
        try:
            leads.append((probes(pc, env.doms, names, [env.hints] if env.hints else []), schedules(env), pc))
        except Exception as e:
            res['notes'].append('no probe of the path: %r' % (e,))

    def fn(path):
        env = SymEnv(path)
        path.env = env
        X.SymSession.all_runs = []
        state.restore()
        stubs.enter_symbolic(env)
        E.IDEAL = bool(job.ideal)
        try:
            with env.patched():
                job.fn(env, **job.cfg)
        finally:
            E.IDEAL = False
            stubs.leave_symbolic()
        return env
    ninputs = set()
    nints = [0]
    try:
        if job.custom is not None:
            res['vacuous'] = False
            res['paths'] = 1
            for label, asg in job.custom(job, res):
                if label == 'unknown':
                    unknown.append((asg, None))
                else:
                    cex.append((label, [asg], None, label, []))
        for path, env, exc in (S.explore(fn, job.max_paths) if job.custom is None else ()):
            env = getattr(path, 'env', None)
            nints[0] += env.nints
            res['paths'] += 1
            res['decisions'] += len(path.decisions)
            runs = X.SymSession.all_runs or []
            res['runs'] += len(runs)
            for r in runs:
                for k, v in r.ops.items():
                    res['opkinds'][k] = res['opkinds'].get(k, 0) + v
                    res['ops'] += v
                res['races'] += len(r.conflicts)
            sched = schedules(env)
            res['schedules'] += sum(len(ch) for ch in sched.values())
            pc = path.pc
            doms = env.doms
            ninputs.update(doms)
            hints = [env.hints] if env.hints else []
            if exc is not None:
                if isinstance(exc, S.PathLimit):
                    lead(env, pc)
                    raise exc
                if isinstance(exc, S.Unsupported):
                    unknown.append(('unsupported: %s' % exc, None))
                    lead(env, pc)
                    continue
                detail = ''.join(traceback.format_exception(exc))[-1500:]
                r, m = P.check(pc, timeout=10)
                if r == 'unsat':
                    continue
                pts = probes(pc, doms, {k: E.var(k, v) for k, v in env.sorts.items()}, hints)
                ass = pts + ([m] if m else [])
                cex.append(('raises', ass, sched, detail, pc))
                if len(cex) >= 4:
                    break
                continue
            if env.failures:
                names = {}
                for a in pc:
                    names.update(E.variables(a))
                r, m = P.check(pc, timeout=10)
                if r == 'unsat':
                    continue
                pts = P.points(pc, doms, names, 2, hints)
                cex.append((env.failures[0][0], pts + ([m] if m else []), sched, str(env.failures[:3]), pc))
                if len(cex) >= 4:
                    break
                continue
            res['goals'] += len(env.pairs) + len(env.checks)
            if env.pairs or env.checks or env.labels:
                res['vacuous'] = False
            v = None
            groups = [env.pairs]
            if job.split:
                groups = [[p] for p in env.pairs]
            for grp in groups:
                if not grp:
                    continue
                v = P.prove_equal(pc, [(a, b) for _, a, b in grp], doms, timeout=job.timeout,
                                  ideal=job.ideal and env.ideal, budget=job.budget, hints=hints)
                if v.status != 'proved':
                    break
            if v is not None and v.status == 'unknown':
                v = slices(pc, [(a, b) for _, a, b in env.pairs], doms, job, hints, res) or v
            if v is not None and v.status != 'proved':
                if v.status == 'cex':
                    more = []
                    if v.model is not None:
                        names = E.variables(*[x for _, a, b in env.pairs for x in (a, b)])
                        more = disagreeing_points(pc, [(a, b) for _, a, b in env.pairs], doms, names, job)
                    cex.append((v.note, ([v.model] if v.model else []) + more, sched, v.note, pc))
                else:
                    unknown.append((v.note, v.model))
                if len(cex) >= 4:
                    break
                if v.status == 'cex':
                    continue
            # side conditions
            if env.checks:
                conj = E.and_(*[c for _, c in env.checks])
                # few conditions are decided together, many one by one
                v = P.prove(pc, conj, doms, timeout=job.timeout, hints=hints) if len(env.checks) <= 40 else P.Verdict('unknown')
                if v.status == 'unknown':
                    for lab, c in env.checks:
                        v1 = P.prove(pc, c, doms, timeout=job.timeout, hints=hints)
                        if v1.status != 'proved':
                            v = v1
                            v.note = lab + ': ' + v.note
                            break
                    else:
                        v = P.Verdict('proved')
                if v.status == 'cex':
                    bad = [lab for lab, c in env.checks if v.model is not None and P.violated(pc, c, v.model)]
                    names = E.variables(conj, *pc)
                    pts = [p for p in P.points(pc, doms, names, 12, hints) if P.violated(pc, conj, p)][:2]
                    cex.append((bad[0] if bad else 'check', ([v.model] if v.model else []) + pts, sched, str(bad[:3]), pc))
                    if len(cex) >= 4:
                        break
                    continue
                if v.status == 'unknown':
                    unknown.append((v.note, v.model))
            # translator validation on a witness of the path
            if job.validate and res['validated'] < job.replays:
                names = E.variables(*([x for _, a, b in env.pairs for x in (a, b)] + [c for _, c in env.checks] + pc))
                pts = P.points(pc, doms, names, 1, hints)
                if pts:
                    ok, why = validate(job, env, pts[0], cex, pc)
                    if ok:
                        res['validated'] += 1
                        if len(res['samples']) < 2:
                            res['samples'].append(dict(job=job.id, inputs={k: str(v)[:24] for k, v in list(jsonable(pts[0]).items())[:12]},
                                                       obligations=[l for l in env.labels[:8]]))
                    elif ok is False:
                        res['notes'].append('translator validation: ' + why)
                        unknown.append(('translator validation: ' + why, None))
            res['notes'].extend(env.notes[:3])
            if len(cex) >= 4:
                break
    except S.PathLimit as e:
        res['limit'] = True
        unknown.append((str(e), None))
    except S.Unsupported as e:
        unknown.append(('unsupported: %s' % e, None))
    res['inputs'] = len(ninputs)
    # replay the counterexamples against the real code
    confirmed = None
    tried = 0
    for label, asgs, sched, detail, pc in cex:
        for asg in asgs[:7]:
            if asg is None:
                continue
            tried += 1
            try:
                fails, env = replay(job, asg, sched or None)
            except Exception as e:
                res['notes'].append('replay error: %r' % (e,))
                continue
            if fails:
                confirmed = dict(label=label, assignment=jsonable(asg), schedule=sched_json(sched),
                                 failures=[list(f) for f in fails[:5]], detail=detail[:1500])
                break
        if confirmed:
            break
        if job.finder is not None:
            got = job.finder(job, label, asgs[0] if asgs else {})
            if got:
                confirmed = dict(label=label, assignment=jsonable(asgs[0] if asgs else {}), schedule=None,
                                 failures=[list(g) for g in got[:5]], detail=detail[:1500], finder=True)
                break
    if not confirmed and unknown:
        # the encoding does not decide these paths; an input of such a path on
        # which the real code fails is a violation all the same
        for asgs, sched, pc in leads:
            for asg in asgs:
                try:
                    fails, env = replay(job, asg, sched or None)
                except Exception as e:
                    res['notes'].append('probe error: %r' % (e,))
                    continue
                if fails:
                    confirmed = dict(label=fails[0][0], assignment=jsonable(asg), schedule=sched_json(sched),
                                     failures=[list(f) for f in fails[:5]], detail=unknown[0][0][:1500])
                    break
            if confirmed:
                break
    if confirmed:
        res['status'] = 'violated'
        res['cex'] = confirmed
    elif cex:
        res['status'] = 'spurious'
        res['notes'].append('counterexample did not reproduce (%d replays): %s' % (tried, cex[0][3][-1200:]))
    elif unknown:
        res['status'] = 'unknown'
        res['notes'].append('undecided: ' + unknown[0][0])
    elif res['vacuous']:
        res['status'] = 'unknown'
        res['notes'].append('vacuous: no obligation was reached')
    if job.optional == 'strengthen' and res['status'] == 'violated' and not res['cex'].get('finder'):
        # an induction step over internal state may fail from states that no
        # history reaches: only a history from an initial state decides
        got = None
        if job.finder is not None:
            try:
                got = job.finder(job, res['cex']['label'], unjson(res['cex']['assignment']))
            except Exception as e:
                res['notes'].append('finder: %r' % (e,))
        if got:
            res['cex'].update(failures=[list(g) for g in got[:5]], finder=True)
    if job.optional == 'strengthen' and res['status'] == 'violated' and not res['cex'].get('finder'):
        res['notes'].append('induction step not established: %s' % (res.pop('cex')['failures'][:2],))
        res['status'] = 'unknown'
    res['ints'] = nints[0]
    res['wall'] = round(time.time() - t0, 2)
    res['solver'] = P.STATS.as_dict()
    return res


def schedules(env):
    out = {}
    for s in env.sessions:
        if isinstance(s, X.SymSession):
            for k, ch in enumerate(s.schedule_choices):
                if ch:
                    out[(s.sid, k)] = ch
    return out


POOL = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(2)]


def probes(pc, doms, names, hints):
    """Inputs that follow a path: generic ones, and ones with ties and special
    values (the solver completes what does not fit the path condition)."""
    out = P.points(pc, doms, names, 2, hints)
    names = dict(names)
    for a in pc:
        names.update(E.variables(a))
    smp = P.Sampler(pc, doms)
    for pool in (POOL, POOL[:2], POOL[1:2]):
        for attempt in range(3):
            env = {n: P.RNG.choice(pool) if nd.sort == E.R else smp.value(n, nd.sort) for n, nd in sorted(names.items())}
            if not all(E.evaluate(pc, env)):
                pins = [E.eq(nd, E.const(env[n])) for n, nd in names.items() if nd.sort == E.R and P.RNG.random() < 0.7]
                r, m = P.check(list(pc) + pins, timeout=2)
                if r != 'sat':
                    continue
                env = {n: m.get(n, env[n]) for n in names}
                if not all(E.evaluate(pc, env)):
                    continue
            out.append(env)
            break
    return out


def slices(pc, pairs, doms, job, hints, res):
    """Undecided in full generality: decide it on slices where a part of the
    inputs is fixed (a smaller, stated bound)."""
    roots = [x for p in pairs for x in p]
    names = E.variables(*(roots + pc))
    pts = P.points(pc, doms, names, 3, hints)
    done = 0
    for k, p in enumerate(pts):
        keys = sorted(n for n in names if names[n].sort == E.R)
        P.RNG.shuffle(keys)
        ok = False
        for frac in (0.5, 0.75, 0.9):
            fixed = keys[:int(len(keys) * frac)]
            m = {names[n]: E.const(Fraction(str(p[n])) if not isinstance(p[n], Fraction) else p[n]) for n in fixed}
            sub = E.substitute(roots + pc, m)
            prs = [(sub[2 * i], sub[2 * i + 1]) for i in range(len(pairs))]
            v = P.prove_equal(sub[len(roots):], prs, doms, timeout=8, ideal=job.ideal, budget=20)
            if v.status == 'cex':
                if v.model is not None:
                    full = dict(p)
                    full.update(v.model)
                    v.model = full
                return v
            if v.status == 'proved':
                ok = True
                break
        done += ok
    if pts and done == len(pts):
        res['notes'].append('REDUCED BOUND: an equality was decided only on %d slices with part of the inputs fixed' % done)
        res['reduced'] = res.get('reduced', 0) + 1
        return P.Verdict('proved', note='slices')
    return None


def disagreeing_points(pc, pairs, doms, names, job):
    out = []
    roots = [x for p in pairs for x in p]
    if job.ideal:
        roots = P.idealise(roots)
    for p in P.points(pc, doms, dict(names), 12):
        try:
            vals = E.evaluate(roots, p)
        except Exception:
            continue
        d = max(P.rel_diff(vals[i], vals[i + 1]) for i in range(0, len(vals), 2))
        if d > 1e-18:
            out.append((d, p))
    out.sort(key=lambda t: -t[0])
    return [p for _, p in out[:4]]


def sched_json(s):
    if not s:
        return None
    return [[list(k), [[list(map(str, a[:1])) + [repr(a[1])], list(map(str, b[:1])) + [repr(b[1])]] for a, b in v]] for k, v in s.items()]


def sched_unjson(j):
    if not j:
        return None
    import ast
    return {tuple(k): [((a[0], ast.literal_eval(a[1])), (b[0], ast.literal_eval(b[1]))) for a, b in v] for k, v in j}


def validate(job, env, point, cex, pc):
    """Run the real code at a witness and compare with the encoding."""
    try:
        fails, renv = replay(job, point)
    except X.Unsupported as e:
        return None, str(e)
    if fails is None:
        return None, 'assumption rounding'
    if fails:
        cex.append((fails[0][0], [point], None, 'found while validating the encoding: %s' % (fails[:3],), pc))
        return False, str(fails[:2])
    if not job.feed_noise:
        return True, ''          # real random numbers: values are not comparable
    for lab, lists in env.actuals.items():
        rl = renv.actuals.get(lab)
        if rl is None or len(rl) != len(lists):
            return False, 'label %s: %s values versus %s' % (lab, len(lists), rl and len(rl))
        for nodes, vals in zip(lists, rl):
            got = E.evaluate(nodes, point)
            for g, v in zip(got, vals):
                g = float(g)
                if g == v or math.isnan(g) and math.isnan(v):
                    continue
                if not abs(g - v) <= max(1e-4, job.rel_tol) * (renv.floor * 10 + max(abs(g), abs(v))):
                    return False, 'label %s: encoding %r, real code %r' % (lab, g, v)
    return True, ''


# ---------------------------------------------------------------------------
# running a whole check
# ---------------------------------------------------------------------------

def _child(job, conn):
    try:
        resource_limits()
        r = run_job(job)
    except BaseException as e:
        r = dict(job=job.id, status='dropped' if job.optional else 'error', notes=[traceback.format_exc()[-2500:]],
                 reduced=1 if job.optional else 0)
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(job=job.id, status='error', notes=['result not picklable: %r' % e]))
    conn.close()
    os._exit(0)


def resource_limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def run_jobs(jobs, workers=None, deadline=None):
    workers = workers or int(os.environ.get('SX_WORKERS', '7'))
    ctx = multiprocessing.get_context('fork')
    pending = list(jobs)
    running = []
    results = []
    stop = False
    while pending or running:
        while pending and len(running) < workers and not stop:
            job = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(job, b))
            p.start()
            b.close()
            running.append((p, a, job, time.time()))
        if stop and not running:
            break
        time.sleep(0.02)
        still = []
        for p, a, job, t in running:
            done = False
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(job=job.id, status='error', notes=['worker died'])
                done = True
            elif not p.is_alive():
                r = dict(job=job.id, status='dropped' if job.optional else 'error', notes=['worker died with %s' % p.exitcode],
                         reduced=1 if job.optional else 0)
                done = True
            elif time.time() - t > job.wall or (deadline and time.time() > deadline):
                p.kill()
                r = dict(job=job.id, status='dropped' if job.optional else 'unknown', notes=['job exceeded its %ds' % job.wall],
                         reduced=1 if job.optional else 0)
                done = True
            if done:
                p.join(5)
                a.close()
                results.append(r)
                if r['status'] == 'violated':
                    stop = True
            else:
                still.append((p, a, job, t))
        running = still
        if stop:
            for p, a, job, t in running:
                p.kill()
                p.join(5)
            running = []
            pending = []
    return results


def main(mod, argv):
    prop = mod.PROPERTY
    t0 = time.time()
    state.load(REPO)
    tier = TIER
    if '--replay' in argv:
        path = argv[argv.index('--replay') + 1]
        return replay_file(mod, path)
    jobs = all_jobs(mod, tier)
    if '--job' in argv:
        want = argv[argv.index('--job') + 1]
        jobs = [j for j in jobs if want in j.id]
    if '--inline' in argv:
        results = [run_job(j) for j in jobs]
    else:
        results = run_jobs(jobs, deadline=t0 + (780 if tier == 'quick' else 3 * 3600))
    violated = [r for r in results if r['status'] == 'violated']
    bad = [r for r in results if r['status'] in ('error', 'unknown', 'spurious')]
    known = load_known(prop)
    known_hits, new = [], []
    for r in violated:
        k = match_known(known, r)
        (known_hits if k else new).append((r, k))
    tot = collections.Counter()
    solver = collections.Counter()
    kinds = collections.Counter()
    samples = []
    for r in results:
        for k in ('paths', 'goals', 'decisions', 'ops', 'validated', 'runs', 'schedules', 'races'):
            tot[k] += r.get(k, 0) or 0
        for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_time_s', 'sweep_merges'):
            solver[k] += (r.get('solver') or {}).get(k, 0)
        kinds.update(r.get('opkinds') or {})
        samples.extend(r.get('samples') or [])
    cov = dict(
        states=int(tot['paths']), transitions=int(tot['ops'] + tot['decisions']),
        traces_validated_against_impl=int(tot['validated']),
        samples=samples[:6] or [dict(job=r['job'], status=r['status']) for r in results[:3]],
        meaning='states = symbolic paths (feasible by solver); transitions = graph ops and branch decisions '
                'evaluated symbolically; traces validated = solver/path witnesses replayed on the real code with equal results',
        functions_encoded=mod.FUNCTIONS, bounds=mod.BOUNDS, jobs=[dict(job=r['job'], status=r['status'], paths=r.get('paths'),
                                                                     goals=r.get('goals'), wall_s=r.get('wall'),
                                                                     notes=[n[-400:] for n in (r.get('notes') or [])[:3]]) for r in results],
        goals=int(tot['goals']), session_runs=int(tot['runs']), schedules_forked=int(tot['schedules']), unordered_accesses=int(tot['races']),
        solver=dict(name='z3 ' + P.z3.get_version_string(), **{k: (round(v, 3) if isinstance(v, float) else v) for k, v in solver.items()}),
        graph_ops_encoded=dict(kinds.most_common(80)),
        reduced_bounds=sum(r.get('reduced', 0) for r in results),
        stubs=getattr(mod, 'STUBS', []),
    )
    ev = dict(property=prop, tier=tier, seed=SEED, level='model_checking', coverage=cov,
              assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if '--job' not in argv:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for r, k in known_hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    code = 0
    if new:
        r = new[0][0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, job=r['job'], tier=tier, **r['cex']), f, indent=1)
        print('counterexample in %s: %s' % (r['job'], r['cex']['failures'][:3]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif bad:
        for r in bad[:3]:
            print('INCONCLUSIVE %s %s: %s' % (prop, r['job'], (r.get('notes') or ['?'])[-1][-900:]))
        code = 2
    print('%s %s: %d jobs, %d paths, %d goals, %d solver queries (%.1fs), %d validated runs, %.1fs'
          % (prop, {0: 'HOLDS within bounds', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[code], len(results), tot['paths'],
             tot['goals'], solver['queries'], solver['solver_time_s'], tot['validated'], time.time() - t0))
    return code


def load_known(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):]
                job, _, what = rest.partition(' | ')
                out.append(dict(job=job.strip(), what=what.strip()))
    return out


def match_known(known, r):
    for k in known:
        if k['job'] == r['job']:
            return k
    return None


def replay_file(mod, path):
    d = json.load(open(path))
    for tier in (d.get('tier', 'quick'), 'quick', 'thorough'):
        for job in all_jobs(mod, tier):
            if job.id == d['job']:
                if d.get('finder'):
                    got = job.finder(job, d['label'], unjson(d['assignment']))
                    print(got)
                    return 1 if got else 0
                fails, env = replay(job, unjson(d['assignment']), sched_unjson(d.get('schedule')))
                print('replayed %s on the real code: %s' % (job.id, fails))
                if getattr(env, 'tb', None):
                    print(env.tb)
                return 1 if fails else 0
    print('no such job', d['job'])
    return 2
