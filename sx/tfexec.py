"""Symbolic executor for the TensorFlow graphs that the real code builds.

The GraphDef produced by running the real constructors is the intermediate
representation; every op is evaluated over object arrays of symbolic values
with the semantics of TF1 reference variables (aliasing reads), v1 control flow
(frames, dead tensors) and an explicit happens-before order of op instances.
"""
import collections
import itertools
import operator
from fractions import Fraction

import numpy as np
import tensorflow as tf

from sx import expr as E
from sx import sym as S
from sx.sym import SymReal, SymInt, SymBool, Unsupported, wrap, lift, sym_array, real


class _Dead(object):
    def __repr__(self): return 'DEAD'


DEAD = _Dead()


class Ref(object):
    """reference to (or alias of) a variable buffer"""
    __slots__ = ('var', 'shape')

    def __init__(self, var, shape=None):
        self.var, self.shape = var, shape


class Handle(object):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.items = {}
        self.list = []
        self.grads = {}
        self.size = None


class UninitializedError(Exception):
    pass


SYMCONST = {}      # (graph, tensor name) -> object array


def graph_key(t):
    return (id(t.graph), t.name)


def sym_tensor(value, dtype=None, shape=None, name=None):
    """A graph node that stands for a symbolic constant."""
    arr = np.asarray(value, dtype=object)
    if dtype is None:
        n = lift(arr.reshape(-1)[0])
        dtype = tf.float64 if n is not None and n.sort == E.R else tf.int32
    dtype = tf.as_dtype(dtype)
    with tf.name_scope(None):
        p = tf.placeholder(dtype, shape=arr.shape if shape is None else shape, name='symconst')
    if dtype.is_floating:
        arr = _map1(lambda x: SymReal(real(x)), arr)
    if shape is not None and tuple(arr.shape) != tuple(shape):
        arr = np.broadcast_to(arr, shape)
    KEEP.append(p.graph)
    SYMCONST[graph_key(p)] = arr
    return p


KEEP = []


def has_sym(v):
    if S.is_sym(v):
        return True
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(S.is_sym(x) for x in v.reshape(-1))
    if isinstance(v, (list, tuple)):
        return any(has_sym(x) for x in v)
    return False


def install(module=tf):
    """route tf.constant / tf.convert_to_tensor of symbolic values"""
    if getattr(module, '_sx_installed', False):
        return
    orig_const, orig_conv = module.constant, module.convert_to_tensor

    def constant(value, dtype=None, shape=None, name='Const', *a, **k):
        if has_sym(value):
            return sym_tensor(value, dtype, shape, name)
        if isinstance(value, float) and value in E.SENTINELS:
            return sym_tensor(wrap(E.SENTINELS[value]), dtype, shape, name)
        return orig_const(value, dtype, shape, name, *a, **k)

    def convert_to_tensor(value, dtype=None, *a, **k):
        if has_sym(value) and not any(isinstance(x, tf.Tensor) for x in _flat(value)):
            return sym_tensor(value, dtype)
        return orig_conv(value, dtype, *a, **k)
    module.constant = constant
    module.convert_to_tensor = convert_to_tensor
    module._sx_installed = True


def _flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            for y in _flat(x):
                yield y
    else:
        yield v


def _map1(f, a):
    out = np.empty(a.shape, dtype=object)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for i in range(fi.shape[0]):
        fo[i] = f(fi[i])
    return out


def _f1(fn):
    def g(a):
        return _map1(lambda x: wrap(fn(real(x))), a)
    return g


def _map2(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    fo, fa, fb = out.reshape(-1), a.reshape(-1), b.reshape(-1)
    for i in range(fo.shape[0]):
        fo[i] = f(fa[i], fb[i])
    return out


def _n(x):
    n = lift(x)
    if n is None:
        raise Unsupported('not a value: %r' % (x,))
    return n


def _f2(fn):
    return lambda a, b: _map2(lambda x, y: wrap(fn(_n(x), _n(y))), a, b)


def _o2(fn):
    return lambda a, b: _map2(fn, a, b)


def _ite(c, x, y):
    cn = S.b(c)
    if cn is E.TRUE:
        return x
    if cn is E.FALSE:
        return y
    return wrap(E.ite(cn, _n(x), _n(y)))


def arr(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def ints(a):
    """concrete integer array"""
    out = np.empty(a.shape, dtype=np.int64)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for i in range(fi.shape[0]):
        v = fi[i]
        if S.is_sym(v):
            v = int(v)
        fo[i] = v
    return out


def concrete(v):
    """object array -> numpy array when no symbolic element"""
    return not any(S.is_sym(x) and x.node.op not in ('const', 'bconst') for x in v.reshape(-1))


def to_numpy(v, dtype):
    out = np.empty(v.shape, dtype=dtype.as_numpy_dtype)
    fo, fi = out.reshape(-1), v.reshape(-1)
    for i in range(fi.shape[0]):
        x = fi[i]
        fo[i] = E.cval(x.node) if S.is_sym(x) else x
    return out


def cast(v, dst, src=None):
    if dst.is_floating:
        return _map1(lambda x: SymReal(real(x)), v)
    if dst.is_bool:
        return _map1(lambda x: wrap(S.b(x)), v)
    if dst.is_integer:
        def f(x):
            n = _n(x)
            if n.sort == E.R:
                n = E.ite(E.le(E.ZERO, n), E.floor(n), E.neg(E.floor(E.neg(n))))
            elif n.sort == E.B:
                n = E.ite(n, E.const(1), E.const(0))
            return wrap(n)
        return _map1(f, v)
    return v


def _reduce(v, axes, keep, f, init):
    axes = sorted(set(int(a) % max(v.ndim, 1) for a in np.atleast_1d(axes))) if v.ndim else []
    kept = [i for i in range(v.ndim) if i not in axes]
    t = np.transpose(v, kept + axes) if v.ndim else v
    kshape = tuple(v.shape[i] for i in kept)
    n = int(np.prod([v.shape[i] for i in axes], dtype=int)) if axes else 1
    t = t.reshape(kshape + (n,))
    out = np.empty(kshape, dtype=object)
    for ix in np.ndindex(*kshape):
        vals = list(t[ix])
        if not vals:
            out[ix] = init
            continue
        acc = vals[0]
        for x in vals[1:]:
            acc = f(acc, x)
        out[ix] = acc
    if keep:
        out = out.reshape(tuple(1 if i in axes else v.shape[i] for i in range(v.ndim)))
    return out


def _smax(x, y): return wrap(E.maximum(_n(x), _n(y)))
def _smin(x, y): return wrap(E.minimum(_n(x), _n(y)))


def _strided(op, ins):
    bm, em, elm = op.get_attr('begin_mask'), op.get_attr('end_mask'), op.get_attr('ellipsis_mask')
    nm, sm = op.get_attr('new_axis_mask'), op.get_attr('shrink_axis_mask')
    b, e, s = [list(ints(x)) for x in ins]
    return _spec(b, e, s, bm, em, elm, nm, sm)


def _spec(b, e, s, bm, em, elm, nm, sm):
    idx = []
    for i in range(len(b)):
        if elm >> i & 1:
            idx.append(Ellipsis)
        elif nm >> i & 1:
            idx.append(None)
        elif sm >> i & 1:
            idx.append(int(b[i]))
        else:
            idx.append(slice(None if bm >> i & 1 else int(b[i]),
                             None if em >> i & 1 else int(e[i]), int(s[i])))
    return tuple(idx)


def _as_obj(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if isinstance(x, np.ndarray):
        return sym_array(x)
    return arr(x)


def sort_desc(vals):
    """symbolic descending sort (odd-even transposition network)"""
    v = list(vals)
    n = len(v)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            v[i], v[i + 1] = _smax(v[i], v[i + 1]), _smin(v[i], v[i + 1])
    return v


def sort_pairs(vals):
    """symbolic stable descending sort with the positions"""
    v, w = list(vals), [E.const(k) for k in range(len(vals))]
    n = len(v)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            c = E.lt(_n(v[i]), _n(v[i + 1]))
            v[i], v[i + 1] = _ite(wrap(c), v[i + 1], v[i]), _ite(wrap(c), v[i], v[i + 1])
            w[i], w[i + 1] = E.ite(c, w[i + 1], w[i]), E.ite(c, w[i], w[i + 1])
    return v, [wrap(x) for x in w]


def _einsum(eq, ins):
    if isinstance(eq, bytes):
        eq = eq.decode()
    lhs, out = eq.replace(' ', '').split('->')
    terms = lhs.split(',')
    if '.' in eq:
        raise Unsupported('einsum ' + eq)
    size = {}
    for t, a in zip(terms, ins):
        for ch, d in zip(t, a.shape):
            size[ch] = d
    summed = sorted(set(lhs) - set(out) - {','})
    res = np.empty(tuple(size[c] for c in out), dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(out, ix))
        acc = SymReal(E.ZERO)
        for jx in np.ndindex(*[size[c] for c in summed]):
            env.update(zip(summed, jx))
            v = None
            for t, a in zip(terms, ins):
                x = a[tuple(env[c] for c in t)]
                v = x if v is None else v * x
            acc = acc + v
        res[ix] = acc
    return res


def _softplus(n):
    return E.log(E.add(E.ONE, E.exp(n)))


def _sigmoid(n):
    return E.div(E.ONE, E.add(E.ONE, E.exp(E.neg(n))))


def _div(a, b):
    return E.div(a, b)


def _powop(x, y):
    ny = _n(y)
    nx = _n(x)
    if ny.op == 'const':
        if nx.sort == E.I and ny.sort == E.I:
            return wrap(E.powc(nx, ny.val))
        return wrap(E.powc(E.toreal(nx), ny.val))
    return wrap(E.uf('pow', (E.toreal(nx), E.toreal(ny))))


def _rint(n):
    # round half to even
    f = E.toreal(E.floor(n))
    d = E.sub(n, f)
    half = E.const(Fraction(1, 2))
    even = E.eq(E.mul(E.const(2.0), E.toreal(E.floor(E.mul(half, f)))), f)
    return E.ite(E.or_(E.lt(half, d), E.and_(E.eq(d, half), E.not_(even))), E.add(f, E.ONE), f)


def _expm1(n):
    return E.sub(E.exp(n), E.ONE)


SIMPLE1 = {
    'Neg': lambda a: _map1(lambda x: wrap(E.neg(_n(x))), a),
    'Square': lambda a: _map1(lambda x: wrap(E.mul(_n(x), _n(x))), a),
    'Sqrt': _f1(E.sqrt), 'Exp': _f1(E.exp), 'Log': _f1(E.log),
    'Sin': _f1(E.sin), 'Cos': _f1(E.cos), 'Tanh': _f1(E.tanh),
    'Rsqrt': _f1(lambda n: E.div(E.ONE, E.sqrt(n))),
    'Log1p': _f1(lambda n: E.log(E.add(E.ONE, n))),
    'Expm1': _f1(_expm1),
    'Sigmoid': _f1(_sigmoid), 'Softplus': _f1(_softplus),
    'Reciprocal': _f1(lambda n: E.div(E.ONE, n)), 'Inv': _f1(lambda n: E.div(E.ONE, n)),
    'Abs': lambda a: _map1(lambda x: wrap(E.abs_(_n(x))), a),
    'Sign': lambda a: _map1(lambda x: wrap(E.sign(_n(x))), a),
    'Relu': _f1(lambda n: E.maximum(n, E.ZERO)),
    'Floor': _f1(lambda n: E.toreal(E.floor(n))),
    'Ceil': _f1(lambda n: E.toreal(E.neg(E.floor(E.neg(n))))),
    'LogicalNot': lambda a: _map1(lambda x: wrap(E.not_(S.b(x))), a),
    'IsFinite': lambda a: _map1(lambda x: _n(x).op != 'special', a),
    'IsNan': lambda a: _map1(lambda x: _n(x) is E.NAN, a),
    'IsInf': lambda a: _map1(lambda x: _n(x) in (E.INF, E.NINF), a),
    'Rint': _f1(lambda n: _rint(n)), 'Round': _f1(lambda n: _rint(n)),
    'Sinh': _f1(lambda n: E.mul(E.const(Fraction(1, 2)), E.sub(E.exp(n), E.exp(E.neg(n))))),
    'Cosh': _f1(lambda n: E.mul(E.const(Fraction(1, 2)), E.add(E.exp(n), E.exp(E.neg(n))))),
    'Tan': _f1(lambda n: E.div(E.sin(n), E.cos(n))),
    'Relu6': _f1(lambda n: E.minimum(E.maximum(n, E.ZERO), E.const(6.0))),
    'Elu': _f1(lambda n: E.ite(E.lt(n, E.ZERO), _expm1(n), n)),
    'Softsign': _f1(lambda n: E.div(n, E.add(E.ONE, E.abs_(n)))),
    'DeepCopy': lambda a: a, 'DebugGradientIdentity': lambda a: a, 'EnsureShape': lambda a: a,
    'StopGradient': lambda a: a, 'PreventGradient': lambda a: a, 'Snapshot': lambda a: a,
    'ZerosLike': lambda a: _map1(lambda x: wrap(E.const(0) if _n(x).sort == E.I else (E.FALSE if _n(x).sort == E.B else E.ZERO)), a),
    'OnesLike': lambda a: _map1(lambda x: wrap(E.const(1) if _n(x).sort == E.I else (E.TRUE if _n(x).sort == E.B else E.ONE)), a),
}

_cmp = lambda f: _f2(f)
SIMPLE2 = {
    'Add': _f2(E.add), 'AddV2': _f2(E.add), 'Sub': _f2(E.sub), 'Mul': _f2(E.mul),
    'RealDiv': _f2(_div), 'Div': None, 'FloorDiv': _o2(operator.floordiv), 'FloorMod': _o2(operator.mod),
    'Maximum': _f2(E.maximum), 'Minimum': _f2(E.minimum), 'Pow': _o2(_powop),
    'SquaredDifference': _f2(lambda a, b: E.mul(E.sub(a, b), E.sub(a, b))),
    'Less': _cmp(E.lt), 'LessEqual': _cmp(E.le),
    'Greater': _cmp(lambda a, b: E.lt(b, a)), 'GreaterEqual': _cmp(lambda a, b: E.le(b, a)),
    'Equal': _cmp(E.eq), 'NotEqual': _cmp(lambda a, b: E.not_(E.eq(a, b))),
    'LogicalAnd': _o2(lambda x, y: wrap(E.and_(S.b(x), S.b(y)))),
    'LogicalOr': _o2(lambda x, y: wrap(E.or_(S.b(x), S.b(y)))),
    'DivNoNan': _f2(lambda a, b: E.ite(E.eq(b, E.ZERO), E.ZERO, E.div(a, b))),
    'Xdivy': _f2(lambda a, b: E.ite(E.eq(a, E.ZERO), E.ZERO, E.div(a, b))),
    'MulNoNan': _f2(lambda a, b: E.ite(E.eq(b, E.ZERO), E.ZERO, E.mul(a, b))),
    'Xlogy': _f2(lambda a, b: E.ite(E.eq(a, E.ZERO), E.ZERO, E.mul(a, E.log(b)))),
    'Xlog1py': _f2(lambda a, b: E.ite(E.eq(a, E.ZERO), E.ZERO, E.mul(a, E.log(E.add(E.ONE, b))))),
    'LogicalXor': _o2(lambda x, y: wrap(E.not_(E.eq(S.b(x), S.b(y))))),
    'SoftplusGrad': _f2(lambda dy, x: E.mul(dy, _sigmoid(x))),
    'EluGrad': _f2(lambda dy, y: E.ite(E.lt(y, E.ZERO), E.mul(dy, E.add(y, E.ONE)), dy)),
    'Relu6Grad': _f2(lambda dy, x: E.ite(E.and_(E.lt(E.ZERO, x), E.lt(x, E.const(6.0))), dy, E.ZERO)),
    'SoftsignGrad': _f2(lambda dy, x: E.div(dy, E.mul(E.add(E.ONE, E.abs_(x)), E.add(E.ONE, E.abs_(x))))),
    'SqrtGrad': _f2(lambda y, dy: E.div(E.mul(dy, E.const(Fraction(1, 2))), y)),
    'RsqrtGrad': _f2(lambda y, dy: E.mul(E.const(Fraction(-1, 2)), E.mul(dy, E.mul(y, E.mul(y, y))))),
    'TanhGrad': _f2(lambda y, dy: E.mul(dy, E.sub(E.ONE, E.mul(y, y)))),
    'SigmoidGrad': _f2(lambda y, dy: E.mul(dy, E.mul(y, E.sub(E.ONE, y)))),
    'ReciprocalGrad': _f2(lambda y, dy: E.neg(E.mul(dy, E.mul(y, y)))),
    'InvGrad': _f2(lambda y, dy: E.neg(E.mul(dy, E.mul(y, y)))),
    'ReluGrad': _f2(lambda dy, x: E.ite(E.lt(E.ZERO, x), dy, E.ZERO)),
}
del SIMPLE2['Div']

ALIASING = {'Identity', 'RefIdentity', 'Reshape', 'Squeeze', 'ExpandDims', 'StopGradient', 'PreventGradient',
            'Switch', 'RefSwitch', 'Merge', 'RefMerge', 'Enter', 'RefEnter', 'Exit', 'RefExit',
            'NextIteration', 'RefNextIteration', 'Snapshot_'}

RANDOM = {'RandomStandardNormal', 'RandomUniform', 'TruncatedNormal', 'RandomUniformInt'}


class Access(object):
    __slots__ = ('inst', 'var', 'write')

    def __init__(self, inst, var, write):
        self.inst, self.var, self.write = inst, var, write


class RunRecord(object):
    """What one symbolic session.run did."""

    def __init__(self):
        self.ops = collections.Counter()
        self.random = []      # (opname, key, count, array)
        self.conflicts = []
        self.divs = []        # (opname, denominator array)
        self.sqrts = []       # (opname, arg array)
        self.logs = []
        self.order = []
        self.fetch_names = []


_sid = itertools.count()


class SymSession(tf.Session):
    """tf.Session whose run() interprets the graph symbolically."""

    all_runs = None  # set to a list to collect RunRecords globally

    def __init__(self, target='', graph=None, config=None, explore_schedules=False, havoc_init=False):
        super(SymSession, self).__init__(target, graph=graph)
        self.vars = {}
        self.inits = {}
        self.rand_counts = collections.Counter()
        self.sid = next(_sid)
        self.runs = []
        self.explore_schedules = explore_schedules
        self.forced = []
        self.nsched = 0
        self.schedule_choices = []

    # -- variables ---------------------------------------------------------
    @staticmethod
    def _vname(v):
        if isinstance(v, str):
            return v
        return v.op.name

    def get_var(self, v):
        return self.vars.get(self._vname(v))

    def set_var(self, v, value):
        name = self._vname(v)
        a = np.asarray(value, dtype=object)
        self.vars[name] = _map1(lambda x: SymReal(real(x)), a)
        self.inits[name] = True

    def is_init(self, name):
        return self.inits.get(name, False)

    # -- running -----------------------------------------------------------
    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        graph = self.graph
        flat = []

        def build(f):
            if isinstance(f, (list, tuple)):
                parts = [build(x) for x in f]
                if hasattr(f, '_fields'):
                    return lambda vals: type(f)(*[p(vals) for p in parts])
                t = tuple if isinstance(f, tuple) else list
                return lambda vals: t([p(vals) for p in parts])
            if isinstance(f, dict):
                ks = list(f.keys())
                parts = [build(f[k]) for k in ks]
                return lambda vals: {k: p(vals) for k, p in zip(ks, parts)}
            el = graph.as_graph_element(f, allow_tensor=True, allow_operation=True)
            i = len(flat)
            flat.append(el)
            if isinstance(el, tf.Operation):
                return lambda vals: None
            return lambda vals: vals[i]
        if fetches is None:
            raise TypeError('Argument `fetches` = None has invalid type')
        rebuild = build(fetches)
        feeds = {}
        for k, v in (feed_dict or {}).items():
            t = graph.as_graph_element(k, allow_tensor=True, allow_operation=False)
            a = v
            if isinstance(a, tf.Tensor):
                raise TypeError('The value of a feed cannot be a tf.Tensor object.')
            a = np.asarray(a, dtype=object) if has_sym(a) or isinstance(a, (list, tuple)) else np.asarray(a)
            a = _as_obj(a) if a.dtype != object else a
            if not t.get_shape().is_compatible_with(a.shape):
                raise ValueError('Cannot feed value of shape %r for Tensor %s with shape %s'
                                 % (a.shape, t.name, t.get_shape()))
            if t.dtype.base_dtype.is_floating:
                a = _map1(lambda x: SymReal(real(x)), a)
            feeds[t.name] = a
        snapshot = (dict(self.vars), dict(self.inits), self.rand_counts.copy())
        edges = []
        choices = []
        while True:
            ex = Executor(self, flat, feeds, edges)
            vals = ex.execute()
            conf = ex.conflicts()
            ex.rec.conflicts = conf
            if not conf or not self.explore_schedules:
                break
            a, b = conf[0]
            self.nsched += 1
            v = E.var('sched!%d!%d' % (len(self.runs), self.nsched), E.B)
            first = S.ctx().branch(v)
            edges = edges + [(a, b) if first else (b, a)]
            choices.append(edges[-1])
            self.vars, self.inits, self.rand_counts = dict(snapshot[0]), dict(snapshot[1]), snapshot[2].copy()
        ex.rec.schedule = choices
        self.schedule_choices.append(choices)
        self.runs.append(ex.rec)
        if SymSession.all_runs is not None:
            SymSession.all_runs.append(ex.rec)
        out = []
        for el, v in zip(flat, vals):
            if isinstance(el, tf.Operation):
                out.append(None)
                continue
            dt = el.dtype.base_dtype
            if not dt.is_floating and concrete(v):
                v = to_numpy(v, dt)
            if v.ndim == 0:
                v = v[()]
            elif isinstance(v, np.ndarray):
                v = v.copy()
            out.append(v)
        return rebuild(out)


def closure(fetch_ops, feeds):
    """ops needed for the fetches, cut at the feeds"""
    need, stack = {}, list(fetch_ops)
    while stack:
        op = stack.pop()
        if op.name in need:
            continue
        need[op.name] = op
        for t in op.inputs:
            if t.name not in feeds:
                stack.append(t.op)
        for c in op.control_inputs:
            stack.append(c)
    return need


class Executor(object):
    def __init__(self, sess, fetches, feeds, edges):
        self.s, self.fetches, self.feeds = sess, fetches, feeds
        self.rec = RunRecord()
        self.edges = edges
        self.accesses = []
        self.preds = []        # inst index -> bitmask of ancestors (including itself)
        self.names = []

    def execute(self):
        s = self.s
        fops = []
        for el in self.fetches:
            if isinstance(el, tf.Operation):
                fops.append(el)
            elif el.name not in self.feeds:
                fops.append(el.op)
        need = closure(fops, self.feeds)
        order = {n: i for i, n in enumerate(sorted(need, key=lambda n: need[n]._id))}
        self.consumers = collections.defaultdict(list)   # op name -> [(consumer op, slot or None, out idx)]
        nin = {}
        for n, op in need.items():
            cnt = 0
            for slot, t in enumerate(op.inputs):
                if t.name in self.feeds:
                    continue
                self.consumers[t.op.name].append((op, slot, t.value_index))
                cnt += 1
            for c in set(op.control_inputs):
                self.consumers[c.name].append((op, None, None))
                cnt += 1
            nin[n] = cnt
        self.need, self.nin = need, nin
        self.state = {}      # (op name, tag) -> dict
        self.ready = []
        self.results = {}
        self.enter_const = collections.defaultdict(list)   # frame tag -> [(op, outs)] loop invariants
        self.iters_started = collections.defaultdict(set)
        root = ()
        for n in sorted(need, key=lambda n: order[n]):
            if nin[n] == 0:
                self.ready.append((n, root))
        self.order = order
        self.done = set()
        blocked = collections.defaultdict(set)
        for a, b in self.edges:
            blocked[b].add(a)
        for n, tag in list(self.ready):
            self._state(n, tag)
        steps = 0
        while self.ready:
            pick = None
            for k, inst in enumerate(self.ready):
                if not (blocked.get(inst, ()) and any(x not in self.done for x in blocked[inst])):
                    pick = k
                    break
            if pick is None:
                pick = 0       # predecessor never runs (dead): release
            inst = self.ready.pop(pick)
            self._exec(*inst)
            self.done.add(inst)
            steps += 1
            if steps > 200000:
                raise Unsupported('too many op instances')
        out = []
        for k, el in enumerate(self.fetches):
            if isinstance(el, tf.Operation):
                out.append(None)
                continue
            if el.name in self.feeds:
                out.append(self.feeds[el.name])
                continue
            v, idx = self.results.get(el.name, (None, None))
            if v is None or v is DEAD:
                raise Unsupported('fetch %s was not computed' % el.name)
            i = self._new_inst(('_ret%d' % k, ()), 0)
            self.preds[i] |= self.preds[idx]
            out.append(self._deref(v, i))
        return out

    def _new_inst(self, inst, mask):
        i = len(self.preds)
        self.names.append(inst)
        self.preds.append(mask | (1 << i))
        return i

    def _state(self, n, tag):
        key = (n, tag)
        st = self.state.get(key)
        if st is None:
            st = {'in': {}, 'got': 0, 'mask': 0, 'dead': False, 'live_ctrl': 0, 'fired': False, 'deadin': 0}
            self.state[key] = st
        return st

    def _deref(self, v, i):
        if isinstance(v, Ref):
            self.accesses.append(Access(i, v.var, False))
            cur = self.s.vars.get(v.var)
            init = self.s.is_init(v.var)
            if init is not True and not (S.is_sym(init)):
                raise UninitializedError('Attempting to use uninitialized value ' + v.var)
            if cur is None:
                raise UninitializedError('Attempting to use uninitialized value ' + v.var)
            return cur.reshape(v.shape) if v.shape is not None else cur
        return v

    def _deliver(self, op, outs, i, tag):
        """send outputs of op instance to consumers in the iteration `tag`"""
        for t, v in zip(op.outputs, outs):
            self.results[t.name] = (v, i)
        self._send(op, outs, i, tag)

    def _send(self, op, outs, i, tag):
        alldead = bool(outs) and all(o is DEAD for o in outs) or (not outs and False)
        for cons, slot, oi in self.consumers[op.name]:
            st = self._state(cons.name, tag)
            if st['fired']:
                continue
            st['mask'] |= self.preds[i]
            if slot is None:
                st['got'] += 1
                if self._op_dead.get((op.name, tag)):
                    st['dead'] = True
                    st['ctrl_dead'] = True
            else:
                v = outs[oi]
                if cons.type in ('Merge', 'RefMerge'):
                    st['got'] += 1
                    if v is DEAD:
                        st['deadin'] += 1
                    else:
                        st['in'][slot] = v
                else:
                    st['in'][slot] = v
                    st['got'] += 1
                    if v is DEAD:
                        st['dead'] = True
            self._maybe_ready(cons, tag, st)

    _op_dead = None

    def _maybe_ready(self, op, tag, st):
        n = op.name
        if st['fired']:
            return
        if op.type in ('Merge', 'RefMerge'):
            nctrl = len(set(op.control_inputs))
            ndata = self.nin[n] - nctrl
            if st['in']:
                # live input: control inputs must be there too
                got_ctrl = st['got'] - st['deadin'] - len(st['in'])
                if got_ctrl >= nctrl or nctrl == 0:
                    st['fired'] = True
                    self.ready.append((n, tag))
            else:
                back = sum(1 for t in op.inputs if t.op.type in ('NextIteration', 'RefNextIteration'))
                if st['deadin'] >= ndata - (back if not tag or tag[-1][1] == 0 else 0) and st['deadin'] > 0:
                    st['fired'] = True
                    st['dead'] = True
                    self.ready.append((n, tag))
            return
        if st['got'] >= self.nin[n]:
            st['fired'] = True
            self.ready.append((n, tag))

    def _exec(self, n, tag):
        if self._op_dead is None:
            self._op_dead = {}
        op = self.need[n]
        st = self._state(n, tag)
        st['fired'] = True
        i = self._new_inst((n, tag), st['mask'])
        ins = []
        for slot, t in enumerate(op.inputs):
            if t.name in self.feeds:
                ins.append(self.feeds[t.name])
            else:
                ins.append(st['in'].get(slot))
        typ = op.type
        dead = st['dead']
        if typ in ('Enter', 'RefEnter'):
            frame = op.get_attr('frame_name')
            newtag = tag + ((frame, 0),)
            v = DEAD if dead else ins[0]
            self.rec.ops[typ] += 1
            for t in op.outputs:
                self.results[t.name] = (v, i)
            self._op_dead[(n, newtag)] = dead
            if op.get_attr('is_constant'):
                self.enter_const[tag + (frame,)].append((op, [v], i))
                for it in list(self.iters_started[tag + (frame,)]):
                    self._op_dead[(n, tag + ((frame, it),))] = dead
                    if it != 0:
                        self._send(op, [v], i, tag + ((frame, it),))
            self._start_iter(tag, frame, 0)
            self._send(op, [v], i, newtag)
            return
        if typ in ('Exit', 'RefExit'):
            if dead:
                self._op_dead[(n, tag)] = True
                # a dead exit is only propagated when the loop never ran live
                # for this frame; loop bodies kill exits in all but the last
                # iteration, so dead exits are dropped
                return
            self.rec.ops[typ] += 1
            for t in op.outputs:
                self.results[t.name] = (ins[0], i)
            self._op_dead[(n, tag[:-1])] = False
            self._send(op, [ins[0]], i, tag[:-1])
            return
        if typ in ('NextIteration', 'RefNextIteration'):
            if dead:
                return
            self.rec.ops[typ] += 1
            frame, it = tag[-1]
            newtag = tag[:-1] + ((frame, it + 1),)
            for t in op.outputs:
                self.results[t.name] = (ins[0], i)
            self._op_dead[(n, newtag)] = False
            self._start_iter(tag[:-1], frame, it + 1)
            self._send(op, [ins[0]], i, newtag)
            return
        if dead and typ not in ('Merge', 'RefMerge') or (dead and typ in ('Merge', 'RefMerge')):
            self._op_dead[(n, tag)] = True
            self._deliver_dead(op, i, tag)
            return
        self._op_dead[(n, tag)] = False
        self.rec.ops[typ] += 1
        outs = self._compute(op, typ, ins, i, st)
        self._deliver(op, outs, i, tag)

    def _deliver_dead(self, op, i, tag):
        outs = [DEAD] * len(op.outputs)
        for t in op.outputs:
            self.results.setdefault(t.name, (DEAD, i))
        self._send(op, outs, i, tag)

    def _start_iter(self, parent, frame, it):
        key = parent + (frame,)
        if it in self.iters_started[key]:
            return
        self.iters_started[key].add(it)
        tag = parent + ((frame, it),)
        if it > 0:
            for op, outs, i in self.enter_const[key]:
                self._op_dead[(op.name, tag)] = outs[0] is DEAD
                self._send(op, outs, i, tag)

    # -- happens-before conflicts ------------------------------------------
    def conflicts(self):
        byvar = collections.defaultdict(list)
        for a in self.accesses:
            byvar[a.var].append(a)
        out = []
        seen = set()
        for v, acc in byvar.items():
            ws = [a for a in acc if a.write]
            for w in ws:
                for a in acc:
                    if a.inst == w.inst:
                        continue
                    lo, hi = sorted((a.inst, w.inst))
                    if self.preds[hi] >> lo & 1:
                        continue
                    key = (self.names[lo], self.names[hi])
                    if key in seen or self._ordered_by_edges(lo, hi):
                        continue
                    if self.names[hi][0].startswith('_ret') or self.names[lo][0].startswith('_ret'):
                        continue
                    seen.add(key)
                    out.append(key)
        return out

    def _ordered_by_edges(self, lo, hi):
        # reachability using forced edges on top of happens-before
        idx = {n: k for k, n in enumerate(self.names)}
        mask = self.preds[hi]
        changed = True
        used = set()
        while changed:
            changed = False
            for a, b in self.edges:
                if (a, b) in used or a not in idx or b not in idx:
                    continue
                if mask >> idx[b] & 1:
                    mask |= self.preds[idx[a]]
                    used.add((a, b))
                    changed = True
        return bool(mask >> lo & 1)

    # -- op semantics --------------------------------------------------------
    def _compute(self, op, typ, ins, i, st):
        s = self.s
        # ops that treat inputs as references
        if typ in ('Identity', 'RefIdentity'):
            return [ins[0]]
        if typ in ('Merge', 'RefMerge'):
            slot = min(st['in'])
            return [st['in'][slot], arr(slot)]
        if typ in ('Switch', 'RefSwitch'):
            pred = self._deref(ins[1], i)[()]
            p = bool(pred)
            return [DEAD, ins[0]] if p else [ins[0], DEAD]
        if typ in ('VariableV2', 'Variable', 'TemporaryVariable'):
            return [Ref(op.name)]
        if typ in ('IsVariableInitialized',):
            v = ins[0].var
            return [arr(self.s.is_init(v))]
        if typ in ('Assign', 'AssignAdd', 'AssignSub'):
            v = ins[0].var
            val = self._deref(ins[1], i)
            if typ != 'Assign':
                self.accesses.append(Access(i, v, False))
                old = self._deref(ins[0], i)
                val = (SIMPLE2['AddV2'] if typ == 'AssignAdd' else SIMPLE2['Sub'])(old, val)
                if val.shape != old.shape:
                    raise ValueError('shape mismatch in %s' % typ)
            self.accesses.append(Access(i, v, True))
            s.vars[v] = val.copy()
            s.inits[v] = True
            return [Ref(v)]
        if typ in ('Reshape', 'Squeeze', 'ExpandDims') and isinstance(ins[0], Ref):
            cur = s.vars.get(ins[0].var)
            if cur is None:
                raise UninitializedError('Attempting to use uninitialized value ' + ins[0].var)
            base = cur.reshape(ins[0].shape) if ins[0].shape is not None else cur
            rest = [self._deref(x, i) for x in ins[1:]]
            out = self._shape_op(op, typ, [base] + rest)
            return [Ref(ins[0].var, out.shape)]
        # resource variables
        if typ == 'VarHandleOp':
            return [Handle('var', op.name)]
        if typ == 'ReadVariableOp':
            r = Ref(ins[0].name)
            return [self._deref(r, i)]
        if typ == 'VarIsInitializedOp':
            return [arr(s.is_init(ins[0].name))]
        if typ in ('AssignVariableOp', 'AssignAddVariableOp', 'AssignSubVariableOp'):
            v = ins[0].name
            val = self._deref(ins[1], i)
            if typ != 'AssignVariableOp':
                old = self._deref(Ref(v), i)
                val = (SIMPLE2['AddV2'] if 'Add' in typ else SIMPLE2['Sub'])(old, val)
            self.accesses.append(Access(i, v, True))
            s.vars[v] = val.copy()
            s.inits[v] = True
            return []
        ins = [self._deref(x, i) for x in ins]
        return self._pure(op, typ, ins)

    def _shape_op(self, op, typ, ins):
        a = ins[0]
        if typ == 'Reshape':
            return a.reshape(tuple(int(x) for x in ints(ins[1]).reshape(-1)))
        if typ == 'ExpandDims':
            return np.expand_dims(a, int(ints(ins[1]).reshape(-1)[0]))
        dims = list(op.get_attr('squeeze_dims'))
        if not dims:
            return a.reshape(tuple(d for d in a.shape if d != 1))
        return np.squeeze(a, axis=tuple(d % a.ndim for d in dims))

    def _pure(self, op, typ, ins):
        s = self.s
        if typ in SIMPLE1:
            if typ == 'Sqrt' or typ == 'Rsqrt':
                self.rec.sqrts.append((op.name, ins[0]))
                if typ == 'Rsqrt':
                    self.rec.divs.append((op.name, ins[0]))
            elif typ == 'Log':
                self.rec.logs.append((op.name, ins[0]))
            elif typ in ('Reciprocal', 'Inv'):
                self.rec.divs.append((op.name, ins[0]))
            return [SIMPLE1[typ](ins[0])]
        if typ in SIMPLE2:
            if typ == 'RealDiv':
                self.rec.divs.append((op.name, ins[1]))
            if typ == 'SqrtGrad':
                self.rec.divs.append((op.name, ins[0]))
            return [SIMPLE2[typ](ins[0], ins[1])]
        if typ == 'Const':
            return [sym_array(tf.make_ndarray(op.get_attr('value')))]
        if typ == 'Placeholder':
            key = (id(op.graph), op.outputs[0].name)
            if key in SYMCONST:
                return [SYMCONST[key]]
            raise tf.errors.InvalidArgumentError(None, op, 'You must feed a value for placeholder tensor %r' % op.name)
        if typ == 'PlaceholderWithDefault':
            return [ins[0]]
        if typ in ('NoOp', 'ControlTrigger', 'Assert', 'Print'):
            return [] if typ != 'Print' else [ins[0]]
        if typ == 'IdentityN':
            return list(ins)
        if typ == 'LoopCond':
            return [ins[0]]
        if typ == 'CheckNumerics':
            return [ins[0]]
        if typ in ('Reshape', 'Squeeze', 'ExpandDims'):
            return [self._shape_op(op, typ, ins)]
        if typ == 'Cast':
            return [cast(ins[0], op.outputs[0].dtype.base_dtype)]
        if typ in RANDOM:
            return [self._random(op, typ, ins)]
        if typ == 'Fill':
            shape = tuple(int(x) for x in ints(ins[0]).reshape(-1))
            out = np.empty(shape, dtype=object)
            out[...] = ins[1][()]
            return [out]
        if typ in ('Sum', 'Mean', 'Prod', 'Max', 'Min', 'All', 'Any'):
            a = ins[0]
            axes = ints(ins[1]).reshape(-1)
            keep = op.get_attr('keep_dims')
            isf = op.outputs[0].dtype.base_dtype.is_floating
            zero = SymReal(E.ZERO) if isf else 0
            one = SymReal(E.ONE) if isf else 1
            if typ in ('Sum', 'Mean'):
                r = _reduce(a, axes, keep, operator.add, zero)
                if typ == 'Mean':
                    k = 1
                    for x in sorted(set(int(x) % max(a.ndim, 1) for x in axes)):
                        k *= a.shape[x]
                    r = _map1(lambda x: wrap(E.div(real(x), E.const(Fraction(k)))) if k else SymReal(E.NAN), r)
                return [r]
            if typ == 'Prod':
                return [_reduce(a, axes, keep, operator.mul, one)]
            if typ == 'Max':
                return [_reduce(a, axes, keep, _smax, SymReal(E.NINF))]
            if typ == 'Min':
                return [_reduce(a, axes, keep, _smin, SymReal(E.INF))]
            if typ == 'All':
                return [_reduce(a, axes, keep, lambda x, y: wrap(E.and_(S.b(x), S.b(y))), True)]
            return [_reduce(a, axes, keep, lambda x, y: wrap(E.or_(S.b(x), S.b(y))), False)]
        if typ == 'MatMul' or typ in ('BatchMatMul', 'BatchMatMulV2'):
            a, b = ins
            if typ == 'MatMul':
                if op.get_attr('transpose_a'):
                    a = a.T
                if op.get_attr('transpose_b'):
                    b = b.T
            else:
                if op.get_attr('adj_x'):
                    a = np.swapaxes(a, -1, -2)
                if op.get_attr('adj_y'):
                    b = np.swapaxes(b, -1, -2)
            if a.shape[-1] != b.shape[-2]:
                raise ValueError('matmul shapes')
            if a.ndim == 2:
                out = np.empty((a.shape[0], b.shape[1]), dtype=object)
                for x in range(a.shape[0]):
                    for y in range(b.shape[1]):
                        acc = SymReal(E.ZERO)
                        for z in range(a.shape[1]):
                            acc = acc + a[x, z] * b[z, y]
                        out[x, y] = acc
                return [out]
            return [np.matmul(a, b)]
        if typ in ('Select', 'SelectV2'):
            c, x, y = ins
            if typ == 'Select' and c.ndim == 1 and x.ndim > 1:
                c = c.reshape(c.shape + (1,) * (x.ndim - 1))
            c, x, y = np.broadcast_arrays(c, x, y)
            out = np.empty(x.shape, dtype=object)
            fo, fc, fx, fy = out.reshape(-1), c.reshape(-1), x.reshape(-1), y.reshape(-1)
            for k in range(fo.shape[0]):
                fo[k] = _ite(fc[k], fx[k], fy[k])
            return [out]
        if typ == 'ClipByValue':
            return [SIMPLE2['Maximum'](SIMPLE2['Minimum'](ins[0], ins[2]), ins[1])]
        if typ == 'AddN':
            acc = ins[0]
            for x in ins[1:]:
                acc = SIMPLE2['AddV2'](acc, x)
            return [acc]
        if typ == 'AccumulateNV2':
            acc = ins[0]
            for x in ins[1:]:
                acc = SIMPLE2['AddV2'](acc, x)
            return [acc]
        if typ == 'BiasAdd':
            return [SIMPLE2['AddV2'](ins[0], ins[1])]
        if typ == 'BiasAddGrad':
            a = ins[0]
            return [_reduce(a, list(range(a.ndim - 1)), False, operator.add, SymReal(E.ZERO))]
        if typ == 'EuclideanNorm':
            sq = _map1(lambda x: wrap(E.mul(_n(x), _n(x))), ins[0])
            return [SIMPLE1['Sqrt'](_reduce(sq, ints(ins[1]).reshape(-1), op.get_attr('keep_dims'), operator.add, SymReal(E.ZERO)))]
        if typ == 'Einsum':
            return [_einsum(op.get_attr('equation'), ins)]
        if typ == 'LogSoftmax':
            t = _reduce(SIMPLE1['Exp'](ins[0]), [ins[0].ndim - 1], True, operator.add, SymReal(E.ZERO))
            return [SIMPLE2['Sub'](ins[0], SIMPLE1['Log'](t))]
        if typ in ('SegmentSum', 'UnsortedSegmentSum'):
            ix = ints(ins[1])
            n = int(ints(ins[2])[()]) if typ == 'UnsortedSegmentSum' else (int(ix.max()) + 1 if ix.size else 0)
            rest = ins[0].shape[ix.ndim:]
            out = np.empty((n,) + rest, dtype=object)
            out[...] = SymReal(E.ZERO) if op.outputs[0].dtype.is_floating else 0
            fl = ins[0].reshape((-1,) + rest)
            for k, j in enumerate(ix.reshape(-1)):
                if j >= 0:
                    out[j] = out[j] + fl[k]
            return [out]
        if typ == 'Roll':
            return [np.roll(ins[0], [int(x) for x in ints(ins[1]).reshape(-1)], axis=[int(x) for x in ints(ins[2]).reshape(-1)])]
        if typ == 'PadV2':
            pads = ints(ins[1])
            out = np.empty(tuple(d + int(p[0]) + int(p[1]) for d, p in zip(ins[0].shape, pads)), dtype=object)
            out[...] = ins[2][()]
            out[tuple(slice(int(p[0]), int(p[0]) + d) for d, p in zip(ins[0].shape, pads))] = ins[0]
            return [out]
        if typ in ('TensorScatterUpdate', 'TensorScatterAdd', 'TensorScatterSub'):
            ix, up = ints(ins[1]), ins[2]
            out = ins[0].copy()
            for jx in np.ndindex(*ix.shape[:-1]):
                k = tuple(int(x) for x in ix[jx])
                out[k] = up[jx] if typ == 'TensorScatterUpdate' else out[k] + up[jx] if typ == 'TensorScatterAdd' else out[k] - up[jx]
            return [out]
        if typ == 'LinSpace':
            a, z, n = ins[0][()], ins[1][()], int(ints(ins[2])[()])
            out = np.empty((n,), dtype=object)
            for k in range(n):
                out[k] = a + (z - a) * Fraction(k, max(n - 1, 1))
            return [out]
        if typ == 'L2Loss':
            tot = SymReal(E.ZERO)
            for x in ins[0].reshape(-1):
                tot = tot + x * x
            return [arr(tot * Fraction(1, 2))]
        if typ == 'Pack':
            return [np.stack(ins, axis=op.get_attr('axis'))]
        if typ == 'Unpack':
            ax = op.get_attr('axis')
            return [_as_obj(np.take(ins[0], k, axis=ax)) for k in range(op.get_attr('num'))]
        if typ in ('ConcatV2',):
            return [np.concatenate(ins[:-1], axis=int(ints(ins[-1]).reshape(-1)[0]))]
        if typ == 'Tile':
            return [np.tile(ins[0], [int(x) for x in ints(ins[1])])]
        if typ == 'Shape' or typ == 'ShapeN':
            return [sym_array(np.asarray(x.shape, dtype=np.int64)) for x in ins]
        if typ == 'Size':
            return [arr(int(np.prod(ins[0].shape, dtype=int)))]
        if typ == 'Rank':
            return [arr(ins[0].ndim)]
        if typ == 'Transpose':
            return [np.transpose(ins[0], [int(x) for x in ints(ins[1])])]
        if typ == 'InvertPermutation':
            p = ints(ins[0])
            return [sym_array(np.argsort(p))]
        if typ == 'Range':
            lim = [x[()] for x in ins]
            if op.outputs[0].dtype.is_integer:
                st, li, de = [int(x) for x in lim]
                return [sym_array(np.arange(st, li, de))]
            raise Unsupported('float range')
        if typ == 'StridedSlice':
            idx = _strided(op, ins[1:4])
            return [_as_obj(ins[0][idx])]
        if typ == 'StridedSliceGrad':
            shape = tuple(int(x) for x in ints(ins[0]))
            out = np.empty(shape, dtype=object)
            out[...] = SymReal(E.ZERO)
            idx = _strided(op, ins[1:4])
            out[idx] = ins[4] if ins[4].ndim else ins[4][()]
            return [out]
        if typ == 'Slice':
            b, sz = ints(ins[1]), ints(ins[2])
            idx = tuple(slice(int(x), None if z < 0 else int(x + z)) for x, z in zip(b, sz))
            return [ins[0][idx]]
        if typ == 'Pad':
            pads = ints(ins[1])
            out = np.empty(tuple(d + int(p[0]) + int(p[1]) for d, p in zip(ins[0].shape, pads)), dtype=object)
            out[...] = SymReal(E.ZERO)
            out[tuple(slice(int(p[0]), int(p[0]) + d) for d, p in zip(ins[0].shape, pads))] = ins[0]
            return [out]
        if typ in ('Gather', 'GatherV2'):
            ax = int(ints(ins[2]).reshape(-1)[0]) if typ == 'GatherV2' else 0
            return [_as_obj(np.take(ins[0], ints(ins[1]), axis=ax))]
        if typ == 'GatherNd':
            ix = ints(ins[1])
            return [_as_obj(ins[0][tuple(np.moveaxis(ix, -1, 0))])]
        if typ in ('DynamicStitch', 'ParallelDynamicStitch'):
            n = op.get_attr('N')
            idx, data = ins[:n], ins[n:]
            pairs = {}
            for ix, da in zip(idx, data):
                ix = ints(ix)
                rest = da.shape[ix.ndim:]
                fl = da.reshape((-1,) + rest) if ix.size else da.reshape((0,) + rest)
                for k, j in enumerate(ix.reshape(-1)):
                    pairs[int(j)] = fl[k]
            m = max(pairs) + 1 if pairs else 0
            rest = data[0].shape[idx[0].ndim:]
            out = np.empty((m,) + rest, dtype=object)
            out[...] = SymReal(E.ZERO) if op.outputs[0].dtype.is_floating else 0
            for j, v in pairs.items():
                out[j] = v
            return [out]
        if typ == 'BroadcastGradientArgs':
            sa, sb = [list(ints(x)) for x in ins]
            n = max(len(sa), len(sb))
            pa, pb = [1] * (n - len(sa)) + sa, [1] * (n - len(sb)) + sb
            ra = [k for k in range(n) if pa[k] == 1 and (pb[k] != 1 or k < n - len(sa))]
            rb = [k for k in range(n) if pb[k] == 1 and (pa[k] != 1 or k < n - len(sb))]
            return [sym_array(np.asarray(ra, dtype=np.int32)), sym_array(np.asarray(rb, dtype=np.int32))]
        if typ == 'BroadcastTo':
            return [np.broadcast_to(ins[0], tuple(int(x) for x in ints(ins[1]))).copy()]
        if typ == 'BroadcastArgs':
            sh = np.broadcast_shapes(tuple(ints(ins[0])), tuple(ints(ins[1])))
            return [sym_array(np.asarray(sh, dtype=np.int64))]
        if typ == 'ConcatOffset':
            ax = int(ints(ins[0]).reshape(-1)[0])
            off = 0
            outs = []
            for sh in ins[1:]:
                sh = list(ints(sh))
                o = [0] * len(sh)
                o[ax] = off
                off += int(sh[ax])
                outs.append(sym_array(np.asarray(o, dtype=np.int64)))
            return outs
        if typ in ('TopKV2', 'TopK'):
            a = ins[0]
            k = int(ints(ins[1]).reshape(-1)[0]) if typ == 'TopKV2' else op.get_attr('k')
            out = np.empty(a.shape[:-1] + (k,), dtype=object)
            if k > a.shape[-1]:
                raise ValueError('input must have at least k columns')
            if any(k == 1 for _, _, k in self.consumers[op.name]) or any(el is op.outputs[1] for el in self.fetches):
                pos = np.empty(out.shape, dtype=object)
                for ix in np.ndindex(*a.shape[:-1]):
                    v, w = sort_pairs(list(a[ix]))
                    out[ix], pos[ix] = v[:k], w[:k]
                return [out, pos]
            if not op.get_attr('sorted') and k == a.shape[-1]:
                return [a, None]       # the order is unspecified: any order may be assumed
            for ix in np.ndindex(*a.shape[:-1]):
                out[ix] = sort_desc(list(a[ix]))[:k]
            return [out, None]
        if typ in ('ReverseV2',):
            return [np.flip(ins[0], axis=tuple(int(x) for x in ints(ins[1])))]
        if typ == 'Split':
            return [np.ascontiguousarray(x) if False else x for x in
                    np.split(ins[1], op.get_attr('num_split'), axis=int(ints(ins[0]).reshape(-1)[0]))]
        if typ == 'SplitV':
            sizes = ints(ins[1])
            return list(np.split(ins[0], np.cumsum(sizes)[:-1], axis=int(ints(ins[2]).reshape(-1)[0])))
        if typ in ('ArgMin', 'ArgMax'):
            a = ins[0]
            ax = int(ints(ins[1]).reshape(-1)[0])
            t = np.moveaxis(a, ax, -1)
            out = np.empty(t.shape[:-1], dtype=object)
            for ix in np.ndindex(*t.shape[:-1]):
                best, bi = t[ix][0], E.const(0)
                for k in range(1, t.shape[-1]):
                    c = E.lt(_n(t[ix][k]), _n(best)) if typ == 'ArgMin' else E.lt(_n(best), _n(t[ix][k]))
                    bi = E.ite(c, E.const(k), bi)
                    best = _ite(wrap(c), t[ix][k], best)
                out[ix] = wrap(bi)
            return [out]
        if typ in ('Cumsum', 'Cumprod'):
            ax = int(ints(ins[1]).reshape(-1)[0])
            a = np.moveaxis(ins[0], ax, 0)
            if op.get_attr('reverse'):
                a = a[::-1]
            out = np.empty(a.shape, dtype=object)
            neutral = (SymReal(E.ZERO) if typ == 'Cumsum' else SymReal(E.ONE)) if op.outputs[0].dtype.is_floating else int(typ == 'Cumprod')
            acc = np.empty(a.shape[1:], dtype=object)
            acc[...] = neutral
            for k in range(a.shape[0]):
                new = acc + a[k] if typ == 'Cumsum' else acc * a[k]
                out[k] = acc if op.get_attr('exclusive') else new
                acc = _as_obj(new)
            if op.get_attr('reverse'):
                out = out[::-1]
            return [np.moveaxis(out, 0, ax)]
        if typ in ('MatrixDiagV2', 'MatrixDiagV3'):
            if any(int(x) for x in ints(ins[1]).reshape(-1)):
                raise Unsupported('diagonal other than the main one')
            typ = 'MatrixDiag'
        if typ in ('Diag', 'MatrixDiag'):
            a = ins[0]
            out = np.empty(a.shape + (a.shape[-1],), dtype=object)
            out[...] = SymReal(E.ZERO)
            for k in range(a.shape[-1]):
                out[..., k, k] = a[..., k]
            return [out]
        if typ in ('MatrixDiagPart', 'DiagPart', 'MatrixDiagPartV3', 'MatrixDiagPartV2'):
            a = ins[0]
            m = min(a.shape[-2:])
            return [np.stack([a[..., k, k] for k in range(m)], axis=-1)]
        if typ in ('MatrixBandPart',):
            lo, hi = int(ints(ins[1])[()]), int(ints(ins[2])[()])
            a = ins[0].copy()
            for r in range(a.shape[-2]):
                for c in range(a.shape[-1]):
                    if (lo >= 0 and r - c > lo) or (hi >= 0 and c - r > hi):
                        a[..., r, c] = SymReal(E.ZERO)
            return [a]
        if typ in ('MatrixSetDiag', 'MatrixSetDiagV3', 'MatrixSetDiagV2'):
            a = ins[0].copy()
            for k in range(min(a.shape[-2:])):
                a[..., k, k] = ins[1][..., k]
            return [a]
        if typ == 'OneHot':
            ix, depth = ints(ins[0]), int(ints(ins[1])[()])
            out = np.empty(ix.shape + (depth,), dtype=object)
            for jx in np.ndindex(*ix.shape):
                for k in range(depth):
                    out[jx + (k,)] = ins[2][()] if ix[jx] == k else ins[3][()]
            return [out]
        if typ == 'ScatterNd':
            ix, up = ints(ins[0]), ins[1]
            out = np.empty(tuple(int(x) for x in ints(ins[2])), dtype=object)
            out[...] = SymReal(E.ZERO)
            for jx in np.ndindex(*ix.shape[:-1]):
                k = tuple(int(x) for x in ix[jx])
                out[k] = out[k] + up[jx]
            return [out]
        if typ in ('Softmax',):
            e = SIMPLE1['Exp'](ins[0])
            t = _reduce(e, [e.ndim - 1], True, operator.add, SymReal(E.ZERO))
            return [SIMPLE2['RealDiv'](e, t)]
        if typ.startswith('TensorArray'):
            return self._tensor_array(op, typ, ins)
        if typ == 'StackV2':
            return [Handle('stack', op.name)]
        if typ == 'StackPushV2':
            ins[0].list.append(ins[1])
            return [ins[1]]
        if typ == 'StackPopV2':
            return [ins[0].list.pop()]
        if typ == 'StackCloseV2':
            return []
        return self._fallback(op, typ, ins)

    def _tensor_array(self, op, typ, ins):
        if typ == 'TensorArrayV3':
            h = Handle('ta', op.name)
            h.size = int(ints(ins[0])[()])
            return [h, arr(SymReal(E.ZERO))]
        h = ins[0]
        if typ == 'TensorArrayGradV3':
            src = op.get_attr('source')
            if not isinstance(src, str):
                src = src.decode()
            if src not in h.grads:
                g = Handle('tagrad', op.name)
                g.size = h.size
                g.template = h
                h.grads[src] = g
            return [h.grads[src], ins[1]]
        if typ == 'TensorArrayWriteV3':
            k = int(ints(ins[1])[()])
            if h.kind == 'tagrad' and k in h.items:
                h.items[k] = SIMPLE2['AddV2'](h.items[k], ins[2])
            else:
                h.items[k] = ins[2]
            return [ins[3]]
        if typ == 'TensorArrayReadV3':
            k = int(ints(ins[1])[()])
            return [self._ta_item(h, k)]
        if typ == 'TensorArrayGatherV3':
            ks = ints(ins[1]).reshape(-1)
            return [np.stack([self._ta_item(h, int(k)) for k in ks], axis=0)]
        if typ == 'TensorArrayScatterV3':
            for j, k in enumerate(ints(ins[1]).reshape(-1)):
                k = int(k)
                v = _as_obj(ins[2][j])
                if h.kind == 'tagrad' and k in h.items:
                    v = SIMPLE2['AddV2'](h.items[k], v)
                h.items[k] = v
            return [ins[3]]
        if typ == 'TensorArraySizeV3':
            return [arr(h.size)]
        if typ == 'TensorArrayCloseV3':
            return []
        raise Unsupported(typ)

    def _ta_item(self, h, k):
        if k in h.items:
            return h.items[k]
        if h.kind == 'tagrad' and k in h.template.items:
            return SIMPLE1['ZerosLike'](h.template.items[k])
        raise Unsupported('reading unwritten tensor array element')

    def _random(self, op, typ, ins):
        s = self.s
        shape = tuple(int(x) for x in ints(ins[0]).reshape(-1))
        seed, seed2 = op.get_attr('seed'), op.get_attr('seed2')
        cnt = s.rand_counts[op.name]
        s.rand_counts[op.name] += 1
        if seed or seed2:
            key = '%s_s%d_%d' % (typ, seed, seed2)
        else:
            key = '%s_u%d_%s' % (typ, s.sid, op.name)
        out = np.empty(shape, dtype=object)
        flat = out.reshape(-1)
        for k in range(flat.shape[0]):
            flat[k] = SymReal(E.var('rnd:%s:%d:%d' % (key, cnt, k)))
            if typ == 'RandomUniform' and S.CTX is not None:
                n = flat[k].node
                S.CTX.assume(E.and_(E.le(E.ZERO, n), E.lt(n, E.ONE)))
        self.rec.random.append((op.name, key, cnt, out))
        return out

    def _fallback(self, op, typ, ins):
        if all(isinstance(x, np.ndarray) and concrete(x) for x in ins):
            # concrete inputs: let TensorFlow itself compute it
            g = tf.Graph()
            with g.as_default():
                cs = [tf.constant(to_numpy(x, t.dtype.base_dtype)) for x, t in zip(ins, op.inputs)]
                nd = op.node_def
                o = g.create_op(typ, cs, [t.dtype for t in op.outputs], attrs={k: v for k, v in nd.attr.items()})
                with tf.Session.__new__(tf.Session) if False else _RealSession(graph=g) as rs:
                    vals = rs.run(list(o.outputs))
            return [sym_array(np.asarray(v)) for v in vals]
        raise Unsupported('op %s (%s)' % (typ, op.name))


_RealSession = tf.Session
