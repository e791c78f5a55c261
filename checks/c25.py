import numpy as np

from sx.harness import Job

PROPERTY = 'C25'
FUNCTIONS = ['models.base_model.zero_mean_unit_var_normalization', 'models.base_model.zero_mean_unit_var_unnormalization',
             'models.base_model.zero_one_normalization', 'models.base_model.zero_one_unnormalization']
BOUNDS = ('data of shape (1..4,), (1..3, 1) and (1..2, 2) (thorough: up to (5,), (4, 2), (3, 3)), every real value, constant columns included; up to 10 rows (16) of any distinct values in two layouts each; '
          'data of type int64, int32 (fixed values) and float32; passed-in statistics: any reals, std and range non-zero, scalar or per column, both or one of them')
ASSUMPTIONS = ['real arithmetic instead of floating point: rounding, overflow and underflow of squares are outside the claim']


def mean_std(env, col):
    n = len(col)
    m = sum(col) / n
    v = sum((x - m) * (x - m) for x in col) / n
    return m, v


def columns(x):
    x = np.asarray(x, dtype=object)
    return [list(x)] if x.ndim == 1 else [list(x[:, k]) for k in range(x.shape[1])]


def constant(env, col):
    return env.all(*[c == col[0] for c in col])


def eq_all(env, label, a, b):
    env.equal(label, np.asarray(a, dtype=object if env.symbolic else float), np.asarray(b, dtype=object if env.symbolic else float))


def split_constant(env, col):
    """fork on whether the column is constant"""
    return bool(constant(env, col))


def ordered(env, shape, layout):
    """many rows: every column lies in one of several orders, its distinct values are arbitrary"""
    import random
    n = shape[0]
    x = np.empty(shape, dtype=object if env.symbolic else np.float64)
    for k in range(int(np.prod(shape[1:], dtype=int))):
        vals = [env.real('low%d' % k)]
        for i in range(1, n):
            vals.append(vals[-1] + env.real('gap%d_%d' % (k, i), 'pos'))
        order = list(range(n))
        random.Random(layout + k).shuffle(order)
        for i, j in enumerate(order):
            x[(i, k)[:len(shape)]] = vals[j]
    return x


def standard(env, shape, layout=None):
    from pysgmcmc.models.base_model import zero_mean_unit_var_normalization as norm, zero_mean_unit_var_unnormalization as undo
    x = env.array('x', shape) if layout is None else ordered(env, shape, layout)
    keep = np.array(x, copy=True)
    const = [split_constant(env, c) for c in columns(x)]
    z, mean, std = norm(x)
    if not env.expect('shape', np.shape(z) == shape):
        return
    for k, (c, zc) in enumerate(zip(columns(keep), columns(z))):
        env.check('column %d is finite' % k, env.defined(*zc))
        if const[k]:
            env.equal('constant column %d is mapped to 0' % k, np.array(zc), np.array([0.0] * len(zc)))
        else:
            m, v = mean_std(env, zc)
            env.equal('mean of column %d' % k, m, 0.0)
            env.equal('variance of column %d' % k, v, 1.0)
    env.equal('data unchanged', x, keep)
    env.equal('undone', undo(z, mean, std), keep)
    z2, mean2, std2 = norm(keep, mean, std)
    env.equal('same statistics, same result', z2, z)


def minmax(env, shape, layout=None):
    from pysgmcmc.models.base_model import zero_one_normalization as norm, zero_one_unnormalization as undo
    x = env.array('x', shape) if layout is None else ordered(env, shape, layout)
    keep = np.array(x, copy=True)
    const = [split_constant(env, c) for c in columns(x)]
    z, lower, upper = norm(x)
    if not env.expect('shape', np.shape(z) == shape):
        return
    for k, (c, zc) in enumerate(zip(columns(keep), columns(z))):
        env.check('column %d is finite' % k, env.defined(*zc))
        if const[k]:
            env.equal('constant column %d is mapped to 0' % k, np.array(zc), np.array([0.0] * len(zc)))
        else:
            tol = 0 if env.symbolic else 1e-12
            env.check('column %d lies in [0, 1]' % k, env.all(*[env.all(v >= -tol, v <= 1 + tol) for v in zc]))
            env.check('0 and 1 are attained in column %d' % k, env.all(env.any(*[abs(v) <= tol for v in zc]), env.any(*[abs(v - 1) <= tol for v in zc])))
    env.equal('data unchanged', x, keep)
    env.equal('undone', undo(z, lower, upper), keep)
    z2, l2, u2 = norm(keep, lower, upper)
    env.equal('same statistics, same result', z2, z)


def given(env, kind, shape, per_column, which, layout=None):
    from pysgmcmc.models import base_model as m
    x = env.array('x', shape) if layout is None else ordered(env, shape, layout)
    keep = np.array(x, copy=True)
    d = shape[1:]
    stat = lambda name, dom='real': env.array(name, d) if per_column and d else env.real(name)
    a, b = stat('a'), stat('b')
    flat = lambda v: list(np.asarray(v, dtype=object).reshape(-1))
    keep_stats = [np.array(v, copy=True) for v in (a, b)]
    if kind == 'standard':
        for s in flat(b):
            env.assume(s > 0)
        kw = dict(mean=a) if which == 'first' else dict(std=b) if which == 'second' else dict(mean=a, std=b)
        z, ra, rb = m.zero_mean_unit_var_normalization(x, **kw)
        if 'mean' in kw:
            eq_all(env, 'the given mean is returned', ra, a)
        if 'std' in kw:
            eq_all(env, 'the given deviation is returned', rb, b)
        want = (keep - ra) / rb
        env.equal('scaled by the given statistics', z, want)
        env.equal('undone', m.zero_mean_unit_var_unnormalization(z, ra, rb), keep)
        if which != 'both':
            cols = columns(keep)
            other = flat(ra) if which == 'second' else flat(rb)
            for k, c in enumerate(cols):
                mm, v = mean_std(env, c)
                if which == 'second':
                    env.equal('mean of column %d from the data' % k, other[k], mm)
                elif not constant(env, c):
                    env.equal('deviation of column %d from the data' % k, other[k] * other[k], v)
    else:
        if which == 'both':
            for lo, up in zip(flat(a), flat(b)):
                env.assume(up > lo)
        kw = dict(lower=a) if which == 'first' else dict(upper=b) if which == 'second' else dict(lower=a, upper=b)
        if which != 'both':
            # the range is not zero
            for k, c in enumerate(columns(keep)):
                s = (flat(a) if which == 'first' else flat(b))
                s = s[k if len(s) > 1 else 0]
                env.assume(env.all(*[v > s if which == 'first' else v < s for v in c]))
        z, ra, rb = m.zero_one_normalization(x, **kw)
        if 'lower' in kw:
            eq_all(env, 'the given lower bounds are returned', ra, a)
        if 'upper' in kw:
            eq_all(env, 'the given upper bounds are returned', rb, b)
        if which != 'both':
            other = flat(ra) if which == 'second' else flat(rb)
            for k, c in enumerate(columns(keep)):
                env.check('the other bound of column %d is attained' % k, env.any(*[v == other[k] for v in c]))
                env.check('the other bound of column %d bounds it' % k, env.all(*[v >= other[k] if which == 'second' else v <= other[k] for v in c]))
        env.equal('scaled by the returned bounds', z, (keep - ra) / (rb - ra))
        env.equal('undone', m.zero_one_unnormalization(z, ra, rb), keep)

    env.equal('data unchanged', x, keep)
    for v, w in zip((a, b), keep_stats):
        eq_all(env, 'statistics unchanged', v, w)


def integers(env, kind, dtype, given):
    """data of an integer or narrower type; statistics are not cut to that type"""
    from pysgmcmc.models import base_model as m
    x = np.array([[1, 7], [2, 7], [4, 9]]).astype(dtype)
    rows = [[float(v) for v in r] for r in x.tolist()]
    cols = list(zip(*rows))
    if kind == 'standard':
        norm, undo = m.zero_mean_unit_var_normalization, m.zero_mean_unit_var_unnormalization
        a = [sum(c) / 3 for c in cols]
        b = [(sum((v - k) ** 2 for v in c) / 3) ** 0.5 for c, k in zip(cols, a)]
    else:
        norm, undo = m.zero_one_normalization, m.zero_one_unnormalization
        a, b = [min(c) for c in cols], [max(c) for c in cols]
    if given:
        a = [env.real('a0'), env.real('a1')]
        b = [a[0] + env.real('b0', 'pos'), a[1] + env.real('b1', 'pos')] if kind != 'standard' else [env.real('b0', 'pos'), env.real('b1', 'pos')]
        dt = object if env.symbolic else float
        z, p, q = norm(x, np.array(a, dtype=dt), np.array(b, dtype=dt))
    else:
        r = env.real('r')
        env.check('reached', r == r)
        z, p, q = norm(x)
    eq_all(env, 'first statistic', p, a)
    eq_all(env, 'second statistic', q, b)
    scale = b if kind == 'standard' else [v - u for u, v in zip(a, b)]
    eq_all(env, 'normalised', z, [[(v - a[k]) / scale[k] for k, v in enumerate(r)] for r in rows])
    eq_all(env, 'undone', undo(z, p, q), rows)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    shapes = [(1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1)]
    if th:
        shapes += [(3, 2), (5,), (4, 2), (3, 3)]
    for shape in shapes:
        out.append(Job('standard', standard, dict(shape=shape), max_paths=3000, wall=300 if not th else 3000))
        out.append(Job('minmax', minmax, dict(shape=shape), max_paths=3000, wall=300 if not th else 3000))
    for shape in [(7,), (6, 2), (10,)] + ([(8, 2), (12,), (16,)] if th else []):
        for layout in (1, 2):
            out.append(Job('standard', standard, dict(shape=shape, layout=layout), max_paths=3000, wall=300 if not th else 3000))
            out.append(Job('minmax', minmax, dict(shape=shape, layout=layout), max_paths=3000, wall=300 if not th else 3000))
    for kind in ('standard', 'minmax'):
        for shape in [(1,), (3,), (1, 2), (2, 2), (3, 1)]:
            for per in ((False, True) if len(shape) == 2 else (False,)):
                for which in (('both', 'first', 'second') if per or len(shape) == 1 else ('both',)):
                    out.append(Job('given', given, dict(kind=kind, shape=shape, per_column=per, which=which)))
        for which in ('both', 'first', 'second'):
            out.append(Job('given', given, dict(kind=kind, shape=(7,), per_column=False, which=which, layout=1)))
    for kind in ('standard', 'minmax'):
        for dtype in ('int64', 'int32', 'float32'):
            # fixed data are computed with in their own precision
            for g in (False, True) if dtype != 'float32' else (True,):
                out.append(Job('types', integers, dict(kind=kind, dtype=dtype, given=g), rel_tol=1e-6 if dtype != 'float32' else 1e-3))
    return out
