import numpy as np

from checks import diag as D  # noqa: F401  (stands in for pymc3)
from sx.harness import Job

PROPERTY = 'C30'
FUNCTIONS = ['diagnostics.sample_chains.PYSGMCMCTrace.' + n for n in ('__init__', '__getitem__', 'get_values', 'point', '__len__')]
BOUNDS = ('1..5 samples (thorough: 8), 9, 40, 1500 and 10050 samples, of 1..3 variables (12) of shapes (), (1,), (2,), (2,2); samples given as lists, tuples, arrays or single floats of three types; burn 0..N+1 and thin 1..N+1 '
          'symbolic, every index; every sampled value; variable names given or not')
ASSUMPTIONS = ['variable names are distinct']

# each name starts with the next one
NAMES = ['x_10:0', 'x_1', 'x_', 'x', 'b:0', 'a_2', 'z/w:0', 'a_10', 'w', 'c', 'y_1:0', 'a']


def near(names):
    """names close to, but different from, the given ones"""
    out = []
    for n in names:
        out += [n + ':0', n[:-2], n[:-1], n.split(':')[0], n.split('/')[-1], n.upper(), ' ' + n, n + ' ', n + '_0', n + '_1', '0' + n]
    return [u for k, u in enumerate(out) if u not in names and u not in out[:k]]


def trace_mod():
    import pysgmcmc.diagnostics.sample_chains as m
    return m


def recorded(env, n, shapes, form):
    """n samples and, per variable, its values in order"""
    values = [[env.array('s%d_v%d' % (t, v), sh) if sh != () else env.real('s%d_v%d' % (t, v)) for v, sh in enumerate(shapes)] for t in range(n)]
    if form == 'float32':
        # bare single precision numbers (fixed ones: they do not hold a symbolic value)
        values = [[0.25 * t - 0.5] for t in range(n)]
        return [np.float32(v[0]) for v in values], values
    if form == 'float64':
        return [np.float64(float(values[t][0])) for t in range(n)], values
    if form == 'float':
        return [float(values[t][0]) for t in range(n)], values
    if form == 'array':
        dt = object if env.symbolic else np.float64
        return [np.array(list(s), dtype=dt) for s in values], values
    if form == 'matrix':
        return np.array([list(s) for s in values], dtype=object if env.symbolic else np.float64), values
    if form == 'tuple':
        return [tuple(s) for s in values], values
    return [list(s) for s in values], values


def column(values, v, burn, thin):
    return [values[t][v] for t in range(burn, len(values), thin)]


def stacked(env, col, shape):
    out = np.empty((len(col),) + shape, dtype=object if env.symbolic else np.float64)
    for k, c in enumerate(col):
        out[k] = c
    return out


def same(env, label, got, col, shape):
    got = np.asarray(got)
    if not col:
        env.expect(label + ': nothing left', len(got) == 0)
        return
    env.equal(label, got, stacked(env, col, shape))


def lookup(env, n, shapes, form='list', named=True):
    m = trace_mod()
    samples, values = recorded(env, n, shapes, form)
    names = NAMES[:len(shapes)] if named else None
    chain = env.int('chain', 0, 9)
    tr = m.PYSGMCMCTrace(chain, samples, names) if named else m.PYSGMCMCTrace(chain, samples)
    want = NAMES[:len(shapes)] if named else [str(k) for k in range(len(shapes))]
    env.expect('names', list(tr.varnames) == want and tr.n_vars == len(shapes))
    env.equal('chain id', tr.chain, chain)
    env.expect('length', len(tr) == n)
    burn, thin = env.int('burn', 0, n + 1), env.int('thin', 1, n + 1)
    v = env.int('variable', 0, len(shapes) - 1)
    v = int(v)
    got = tr.get_values(want[v], burn=burn, thin=thin)
    same(env, 'values after burn and thin', got, column(values, v, int(burn), int(thin)), shapes[v])
    same(env, 'values by position', tr.get_values(want[v], burn, thin), column(values, v, int(burn), int(thin)), shapes[v])
    env.expect('length afterwards', len(tr) == n)


def whole(env, n, shapes, form='list', named=True):
    m = trace_mod()
    samples, values = recorded(env, n, shapes, form)
    names = list(NAMES[:len(shapes)]) if named else None
    tr = m.PYSGMCMCTrace(chain_id=0, samples=samples, varnames=names)
    want = NAMES[:len(shapes)] if named else [str(k) for k in range(len(shapes))]
    unknown = [u for u in ('nope', '', 'theta', 'x_10:00', 'X', 'x_1:0', 'x_', 'x', 'x_1', '_', '%d' % len(shapes), '-1', '0', '10', '00') if u not in want]
    unknown += [u for u in near(want) if u not in unknown]
    for r in range(2):
        for v, sh in enumerate(shapes):
            got = tr.get_values(want[v])
            same(env, 'by name, round %d' % r, got, column(values, v, 0, 1), sh)
            got[...] = 77.0      # the caller's own array
            same(env, 'by index, round %d' % r, tr[v], column(values, v, 0, 1), sh)
            tr.get_values(want[v], burn=1, thin=2)
        for t in range(n):
            for at in (t, t - n):
                p = tr.point(at)
                env.expect('point has one entry per variable', set(p) == set(want) and len(p) == len(want))
                for v, sh in enumerate(shapes):
                    same(env, 'point %d, round %d' % (t, r), [p[want[v]]], [values[t][v]], sh)
        for beyond in (n, n + 1, n + 7, -n - 1):
            try:
                tr.point(beyond)
                env.expect('no point for sample %d of %d' % (beyond, n), False)
            except IndexError:
                pass
        for name in unknown:
            try:
                tr.get_values(name)
                env.expect('unknown name %r raises ValueError' % name, False)
            except ValueError:
                pass
        env.expect('length', len(tr) == n)
    if names is not None:
        env.expect('names of the caller unchanged', names == NAMES[:len(shapes)])


def long_chain(env, n, burns, thins):
    m = trace_mod()
    a, b = env.real('a'), env.real('b')
    dt = object if env.symbolic else float
    values = np.array([[a + 3 * t, b - 2 * t] for t in range(n)], dtype=dt)
    tr = m.PYSGMCMCTrace(0, [list(v) for v in values], ['p', 'q'])
    env.expect('length', len(tr) == n)

    def match(label, got, want):
        """a few thousand terms at once: the differences that are not literally 0"""
        got = np.asarray(got, dtype=object).reshape(-1)
        if not env.expect(label + ': number', len(got) == len(want)):
            return
        total = 0.0
        for k in [k for k in range(len(want)) if got[k] is not want[k]][:60]:
            total = total + (got[k] - want[k]) * (got[k] - want[k])
        env.equal(label, total, 0.0)
        for k in (0, len(want) // 2, -1) if len(want) else ():
            env.equal('%s, at %d' % (label, k), got[k], want[k])
    for v, name in enumerate(('p', 'q')):
        match('by index', tr[v], values[:, v])
        for burn in burns:
            for thin in thins:
                match('burn %d, thin %d' % (burn, thin), tr.get_values(name, burn=burn, thin=thin), values[burn::thin, v])
    for t in (0, 1, n // 2, n - 2, n - 1, -1, -n):
        p = tr.point(t)
        env.equal('point %d' % t, [p['p'], p['q']], list(values[t]))


def jobs(tier):
    th = tier == 'thorough'
    out = []
    shapes = [((),), ((), ()), ((2,),), ((), (2, 2), (1,))] + ([((), (), (), ()), ((2, 1), (3,))] if th else [])
    for sh in shapes:
        for named in (True, False):
            for n in (1, 3, 5) + ((8,) if th else ()):
                out.append(Job('whole', whole, dict(n=n, shapes=sh, named=named)))
            out.append(Job('lookup', lookup, dict(n=5 if not th else 8, shapes=sh, named=named), max_paths=2000))
        out.append(Job('lookup', lookup, dict(n=2, shapes=sh)))
    for form in ('tuple', 'array', 'matrix'):
        out.append(Job('whole', whole, dict(n=3, shapes=((), ()), form=form)))
        out.append(Job('lookup', lookup, dict(n=4, shapes=((), ()), form=form)))
    for n in (1, 3):
        for named in (True, False):
            for form in ('float', 'float64', 'float32'):
                out.append(Job('whole', whole, dict(n=n, shapes=((),), form=form, named=named)))
    # long chains of many variables
    out.append(Job('whole', whole, dict(n=40, shapes=((), (2,)))))
    for named in (True, False):
        out.append(Job('whole', whole, dict(n=2, shapes=((),) * 12, named=named)))
    out.append(Job('long', long_chain, dict(n=1500, burns=(0, 1, 700, 1499, 1500), thins=(1, 2, 7, 1000))))
    out.append(Job('long', long_chain, dict(n=10050, burns=(0, 9000, 10049), thins=(1, 11, 10050))))
    out.append(Job('lookup', lookup, dict(n=9, shapes=((),)), max_paths=2000))
    out.append(Job('lookup', lookup, dict(n=4, shapes=((),), form='float')))
    return out
