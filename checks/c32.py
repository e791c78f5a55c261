import numpy as np

from checks.c30 import NAMES, recorded, stacked, trace_mod
from sx.harness import Job

PROPERTY = 'C32'
FUNCTIONS = ['diagnostics.sample_chains.PYSGMCMCTrace._slice', 'diagnostics.sample_chains.PYSGMCMCTrace.__init__',
             'diagnostics.sample_chains.PYSGMCMCTrace.get_values']
BOUNDS = ('1..4 samples (thorough: 6) of 1..4 variables of shapes (), (2,); slice start and stop -5..5 symbolic or absent, step absent, 1, 2, 3, -1, -2; selections that are not empty; '
          'samples given as lists, tuples or arrays; every sampled value')
ASSUMPTIONS = ['variable names are distinct', 'a slice selects at least one variable (a trace has at least one)']


def check_trace(env, label, tr, chain, names, values, shapes, idx):
    env.equal(label + ': chain id', tr.chain, chain)
    env.expect(label + ': length', len(tr) == len(values))
    if not env.expect(label + ': names', list(tr.varnames) == [names[v] for v in idx] and tr.n_vars == len(idx)):
        return
    for k, v in enumerate(idx):
        want = stacked(env, [s[v] for s in values], shapes[v])
        env.equal('%s: values of %s' % (label, names[v]), np.asarray(tr.get_values(names[v])), want)
        env.equal('%s: values at %d' % (label, k), np.asarray(tr[k]), want)
    for t in range(len(values)):
        p = tr.point(t)
        if env.expect(label + ': point', set(p) == set(names[v] for v in idx)):
            for v in idx:
                env.equal('%s: point %d' % (label, t), np.asarray(p[names[v]], dtype=object if env.symbolic else float),
                          stacked(env, [values[t][v]], shapes[v])[0])


def sliced(env, n, shapes, start, stop, step, form='list', named=True):
    m = trace_mod()
    samples, values = recorded(env, n, shapes, form)
    V = len(shapes)
    names = list(NAMES[:V]) if named else [str(k) for k in range(V)]
    chain = env.int('chain', 0, 9)
    tr = m.PYSGMCMCTrace(chain_id=chain, samples=samples, varnames=list(names) if named else None)
    a = env.int('start', -V - 1, V + 1) if start else None
    b = env.int('stop', -V - 1, V + 1) if stop else None
    s = slice(a, b, step)
    got = None
    idx = list(range(V))[slice(None if a is None else int(a), None if b is None else int(b), step)]
    env.assume(len(idx) > 0)
    got = tr._slice(s)
    check_trace(env, 'slice', got, chain, names, values, shapes, idx)
    check_trace(env, 'original', tr, chain, names, values, shapes, list(range(V)))
    # the slice of a slice
    if len(idx) > 1:
        check_trace(env, 'slice of the slice', got._slice(slice(1, None)), chain, names, values, shapes, idx[1:])
        check_trace(env, 'sliced once', got, chain, names, values, shapes, idx)


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for shapes in (((),), ((), ()), ((), (2,), ()), ((), (), (), ())):
        for start, stop in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for step in (None, 1, 2, -1) + ((3, -2) if th else ()):
                for n in (3,) + ((6,) if th else ()):
                    out.append(Job('slice', sliced, dict(n=n, shapes=shapes, start=start, stop=stop, step=step), max_paths=2000))
    for n in (1, 4):
        out.append(Job('slice', sliced, dict(n=n, shapes=((2,), (), ()), start=1, stop=1, step=None), max_paths=2000))
        out.append(Job('slice', sliced, dict(n=n, shapes=((2,), (), ()), start=1, stop=1, step=None, named=False), max_paths=2000))
    for form in ('tuple', 'array', 'matrix'):
        out.append(Job('slice', sliced, dict(n=2, shapes=((), (), ()), start=1, stop=1, step=None, form=form), max_paths=2000))
    return out
