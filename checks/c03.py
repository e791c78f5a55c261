import itertools

import numpy as np

from checks import batches as B
from sx import expr as E
from sx import prove as P
from sx import rng
from sx import stubs
from sx import sym as S
from sx import harness as H
from sx.harness import Job

PROPERTY = 'C03'
FUNCTIONS = ['data_batches.generate_batches', 'data_batches.generate_shuffled_batches']
BOUNDS = ('windows: datasets of 1..4 rows, every batch size 1..N+1 (symbolic), first 2 draws (shuffled: first), reachability of every window after every history, '
          'by solver-feasible paths; range: a dataset of any length N <= 4096 (and of five given sizes), any batch size, first draw, "for all N, b, s there is a draw with window s" '
          'as a quantified linear-integer query')
ASSUMPTIONS = ['numpy.random is external: randint(lo, hi) can return each integer in [lo, hi); distinct draws of one stream are unrelated']
STUBS = ['numpy.random.RandomState and global functions (sx/rng.py)']

NMAX = 4096


def one(env, shuffled, N, draws, b, seed):
    """windows of the first draws"""
    px, py = B.placeholders()
    if env is None or not env.symbolic:
        x, y = np.arange(2.0 * N).reshape(N, 2), -1.0 - np.arange(N)
    else:
        x, y = B.dataset(env, N)
    X = B.rows(x)
    gen = B.generator(shuffled)(x=x, y=y, x_placeholder=px, y_placeholder=py, batch_size=b, seed=seed)
    out = []
    for t in range(draws):
        batch = next(gen)
        k = B.rows(np.asarray(batch[px], dtype=object))
        st = [s for s in range(N - len(k) + 1) if sorted(map(str, X[s:s + len(k)])) == sorted(map(str, k))]
        out.append(st[0] if st else None)
    return tuple(out)


def windows(env, shuffled, N, draws):
    """real code and real random numbers: which windows occur"""
    b = int(env.value('batch_size', 1))
    seen = set(one(None, shuffled, N, draws, b, seed) for seed in range(4000))
    for t in itertools.product(range(N - min(b, N) + 1), repeat=draws):
        if t not in seen:
            env.fail('windows %s are never drawn (batch size %d, %d datapoints, seeds 0..3999)' % (t, b, N))
            break


def reach(job, res):
    cfg = job.cfg
    N, draws = cfg['N'], cfg['draws']
    seen = {}
    stray = []

    def fn(path):
        env = path.env = H.SymEnv(path)
        stubs.enter_symbolic(env)
        try:
            with env.patched(), rng.world(env):
                b = env.int('batch_size', 1, N + 1)
                got = one(env, cfg['shuffled'], N, draws, b, 0)
                return int(b), got
        finally:
            stubs.leave_symbolic()
    for path, out, exc in S.explore(fn, job.max_paths):
        res['paths'] += 1
        res['decisions'] += len(path.decisions)
        if exc is not None:
            raise exc
        seen.setdefault(out[0], set()).add(out[1])
    res['goals'] += len(seen)
    bad = []
    for b in range(1, N + 2):
        want = set(itertools.product(range(N - min(b, N) + 1), repeat=draws))
        missing = sorted(want - seen.get(b, set()), key=str)
        res['goals'] += len(want)
        if missing:
            bad.append(('windows %s cannot be drawn' % (missing[:2],), dict(batch_size=b)))
    res['samples'].append(dict(job=job.id, windows={str(b): len(v) for b, v in seen.items()}))
    return bad


def range_query(job, res):
    """for all N, batch size and window s <= N - b there is a draw with start s"""
    size = job.cfg.get('size')
    import z3
    from pysgmcmc import data_batches
    paths = []

    def fn(path):
        env = path.env = H.SymEnv(path)
        stubs.enter_symbolic(env)
        try:
            with env.patched(), rng.world(env):
                px, py = B.placeholders()
                N, b = size or (env.int('N', 1, NMAX), env.int('batch_size', 1))
                x, y = B.Rows('x', 0, N, (2,)), B.Rows('y', 0, N, ())
                gen = B.generator(job.cfg['shuffled'])(x=x, y=y, x_placeholder=px, y_placeholder=py, batch_size=b, seed=0)
                return S.lift(next(gen)[px].start)
        finally:
            stubs.leave_symbolic()
    for path, out, exc in S.explore(fn, job.max_paths):
        res['paths'] += 1
        if exc is not None:
            raise exc
        paths.append((list(path.pc), out))
    s = E.var('s', E.I)
    N, b = [E.const(k) for k in size] if size else (E.var('N', E.I), E.var('batch_size', E.I))
    valid = [E.le(N, E.const(NMAX)), E.le(E.const(1), N), E.le(E.const(1), b), E.le(E.const(0), s), E.le(s, E.sub(N, E.minimum(b, N)))]
    alts = [E.and_(*(pc + [E.eq(st, s)])) for pc, st in paths]
    names = E.variables(*alts)
    draws = [P.LOW.term(n) for k, n in names.items() if k.startswith('rng:')]
    body = z3.Or([P.LOW.term(a) for a in alts])
    body = z3.Exists(draws, body) if draws else body
    sol = z3.Solver()
    sol.set('timeout', 20000)
    for v in valid:
        sol.add(P.LOW.term(v))
    sol.add(z3.Not(body))
    r = sol.check()
    P.STATS.queries += 1
    res['goals'] += 1
    if r == z3.unsat:
        P.STATS.unsat += 1
        return []
    if r == z3.sat:
        m = sol.model()
        v = lambda n: P.z3_value(m, P.LOW.term(n), E.I)
        return [('window not reachable', dict(N=v(N), batch_size=v(b), s=v(s)))]
    return [('unknown', 'quantified range query undecided')]


def stream_starts(shuffled, N, b, draws):
    """windows of one real stream"""
    px, py = B.placeholders()
    x = np.arange(1.0 * N).reshape(N, 1)
    gen = B.generator(shuffled)(x=x, y=np.arange(1.0 * N), x_placeholder=px, y_placeholder=py, batch_size=b, seed=1)
    return set(int(np.min(next(gen)[px])) for _ in range(draws))


def range_replay(env, shuffled, size=None):
    """the counterexample's sizes, and small ones: a window that is never drawn
    is not among many draws of a real stream either"""
    N, b, s = int(env.value('N', size[0] if size else 5)), int(env.value('batch_size', size[1] if size else 2)), int(env.value('s', 0))
    if 0 <= s <= N - min(b, N):
        W = N - min(b, N) + 1
        if s not in stream_starts(shuffled, N, b, 60 * W):
            env.fail('window %d is never drawn (batch size %d, %d datapoints, %d draws)' % (s, b, N, 60 * W))
            return
    for N in range(1, 6):
        for b in range(1, N + 2):
            seen = set(one(None, shuffled, N, 1, b, seed)[0] for seed in range(1500))
            miss = set(range(N - min(b, N) + 1)) - seen
            if miss:
                env.fail('windows %s are never drawn (batch size %d, %d datapoints)' % (sorted(miss), b, N))
                return


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for N in (1, 2, 3, 4) + ((5, 6) if th else ()):
        out.append(Job('windows', windows, dict(shuffled=False, N=N, draws=2), custom=reach, max_paths=5000))
    for N in (1, 2, 3):
        out.append(Job('windows', windows, dict(shuffled=True, N=N, draws=1), custom=reach, max_paths=5000))
    if th:
        out.append(Job('windows', windows, dict(shuffled=False, N=3, draws=3), custom=reach, max_paths=5000))
        out.append(Job('windows', windows, dict(shuffled=True, N=4, draws=1), custom=reach, max_paths=5000, wall=2000))
        out.append(Job('windows', windows, dict(shuffled=True, N=3, draws=2), custom=reach, max_paths=5000, wall=2000))
    for sh in (False, True):
        out.append(Job('range', range_replay, dict(shuffled=sh), custom=range_query, optional=True))
        for size in ((40, 16), (70, 32), (200, 64), (1500, 100), (100, 1)):
            out.append(Job('range', range_replay, dict(shuffled=sh, size=size), custom=range_query, optional=True))
    return out
