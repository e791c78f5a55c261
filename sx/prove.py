"""Solver front end: validity queries, equality proofs by solver-backed
sweeping with cut points, counterexample search."""
import random
import re
import time
from fractions import Fraction

import mpmath
import z3

from sx import expr as E
from sx import pnf


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.merges = 0
        self.goals = 0
        self.normal = 0
        self.slowest = 0.0

    def as_dict(self):
        return dict(solver='z3 ' + z3.get_version_string(), queries=self.queries, unsat=self.unsat,
                    sat=self.sat, unknown=self.unknown, solver_time_s=round(self.time, 3),
                    slowest_query_s=round(self.slowest, 3), sweep_merges=self.merges,
                    goals=self.goals, closed_by_normal_form=self.normal)


STATS = Stats()
LOW = E.Lowering()
RNG = random.Random(1)
DEBUG = False


def reset():
    global LOW
    E.reset_keep = True
    LOW = E.Lowering()


def z3_value(m, t, sort):
    v = m.eval(t, model_completion=True)
    if sort == E.B:
        return bool(z3.is_true(v))
    if sort == E.I:
        if not z3.is_int_value(v):
            v = z3.simplify(v)
        return int(v.as_long()) if z3.is_int_value(v) else None
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def _pure_real(nodes):
    for n in E.topo(nodes):
        if n.sort == E.I or n.op in ('uf', 'exp', 'log', 'sin', 'cos', 'tanh', 'toreal', 'floor'):
            return False
    return True


def check(asserts, timeout=5.0, model_vars=None, extra=()):
    """Satisfiability of a list of boolean nodes (plus raw z3 terms).
    Returns ('sat', assignment) / ('unsat', None) / ('unknown', None)."""
    nodes = [a for a in asserts if a is not E.TRUE]
    if any(a is E.FALSE for a in nodes):
        return 'unsat', None
    terms = [LOW.term(a) for a in nodes]
    side = LOW.constraints(nodes)
    pure = _pure_real(nodes)
    plans = [('default', 1.0)] if not pure else [('default', 0.35), ('nlsat', 0.65)]
    res = 'unknown'
    for how, share in plans:
        if how == 'default':
            s = z3.Solver()
        else:
            s = z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'solve-eqs', 'qfnra-nlsat').solver()
        s.set('timeout', max(50, int(timeout * share * 1000)))
        for t in terms:
            s.add(t)
        for t in side:
            s.add(t)
        for t in extra:
            s.add(t)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t0
        STATS.queries += 1
        STATS.time += dt
        STATS.slowest = max(STATS.slowest, dt)
        if r == z3.unsat:
            STATS.unsat += 1
            return 'unsat', None
        if r == z3.sat:
            STATS.sat += 1
            try:
                m = s.model()
            except z3.Z3Exception:
                res = 'unknown'
                continue
            asg = {}
            for name, n in E.variables(*nodes).items():
                t, sort = LOW.vars[name]
                asg[name] = z3_value(m, t, sort)
            if 'conc!' not in asg and None in asg.values():
                res = 'unknown'
                continue
            return 'sat', asg
        STATS.unknown += 1
    return res, None


_TRANS = {'exp': (Fraction(1, 10 ** 12), Fraction(10 ** 12)), 'log': (Fraction(-40), Fraction(40)), 'tanh': (Fraction(-99, 100), Fraction(99, 100)),
          'sin': (Fraction(-99, 100), Fraction(99, 100)), 'cos': (Fraction(-99, 100), Fraction(99, 100))}
_INVERSE = {'exp': mpmath.log, 'log': mpmath.exp, 'tanh': mpmath.atanh, 'sin': mpmath.asin, 'cos': mpmath.acos}


def steer(asserts, timeout=3.0):
    """An assignment that satisfies conditions over exp, log, ...: solve for the
    values of the applications first, then for arguments that give them.
    The caller evaluates the assignment; None when there is none of this form."""
    asserts = [a for a in asserts if a is not E.TRUE]
    apps = [n for n in E.topo(asserts) if n.op in _TRANS]
    if not apps or len(apps) > 60:
        return None
    names, mapping, bounds, n0 = {}, {}, [], E.variables(*asserts)
    for k, n in enumerate(apps):
        u = E.var('steer!%d' % n.id)
        mapping[n] = u
        lo, hi = _TRANS[n.op]
        bounds += [E.le(E.const(lo), u), E.le(u, E.const(hi))]
    flat = E.substitute(asserts, mapping)
    r, m = check(flat + bounds, timeout=timeout)
    if r != 'sat':
        return None
    fixed = []
    for n in apps:
        u = mapping[n]
        v = m.get(u.val if isinstance(u.val, str) else 'steer!%d' % n.id)
        if v is None:
            continue
        a = _subst_cut(list(n.args), {k: w for k, w in mapping.items() if k is not n})[0]
        try:
            t = Fraction(str(mpmath.nstr(_INVERSE[n.op](mpmath.mpf(v.numerator) / v.denominator), 15)))
        except Exception:
            continue
        fixed += [E.eq(a, E.const(t)), E.eq(u, E.const(v))]
    while True:
        r, m2 = check([x for x in flat + fixed], timeout=timeout)
        if r == 'sat':
            return {k: v for k, v in m2.items() if k in n0}
        if len(fixed) <= 2:
            return None
        fixed = fixed[:-2]


# sign facts, syntactic

def signs(roots, assumptions):
    """node id -> 'pos' | 'nonneg' for nodes that are syntactically so,
    given assumption literals."""
    facts = {}

    def note(n, s):
        if facts.get(n.id) != 'pos':
            facts[n.id] = s

    def visit_assump(a):
        if a.op == 'and':
            for x in a.args:
                visit_assump(x)
        elif a.op in ('lt', 'le'):
            l, r = a.args
            if l.op == 'const' and (l.val > 0 or (l.val == 0 and a.op == 'lt')):
                note(r, 'pos')
            elif l.op == 'const' and l.val == 0:
                note(r, 'nonneg')
    for a in assumptions:
        visit_assump(a)
    for n in E.topo(roots):
        if facts.get(n.id) == 'pos':
            continue
        op = n.op
        s = [facts.get(x.id) for x in n.args]
        if op == 'const':
            if n.val > 0:
                note(n, 'pos')
            elif n.val == 0:
                note(n, 'nonneg')
        elif op == 'exp':
            note(n, 'pos')
        elif op == 'sqrt':
            note(n, 'pos' if s[0] == 'pos' else 'nonneg')
        elif op == 'add':
            if s[0] and s[1]:
                note(n, 'pos' if 'pos' in s else 'nonneg')
        elif op == 'mul':
            if s[0] and s[1]:
                note(n, 'pos' if s == ['pos', 'pos'] else 'nonneg')
            elif n.args[0] is n.args[1]:
                note(n, 'nonneg')
        elif op == 'div':
            if s[0] and s[1] == 'pos':
                note(n, s[0])
        elif op == 'toreal':
            if s[0]:
                note(n, s[0])
        elif op == 'ite':
            if s[1] and s[2]:
                note(n, 'pos' if s[1] == s[2] == 'pos' else 'nonneg')
    return facts


def cut(roots, depth, keep_vars=True):
    """Abstract nodes deeper than `depth` by fresh variables."""
    level = {}
    order = E.topo(roots)
    for r in roots:
        level[r.id] = 0
    for n in reversed(order):
        l = level.get(n.id)
        if l is None:
            continue
        for a in n.args:
            if level.get(a.id, 10 ** 9) > l + 1:
                level[a.id] = l + 1
    mapping = {}
    for n in order:
        if n.args and level.get(n.id, 0) >= depth:
            mapping[n] = E.var('cut!%d' % n.id, n.sort)
    return mapping


def _subst_cut(roots, mapping):
    memo = {}

    def go(n):
        st = [(n, False)]
        while st:
            x, done = st.pop()
            if x.id in memo:
                continue
            if x in mapping:
                memo[x.id] = mapping[x]
                continue
            if not x.args:
                memo[x.id] = x
                continue
            if done:
                memo[x.id] = E.rebuild(x, [memo[a.id] for a in x.args])
            else:
                st.append((x, True))
                st.extend((a, False) for a in x.args)
        return memo[n.id]
    return [go(r) for r in roots]


class Sampler(object):
    """Random points that satisfy the assumptions."""

    def __init__(self, assumptions, doms):
        self.assumptions = assumptions
        self.doms = doms

    def draw(self, names, tries=300):
        for t in range(tries):
            env = {}
            for name, n in names.items():
                env[name] = self.value(name, n.sort, t)
            if all(E.evaluate(self.assumptions, env)):
                return env
        return None

    def value(self, name, sort, t=0):
        d = self.doms.get(name)
        if d is not None:
            return d(RNG)
        if sort == E.B:
            return RNG.random() < 0.5
        if sort == E.I:
            return RNG.randint(-3, 8)
        return Fraction(RNG.randint(-3000, 3000), 1009)


def independent(assumptions):
    """[(variables, assumptions about these and no others)]"""
    parts = []
    for a in assumptions:
        own, some = dict(E.variables(a)), [a]
        rest = []
        for names, group in parts:
            if any(n in own for n in names):
                own.update(names)
                some = group + some
            else:
                rest.append((names, group))
        parts = rest + [(own, some)]
    return parts


def from_solver(smp, assumptions, names):
    for attempt in range(3):
        pins = []
        if attempt < 2:
            pins = [E.eq(n, E.const(Fraction(smp.value(name, n.sort)))) for name, n in names.items() if n.sort == E.R and RNG.random() < 0.5]
        r, m = check(list(assumptions) + pins, timeout=3)
        if r == 'sat':
            env = {name: m.get(name, smp.value(name, n.sort)) for name, n in names.items()}
            try:
                if all(E.evaluate(assumptions, env)):
                    return env
            except Exception:
                pass
    return None


def points(assumptions, doms, names, k, hints=()):
    """k assignments satisfying the assumptions (random, else from the solver)"""
    names = dict(names)
    for a in assumptions:
        names.update(E.variables(a))
    smp = Sampler(assumptions, doms)
    out = []
    for h in hints:
        env = {n: h.get(n, smp.value(n, nd.sort)) for n, nd in names.items()}
        try:
            if all(E.evaluate(assumptions, env)):
                out.append(env)
        except Exception:
            pass
    # assumptions that share no variables are satisfied one by one
    parts = independent(assumptions)
    stuck = set()
    fails = 0
    while len(out) < k and fails < 2:
        env = {name: smp.value(name, n.sort) for name, n in names.items()}
        for i, (own, some) in enumerate(parts):
            got = None
            if i not in stuck:
                got = Sampler(some, doms).draw(own, 300 if len(parts) == 1 else 100)
                if got is None and len(parts) > 1:
                    stuck.add(i)
            if got is None and len(parts) > 1:
                got = from_solver(smp, some, own)
            if got is None:
                env = None
                break
            env.update(got)
        if env is None:
            fails += 1
            continue
        out.append(env)
    tries = 0
    while len(out) < k and tries < k + 2:
        tries += 1
        # ask the solver, pinning a random half of the variables
        pins = []
        for name, n in names.items():
            if RNG.random() < 0.5 and n.sort == E.R:
                pins.append(E.eq(n, E.const(Fraction(smp.value(name, n.sort)))))
        for attempt in (pins, []):
            r, m = check(list(assumptions) + attempt, timeout=3)
            if r == 'sat':
                env = {name: m.get(name, smp.value(name, n.sort)) for name, n in names.items()}
                try:
                    if all(E.evaluate(assumptions, env)):
                        out.append(env)
                        break
                except Exception:
                    pass
    return out


def _sig(vals):
    out = []
    for v in vals:
        if isinstance(v, (bool, int)):
            out.append(str(v))
        elif mpmath.isnan(v):
            out.append('nan')
        elif abs(v) < mpmath.mpf('1e-28'):
            out.append('0')
        else:
            out.append(mpmath.nstr(v, 22))
    return tuple(out)


def sweep(assumptions, roots, doms, budget=60.0, npoints=3, hints=()):
    """Merge provably equal real-valued nodes bottom-up. Returns (new roots,
    sample points)."""
    names = E.variables(*roots)
    pts = points(assumptions, doms, names, npoints, hints)
    if len(pts) < 2:
        return list(roots), pts
    order = E.topo(roots)
    values = [E.evaluate(order, p) for p in pts]
    rep = {}
    buckets = {}
    t0 = time.time()
    for k, n in enumerate(order):
        r = E.rebuild(n, [rep[a.id] for a in n.args]) if n.args else n
        if r.id in rep:
            r = rep[r.id]
        if n.sort == E.R:
            key = _sig([v[k] for v in values])
            if 'nan' not in key:
                lst = buckets.setdefault(key, [])
                if r not in lst:
                    merged = False
                    if time.time() - t0 < budget:
                        for c in lst[:3]:
                            if prove_local(assumptions, r, c):
                                STATS.merges += 1
                                rep[r.id] = c
                                r = c
                                merged = True
                                break
                    if not merged:
                        lst.append(r)
        rep[n.id] = r
        rep.setdefault(r.id, r)
    return [rep[r.id] for r in roots], pts


_local_cache = {}
_local_fails = {}
_DIGITS = re.compile(r'\d+')


def prove_local(assumptions, a, b):
    key = (a.id, b.id, tuple(x.id for x in assumptions))
    if key in _local_cache:
        return _local_cache[key]
    ok = False
    facts = None
    tried = set()
    # a shape of pair that kept failing is tried with small cones only
    shape = _DIGITS.sub('#', E.show(a, 3) + '==' + E.show(b, 3))
    stages = ((3, 0.4), (5, 0.8), (9, 1.5), (1000, 2.5)) if _local_fails.get(shape, 0) < 3 else ((3, 0.2), (5, 0.3))
    for depth, tmo in stages:
        mapping = cut([a, b], depth)
        x, y = _subst_cut([a, b], mapping)
        if (x.id, y.id) in tried:
            continue
        tried.add((x.id, y.id))
        if x is y:
            ok = True
            break
        if facts is None:
            facts = signs([a, b] + list(assumptions), assumptions)
        extra = []
        inv = {v.id: k for k, v in mapping.items()}
        for name, v in E.variables(x, y).items():
            src = inv.get(v.id)
            if src is not None and src.id in facts:
                extra.append(E.lt(E.ZERO, v) if facts[src.id] == 'pos' else E.le(E.ZERO, v))
        ass = [p for p in assumptions] if depth > 100 else \
            [p for p in assumptions if set(E.variables(p)) <= set(E.variables(x, y))]
        r, _ = check(ass + extra + [E.not_(E.eq(x, y))], timeout=tmo)
        if r == 'unsat':
            ok = True
            break
    _local_cache[key] = ok
    _local_fails[shape] = 0 if ok else _local_fails.get(shape, 0) + 1
    return ok


def idealise(roots, tiny=Fraction(1, 10 ** 12)):
    """Regularisation constants below `tiny` become 0 (stated assumption)."""
    m = {}
    for n in E.topo(roots):
        if n.op == 'const' and n.sort == E.R and n.val != 0 and abs(n.val) < tiny:
            m[n] = E.ZERO
    return E.substitute(roots, m) if m else list(roots)


class Verdict(object):
    def __init__(self, status, model=None, note=''):
        self.status, self.model, self.note = status, model, note

    def __repr__(self):
        return 'Verdict(%s,%s,%s)' % (self.status, self.model, self.note)


def violated(assumptions, goal, env):
    try:
        if not all(E.evaluate(assumptions, env)):
            return False
        return not E.evaluate([goal], env)[0]
    except Exception:
        return False


_near_cache = {}


def canonical(nodes):
    """key of a query up to the names of its variables"""
    m, k = {}, 0
    for n in E.topo(nodes[:1]) + E.topo(nodes):
        if n.op == 'var' and n not in m:
            m[n] = E.var('canon!%d' % k, n.sort)
            k += 1
    sub = E.substitute(nodes, m)
    return (sub[0].id, tuple(sorted(n.id for n in sub[1:])))


def prove(assumptions, goal, doms, timeout=20.0, hints=()):
    """Is goal valid under the assumptions?"""
    STATS.goals += 1
    if goal is E.TRUE:
        return Verdict('proved', note='normalised')
    assumptions = [a for a in assumptions if a is not E.TRUE]
    names = E.variables(goal, *assumptions)
    if len(assumptions) > 12:
        # the assumptions about the goal's own variables may suffice
        own = set(E.variables(goal))
        near = [a for a in assumptions if set(E.variables(a)) <= own]
        if len(near) < len(assumptions):
            key = canonical([goal] + near)
            if key not in _near_cache:
                _near_cache[key] = check(near + [E.not_(goal)], timeout=min(4, timeout))[0]
            if _near_cache[key] == 'unsat':
                return Verdict('proved')
    r, m = check(assumptions + [E.not_(goal)], timeout=timeout)
    if r == 'unsat':
        return Verdict('proved')
    if r == 'sat':
        smp = Sampler(assumptions, doms)
        env = {n: m.get(n, smp.value(n, nd.sort)) for n, nd in names.items()}
        if violated(assumptions, goal, env) or goal is E.FALSE:
            return Verdict('cex', env)
        # spurious with respect to exp/log/...: look for a real one
        m = steer(assumptions + [E.not_(goal)])
        if m is not None:
            env2 = {n: m.get(n, smp.value(n, nd.sort)) for n, nd in names.items()}
            if violated(assumptions, goal, env2):
                return Verdict('cex', env2)
        for p in points(assumptions, doms, names, 60, hints):
            if violated(assumptions, goal, p):
                return Verdict('cex', p)
        if _pure_real([goal] + assumptions):
            return Verdict('cex', env)
        if _has_uf_only([goal] + assumptions):
            return Verdict('cex', env)
        return Verdict('unknown', env, 'model does not evaluate to a violation')
    for p in points(assumptions, doms, names, 60, hints):
        if violated(assumptions, goal, p):
            return Verdict('cex', p)
    return Verdict('unknown', None, 'solver gave up')


def _has_uf_only(nodes):
    return not any(n.op in ('exp', 'log', 'sin', 'cos', 'tanh') for n in E.topo(nodes))


def rel_diff(a, b):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return mpmath.mpf(0 if a == b else 1)
    if mpmath.isnan(a) or mpmath.isnan(b):
        return mpmath.mpf(0) if mpmath.isnan(a) and mpmath.isnan(b) else mpmath.inf
    if a == b:
        return mpmath.mpf(0)
    return abs(a - b) / (1 + max(abs(a), abs(b)) if not (mpmath.isinf(a) or mpmath.isinf(b)) else 1)


def _ites(roots):
    return [n for n in E.topo(roots) if n.op == 'ite']


def givens(assumptions):
    """variable -> term, as far as the assumptions say 'variable == term' outright."""
    out = {}
    todo = list(assumptions)
    while todo:
        a = todo.pop(0)
        if a.op == 'and':
            todo[:0] = a.args
            continue
        if a.op != 'eq' or a.args[0].sort != E.R:
            continue
        x, y = E.substitute(list(a.args), out) if out else a.args
        if x.op != 'var':
            x, y = y, x
        if x.op != 'var' or x is y or y.op == 'special' or x.val in E.variables(y):
            continue
        old = {n: E.substitute([t], {x: y})[0] for n, t in out.items()}
        if any(t.op == 'special' for t in old.values()):
            continue
        out = dict(old)
        out[x] = y
    return out


def prove_equal(assumptions, pairs, doms, timeout=20.0, ideal=True, budget=90.0, hints=()):
    """Are all pairs (a, b) equal under the assumptions?"""
    STATS.goals += len(pairs)
    assumptions = [a for a in assumptions if a is not E.TRUE]
    flat = [x for p in pairs for x in p]
    if ideal:
        flat = idealise(flat)
    same = givens(assumptions)
    if same:
        put = E.substitute(flat, same)
        if ideal:
            put = idealise(put)
        for i in range(0, len(flat), 2):
            if not any(x.op == 'special' for x in put[i:i + 2]):
                flat[i:i + 2] = put[i:i + 2]
    todo = [(flat[2 * i], flat[2 * i + 1]) for i in range(len(pairs)) if flat[2 * i] is not flat[2 * i + 1]]
    if not todo:
        discharge(assumptions, [(flat[2 * i], flat[2 * i + 1]) for i in range(len(pairs))])
        return Verdict('proved', note='normalised')
    roots = [x for p in todo for x in p]
    names = E.variables(*(roots + assumptions))
    for a, b in todo:
        if (a.op == 'special' or b.op == 'special'):
            pts = points(assumptions, doms, names, 1, hints)
            return Verdict('cex', pts[0] if pts else None, 'undefined value')
    # concrete disagreement anywhere?
    pts = points(assumptions, doms, names, 6, hints)
    best = None
    for p in pts:
        vals = E.evaluate(roots, p)
        for i in range(0, len(vals), 2):
            d = rel_diff(vals[i], vals[i + 1])
            if d > mpmath.mpf('1e-18') and (best is None or d > best[0]):
                best = (d, p, todo[i // 2])
    if best is not None and best[0] > mpmath.mpf('1e-7'):
        return Verdict('cex', confirm(assumptions, best[2], best[1]), 'point')
    swept, _ = sweep(assumptions, roots, doms, budget=budget, hints=hints)
    rest = [(swept[2 * i], swept[2 * i + 1]) for i in range(len(todo)) if swept[2 * i] is not swept[2 * i + 1]]
    if not rest:
        return Verdict('proved', note='sweep')
    pos = [i for i, f in signs([x for p in rest for x in p], assumptions).items() if f == 'pos']
    unknown = None
    for a, b in rest:
        if pnf.equal(a, b, pos):
            STATS.normal += 1
            continue
        diff = E.not_(E.eq(a, b))
        r, m = check(assumptions + [diff], timeout=timeout)
        if r == 'unsat':
            continue
        cand = []
        if r == 'sat':
            smp = Sampler(assumptions, doms)
            cand.append({n: m.get(n, smp.value(n, nd.sort)) for n, nd in names.items()})
            # a counterexample with a clear margin
            for mg in (Fraction(1, 10), Fraction(1, 10 ** 4)):
                d = E.sub(E.toreal(a), E.toreal(b))
                bound = [E.and_(E.le(E.const(Fraction(-1000)), n), E.le(n, E.const(Fraction(1000))))
                         for n in E.variables(a, b).values() if n.sort == E.R]
                r2, m2 = check(assumptions + bound + [E.lt(E.const(mg), E.abs_(d))], timeout=6)
                if r2 == 'sat':
                    cand.insert(0, {n: m2.get(n, smp.value(n, nd.sort)) for n, nd in names.items()})
                    break
        # points that the solver steers into each branch, and well past its threshold
        smp = Sampler(assumptions, doms)
        for k in _ites([a, b])[:40]:
            c = k.args[0]
            conds = [(c, 2), (E.not_(c), 2)]
            if c.op in ('lt', 'le') and c.args[0].sort == E.R:
                conds += [(E.lt(E.add(x, E.const(Fraction(gap))), y), 1)
                          for x, y in (c.args, c.args[::-1]) for gap in (100, 10 ** 9)]
            for cond, tmo in conds:
                r3, m3 = check(assumptions + [cond], timeout=tmo)
                if r3 == 'sat':
                    m3 = steer(assumptions + [cond]) or m3
                    cand.append({n: m3.get(n, smp.value(n, nd.sort)) for n, nd in names.items()})
                    near = E.variables(cond)
                    for _ in range(2):
                        cand.append({n: m3[n] if n in near and n in m3 else smp.value(n, nd.sort) for n, nd in names.items()})
        cand += points(assumptions, doms, names, 40, hints)
        worst = None
        for p in cand:
            try:
                if not all(E.evaluate(assumptions, p)):
                    continue
                va, vb = E.evaluate([a, b], p)
            except Exception:
                continue
            d = rel_diff(va, vb)
            if d > mpmath.mpf('1e-18') and (worst is None or d > worst[0]):
                worst = (d, p)
        if worst is not None:
            worst = clearer(assumptions, a, b, worst, names, doms)
            return Verdict('cex', worst[1], 'rel diff %s' % mpmath.nstr(worst[0], 5))
        if r == 'sat' and _has_uf_only([a, b] + assumptions):
            return Verdict('cex', cand[0], 'solver model')
        unknown = Verdict('unknown', cand[0] if cand else None, 'undecided: %s == %s' % (E.show(a, 4), E.show(b, 4)))
    if unknown is not None:
        return unknown
    return Verdict('proved', note='solver')


def clearer(assumptions, a, b, worst, names, doms, seconds=6.0):
    """Vary a counterexample one input at a time so that the two sides differ by
    more than rounding (the replay compares floating point results)."""
    t0 = time.time()
    smp = Sampler(assumptions, doms)
    keys = [n for n in sorted(E.variables(a, b)) if names[n].sort == E.R]
    while worst[0] < mpmath.mpf('1e-4') and time.time() - t0 < seconds:
        before = worst[0]
        RNG.shuffle(keys)
        for n in keys:
            v = Fraction(worst[1][n])
            for w in (v / 100, v * 100, v / 3, v * 3, -v, Fraction(1, 1000), Fraction(1000), Fraction(smp.value(n, E.R))):
                p = dict(worst[1])
                p[n] = w
                try:
                    if not all(E.evaluate(assumptions, p)):
                        continue
                    va, vb = E.evaluate([a, b], p)
                except Exception:
                    continue
                d = rel_diff(va, vb)
                if d > worst[0] and not mpmath.isinf(d):
                    worst = (d, p)
            if worst[0] > mpmath.mpf('1e-3') or time.time() - t0 > seconds:
                break
        if worst[0] < before * 2:
            break
    return worst


def discharge(assumptions, pairs):
    """Both sides have the same normal form; have the solver confirm that no
    assignment tells them apart (terms of moderate size only)."""
    if len(E.topo([x for p in pairs for x in p])) > 4000:
        return
    diffs = [z3.Not(LOW.term(a) == LOW.term(b)) for a, b in pairs if a.sort == b.sort and 'special' not in (a.op, b.op)]
    if not diffs:
        return
    s = z3.Solver()
    s.set('timeout', 5000)
    for a in assumptions:
        s.add(LOW.term(a))
    s.add(z3.Or(*diffs))
    t0 = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1


def confirm(assumptions, pair, point):
    """let the solver confirm a disagreement at a point (inputs fixed)"""
    a, b = pair
    fix = []
    for n, nd in E.variables(a, b, *assumptions).items():
        v = point[n]
        if nd.sort == E.B:
            fix.append(nd if v else E.not_(nd))
        else:
            fix.append(E.eq(nd, E.const(Fraction(v) if nd.sort == E.R else int(v), nd.sort)))
    r, m = check(list(assumptions) + fix + [E.not_(E.eq(a, b))], timeout=3)
    return point
