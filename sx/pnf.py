"""Normal form of real terms as generalised polynomials, used to close
equalities that the solver leaves open (products of exponentials, constants
that differ by a rounding error, re-associated quotients).

A term is {monomial: coefficient}; a monomial is a sorted tuple of
(atom, exponent). Quotients and roots of sums are atoms with negative or
fractional exponents, and are multiplied out when two forms are compared.
Identities used: those of commutative rings, x/x = 1, sqrt(x)^2 = x,
exp(a+b) = exp(a) exp(b), exp(log x) = x, log(xy) = log x + log y for factors
known to be positive. All are valid wherever both sides are defined."""
import time
from fractions import Fraction

import mpmath

from sx import expr as E

MAXTERMS = 1500


class TooBig(Exception):
    pass


class Normal(object):
    def __init__(self, positive=(), seconds=4.0):
        self.atoms = {}          # key -> id
        self.info = []           # id -> (kind, data)
        self.memo = {}
        self.positive = set(positive)   # node ids
        self.stop = time.time() + seconds

    # atoms
    def atom(self, key, kind, data=None):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.info)
            self.atoms[key] = i
            self.info.append((kind, data))
        return i

    def is_pos(self, i):
        return self.info[i][0] in ('exp', 'posvar', 'pospoly')

    @staticmethod
    def num(c):
        c = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
        return c

    @staticmethod
    def rnd(c):
        return mpmath.nstr(c, 12)

    def key(self, p):
        return tuple(sorted((m, self.rnd(c)) for m, c in p.items()))

    # polynomials
    def clean(self, p):
        return {m: c for m, c in p.items() if abs(c) > mpmath.mpf('1e-32')}

    def addp(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + s * c
        if len(r) > MAXTERMS:
            raise TooBig()
        return self.clean(r)

    def mono(self, m1, m2):
        """product of monomials: (monomial, [(poly, n)] to multiply by)"""
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        extra = []
        out = []
        for a, e in d.items():
            kind, data = self.info[a]
            if e >= 1 and kind in ('poly', 'pospoly'):
                n = int(e)
                extra.append((data, n))
                e = e - n
            if e != 0:
                out.append((a, e))
        return tuple(sorted(out)), extra

    def mulp(self, p, q):
        if len(p) * len(q) > 40 * MAXTERMS or time.time() > self.stop:
            raise TooBig()
        r = {}
        rest = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m, extra = self.mono(m1, m2)
                c = c1 * c2
                if extra:
                    t = {m: c}
                    for poly, n in extra:
                        for _ in range(n):
                            t = self.mulp(t, poly)
                    rest = self.addp(rest, t)
                else:
                    r[m] = r.get(m, 0) + c
                    if len(r) > MAXTERMS:
                        raise TooBig()
        r = self.clean(r)
        return self.addp(r, rest) if rest else r

    def const(self, c):
        c = self.num(c)
        return {(): c} if c != 0 else {}

    def scale_out(self, p):
        """(|c|, p / |c|) with |c| the magnitude of the first coefficient"""
        m = min(p)
        c = abs(p[m])
        return c, {k: v / c for k, v in p.items()}

    def factor(self, p):
        """(common factor of positive atoms, rest)"""
        if len(p) < 2:
            return (), p
        common = None
        for m in p:
            d = {a: e for a, e in m if self.is_pos(a)}
            if common is None:
                common = d
            else:
                common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
                for a, e in d.items():
                    if e < 0 and a not in common:
                        common[a] = e
        # an atom missing from the first monomials counts with exponent 0
        for m in p:
            d = dict(m)
            common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
        common = {a: e for a, e in common.items() if e != 0}
        if not common:
            return (), p
        inv = {tuple(sorted((a, -e) for a, e in common.items())): mpmath.mpf(1)}
        return tuple(sorted(common.items())), self.mulp(p, inv)

    def power(self, p, e):
        """p ** e for a fractional or negative exponent"""
        e = Fraction(e)
        if not p:
            raise TooBig()
        if e.denominator == 1 and e >= 0:
            r = self.const(1)
            for _ in range(int(e)):
                r = self.mulp(r, p)
            return r
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1 or (c > 0 and all(self.is_pos(a) for a, _ in m)):
                t = {tuple(sorted((a, x * e) for a, x in m)): c ** (mpmath.mpf(e.numerator) / e.denominator)}
                return self.mulp(t, self.const(1))
            if c > 0 and len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]][0] not in ('poly', 'pospoly'):
                # square root of a plain atom (defined only where it is >= 0)
                pass
        m, q = self.factor(p)
        if m:
            return self.mulp(self.power({m: mpmath.mpf(1)}, e), self.power(q, e))
        c, q = self.scale_out(p)
        pos = all(v > 0 for v in q.values()) and all(all(self.is_pos(a) for a, _ in m) for m in q)
        a = self.atom(('poly', self.key(q)), 'pospoly' if pos else 'poly', q)
        return {((a, e),): c ** (mpmath.mpf(e.numerator) / e.denominator)}

    def log(self, p):
        m, q = self.factor(p)
        if m:
            return self.addp(self.log({m: mpmath.mpf(1)}), self.log(q))
        c, q = self.scale_out(p)
        out = self.const(mpmath.log(c))
        if len(q) == 1:
            (m, s), = q.items()
            if s > 0 and all(self.is_pos(a) for a, _ in m):
                for a, e in m:
                    kind, data = self.info[a]
                    if kind == 'exp':
                        out = self.addp(out, {k: v * self.num(Fraction(e)) for k, v in data.items()})
                    elif kind == 'pospoly':
                        out = self.addp(out, {((self.atom(('log', self.key(data)), 'log', data), Fraction(1)),): self.num(Fraction(e))})
                    else:
                        base = {((a, Fraction(1)),): mpmath.mpf(1)}
                        out = self.addp(out, {((self.atom(('log', self.key(base)), 'log', base), Fraction(1)),): self.num(Fraction(e))})
                return out
        a = self.atom(('log', self.key(q)), 'log', q)
        return self.addp(out, {((a, Fraction(1)),): mpmath.mpf(1)})

    def exp(self, p):
        out = self.const(1)
        for m, c in sorted(p.items()):
            if m == ():
                out = {k: v * mpmath.exp(c) for k, v in out.items()}
                continue
            f = Fraction(mpmath.nstr(c, 25))
            g = f.limit_denominator(100000)
            if abs(f - g) < abs(f) / 10 ** 20:
                f = g
            else:
                f = Fraction(mpmath.nstr(c, 14))
            if len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]][0] == 'log':
                out = self.mulp(out, self.power(self.info[m[0][0]][1], f))
                continue
            base = {m: mpmath.mpf(1)}
            a = self.atom(('exp', m), 'exp', base)
            out = self.mulp(out, {((a, f),): mpmath.mpf(1)})
        return out

    # nodes
    def norm(self, root):
        for n in E.topo([root]):
            if n.id not in self.memo:
                if time.time() > self.stop:
                    raise TooBig()
                self.memo[n.id] = self.step(n)
        return self.memo[root.id]

    def akey(self, n):
        v = self.memo[n.id]
        return v if n.sort == E.B else self.key(v)

    def step(self, n):
        op = n.op
        if n.sort == E.B:
            if op in ('lt', 'le', 'eq') and n.args[0].sort != E.B:
                d = self.addp(self.memo[n.args[1].id], self.memo[n.args[0].id], -1)
                if not d:
                    return ('b', op, ())
                if op == 'eq':
                    c, q = self.scale_out(d)
                    if q[min(q)] < 0:
                        q = {k: -v for k, v in q.items()}
                else:
                    c, q = self.scale_out(d)
                return ('b', op, self.key(q))
            return ('b', op, n.val, tuple(self.akey(a) for a in n.args))
        if op == 'const':
            return self.const(n.val)
        if op == 'special':
            raise TooBig()
        if op == 'var':
            kind = 'posvar' if n.id in self.positive else 'var'
            return {((self.atom(('var', n.val), kind), Fraction(1)),): mpmath.mpf(1)}
        a = [self.memo[x.id] for x in n.args]
        if op == 'add':
            return self.addp(a[0], a[1])
        if op == 'sub':
            return self.addp(a[0], a[1], -1)
        if op == 'neg':
            return {m: -c for m, c in a[0].items()}
        if op == 'mul':
            return self.mulp(a[0], a[1])
        if op == 'toreal':
            return a[0]
        if op == 'div':
            return self.mulp(a[0], self.power(a[1], -1))
        if op == 'sqrt':
            return self.power(a[0], Fraction(1, 2)) if a[0] else {}
        if op == 'exp':
            return self.exp(a[0])
        if op == 'log':
            if not a[0]:
                raise TooBig()
            return self.log(a[0])
        if op in ('sin', 'cos', 'tanh'):
            p, s = a[0], 1
            if p and p[min(p)] < 0:
                p = {m: -c for m, c in p.items()}
                s = 1 if op == 'cos' else -1
            return {((self.atom((op, self.key(p)), op), Fraction(1)),): mpmath.mpf(s)}
        key = (op, n.val, tuple(self.akey(x) for x in n.args))
        return {((self.atom(key, op), Fraction(1)),): mpmath.mpf(1)}

    # comparison
    def small(self, p, ref):
        for m, c in p.items():
            r = ref.get(m, mpmath.mpf(0))
            if abs(c) > mpmath.mpf('1e-11') * r:
                return False
        return True

    def equal(self, a, b):
        p, q = self.norm(a), self.norm(b)
        ref = {m: max(abs(p.get(m, 0)), abs(q.get(m, 0))) for m in set(p) | set(q)}
        d = self.addp(p, q, -1)
        for _ in range(12):
            if not d or self.small(d, ref):
                return True
            # multiply out one quotient of a sum
            worst = None
            for m in d:
                for at, e in m:
                    if self.info[at][0] in ('poly', 'pospoly') and e < 0:
                        worst = at
            if worst is None:
                return False
            k = max(-e for m in d for at, e in m if at == worst and e < 0)
            k = -((-k) // 1)   # ceiling
            f = {((worst, Fraction(k)),): mpmath.mpf(1)}
            mag = {m: abs(c) for m, c in d.items()}
            # magnitudes before cancellation, to judge rounding residues
            absdata = self.info[worst][1]
            new, ref2 = {}, {}
            for m, c in d.items():
                t = self.mulp({m: c}, f)
                for mm, cc in t.items():
                    new[mm] = new.get(mm, 0) + cc
                    ref2[mm] = ref2.get(mm, mpmath.mpf(0)) + abs(cc)
            d = self.clean(new)
            ref = ref2
        return False


def equal(a, b, positive=(), seconds=4.0):
    try:
        return Normal(positive, seconds).equal(a, b)
    except (TooBig, ZeroDivisionError, OverflowError, ValueError):
        return False
