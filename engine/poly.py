"""Linear/polynomial normal forms of integer and float terms, and entailment of linear inequalities from a few path facts."""
from fractions import Fraction
from ir import mk, I, ZERO, Term
import re


class Poly(object):
    """polynomial over atom terms: {frozenset-like sorted tuple of atoms: coefficient}"""
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def atom(t):
        return Poly({(t,): Fraction(1)})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for k, v in self.m.items():
            for l, w in o.m.items():
                n = tuple(sorted(k + l, key=lambda t: t.n if isinstance(t, Term) else -1))
                m[n] = m.get(n, 0) + v * w
        return Poly(m)

    def __eq__(self, o):
        return self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def isconst(self):
        return all(k == () for k in self.m)

    def c(self):
        return self.m.get((), Fraction(0))

    def atoms(self):
        return {a for k in self.m for a in k}

    def subst(self, f):
        """replace atoms by polynomials: f(atom) -> Poly or None"""
        r = Poly()
        for k, v in self.m.items():
            p = Poly.const(v)
            for a in k:
                q = f(a)
                p = p * (q if q is not None else Poly.atom(a))
            r = r + p
        return r

    def __repr__(self):
        return ' + '.join('%s%s' % ('' if v == 1 else '%s*' % v, '*'.join(map(repr, k)) or '1') for k, v in self.m.items()) or '0'


def poly(t, atomf=None, through_trunc=True):
    """polynomial of a term; atomf(term) may give a Poly (or None to descend)"""
    if atomf is not None:
        p = atomf(t)
        if p is not None:
            return p
    if t.k == 'i':
        return Poly.const(t.a[0])
    if t.k == 'f':
        try:
            return Poly.const(Fraction(float(t.a[0]))) if float(t.a[0]) == float(t.a[0]) and abs(float(t.a[0])) < 1e300 else Poly.atom(t)
        except (ValueError, OverflowError):
            return Poly.atom(t)
    if t.k == 'cast':
        if t.a[0] in ('sext', 'zext', 'sitofp', 'uitofp', 'fpext', 'fptrunc') and t.a[1] != 'i1' or t.a[0] == 'trunc' and through_trunc:
            return poly(t.a[3], atomf, through_trunc)
        return Poly.atom(t)
    if t.k == 'op':
        o = t.a[0]
        if o in ('add', 'fadd'):
            return poly(t.a[1], atomf, through_trunc) + poly(t.a[2], atomf, through_trunc)
        if o in ('sub', 'fsub'):
            return poly(t.a[1], atomf, through_trunc) - poly(t.a[2], atomf, through_trunc)
        if o in ('mul', 'fmul'):
            return poly(t.a[1], atomf, through_trunc) * poly(t.a[2], atomf, through_trunc)
        if o == 'fneg':
            return -poly(t.a[1], atomf, through_trunc)
        if o == 'shl' and t.a[2].k == 'i':
            return poly(t.a[1], atomf, through_trunc) * Poly.const(1 << t.a[2].a[0])
        if o == 'fdiv':
            d = poly(t.a[2], atomf, through_trunc)
            if d.isconst() and d.c() != 0:
                return poly(t.a[1], atomf, through_trunc) * Poly.const(1 / d.c())
    if t.k == 'pure' and t.a[0] == 'fmuladd':
        return poly(t.a[1], atomf, through_trunc) * poly(t.a[2], atomf, through_trunc) + poly(t.a[3], atomf, through_trunc)
    return Poly.atom(t)


def facts_ge(S, atomf=None, integers=True, through_trunc=True):
    """polynomials known to be >= 0 in state S"""
    out = []
    inf = float('inf')
    for t, (lo, hi, ne) in S.facts.items():
        if t.k == 'cmp' and lo == hi and lo in (0, 1):
            p, a, b = t.a
            x, y = poly(a, atomf, through_trunc), poly(b, atomf, through_trunc)
            if p == 'eq' or p == 'oeq':
                if lo == 1:
                    out += [x - y, y - x]
            elif p in ('slt', 'ult'):
                out.append(y - x - Poly.const(1) if lo == 1 else x - y)
            elif p in ('olt', 'ole'):
                out.append(y - x if lo == 1 else x - y)
        else:
            x = poly(t, atomf, through_trunc)
            if lo > -inf:
                out.append(x - Poly.const(lo))
            if hi < inf:
                out.append(Poly.const(hi) - x)
    return out


def entails(facts, goal, extra=(), depth=2):
    """goal >= 0 follows from facts (each >= 0) by adding up to `depth` of them and a non-negative constant"""
    if goal.isconst():
        return goal.c() >= 0
    fs = list(dict.fromkeys(list(facts) + list(extra)))
    fs = [f for f in fs if not f.isconst()]

    def rec(g, d, start):
        if g.isconst():
            return g.c() >= 0
        if d == 0:
            return False
        for i in range(start, len(fs)):
            if any(k in g.m and g.m[k] * v > 0 for k, v in fs[i].m.items() if k != ()):
                if rec(g - fs[i], d - 1, 0):
                    return True
        return False
    return rec(goal, depth, 0)
