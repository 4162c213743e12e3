"""Ranges, signs and monotonicity of floating-point terms under the facts of a path (closed intervals of doubles, NaN tracked)."""
import math
from lib import *

FMAX = 1.7976931348623157e308
TOP = (-INF, INF, True)


def up(x):
    return math.nextafter(x, INF)


def dn(x):
    return math.nextafter(x, -INF)


def _fc(t):
    if t.k == 'i':
        return float(t.a[0])
    if t.k == 'f':
        try:
            v = t.a[0]
            return float(v)
        except ValueError:
            return None
    return None


def facts_on(S, t):
    """range of the float term t that path conditions give; nan False if some ordered comparison on it is known true"""
    lo, hi, nan = -INF, INF, True
    for f, (l, h, ne) in S.facts.items():
        if f.k != 'cmp' or l != h or l not in (0, 1):
            continue
        p, a, b = f.a
        if p not in ('olt', 'ole', 'oeq', 'uno') or (a is not t and b is not t):
            continue
        o = b if a is t else a
        if p == 'uno':
            if l == 0:
                nan = False
            continue
        c = _fc(o)
        if l == 1:
            nan = False
            if c is None:
                continue
            if p == 'oeq':
                lo, hi = max(lo, c), min(hi, c)
            elif a is t:
                hi = min(hi, dn(c) if p == 'olt' else c)
            else:
                lo = max(lo, up(c) if p == 'olt' else c)
        elif c is not None and p != 'oeq':
            # not(t < c): t >= c or NaN
            if a is t:
                lo = max(lo, c if p == 'olt' else up(c))
            else:
                hi = min(hi, c if p == 'olt' else dn(c))
    return lo, hi, nan


def _mul(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def frange(S, t, atomf=None, d=0):
    """(lo, hi, may be NaN)"""
    r = _frange(S, t, atomf, d)
    l, h, n = facts_on(S, t)
    return max(r[0], l), min(r[1], h), r[2] and n


def _frange(S, t, atomf, d):
    if d > 40:
        return TOP
    if atomf:
        r = atomf(t)
        if r is not None:
            return r
    c = _fc(t)
    if c is not None:
        return (c, c, c != c) if c == c else TOP
    R = lambda x: frange(S, x, atomf, d + 1)
    if t.k == 'cast':
        if t.a[0] in ('sitofp', 'uitofp'):
            lo, hi, ne = S.rng(t.a[3])
            if t.a[3].k == 'op' or t.a[3].k == 'cast':
                l2, h2 = irange(S, t.a[3], atomf)
                lo, hi = max(lo, l2), min(hi, h2)
            if atomf:
                r = atomf(t.a[3])
                if r is not None:
                    lo, hi = max(lo, r[0]), min(hi, r[1])
            w = int(t.a[1][1:]) if t.a[1][1:].isdigit() else 64
            lo, hi = max(lo, -2.0 ** (w - 1) if t.a[0] == 'sitofp' else 0), min(hi, 2.0 ** w)
            if lo == 0 and 0 in ne:
                lo = 1
            if hi == 0 and 0 in ne:
                hi = -1
            return float(lo), float(hi), False
        if t.a[0] in ('fpext',):
            return R(t.a[3])
        return TOP
    if t.k == 'sel':
        out = []
        for val, x in ((1, t.a[1]), (0, t.a[2])):
            S2 = S.copy()
            if S2.assume(t.a[0], bool(val)) is not False and S.truth(t.a[0]) in (None, val, bool(val)):
                out.append(frange(S2, x, atomf, d + 1))
        if not out:
            return TOP
        return min(o[0] for o in out), max(o[1] for o in out), any(o[2] for o in out)
    if t.k == 'op':
        o = t.a[0]
        if o == 'fneg':
            l, h, n = R(t.a[1])
            return -h, -l, n
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = R(t.a[1]), R(t.a[2])
            return arith(o, a, b)
    if t.k == 'pure':
        f = t.a[0]
        args = [x for x in t.a[1:] if isinstance(x, Term)]
        if f == 'fmuladd':
            return arith('fadd', arith('fmul', R(args[0]), R(args[1])), R(args[2]))
        if f in ('exp', 'log', 'sqrt', 'fabs', 'log1p', 'expm1'):
            l, h, n = R(args[0])
            if f == 'fabs':
                return (0.0 if l <= 0 <= h else min(abs(l), abs(h))), max(abs(l), abs(h)), n
            if f == 'exp':
                e = lambda x: 0.0 if x < -745 else INF if x > 709.7 else math.exp(x)
                return max(0.0, dn(e(l)) if l != 0 else 1.0), up(e(h)) if h != 0 else 1.0, n
            if f == 'expm1':
                e = lambda x: -1.0 if x < -745 else INF if x > 709.7 else math.expm1(x)
                return max(-1.0, dn(e(l)) if l != 0 else 0.0), up(e(h)) if h != 0 else 0.0, n
            if f == 'log':
                g = lambda x: -INF if x <= 0 else INF if x == INF else math.log(x)
                return (dn(g(l)) if l != 1 else 0.0), (up(g(h)) if h != 1 else 0.0), n or l < 0
            if f == 'log1p':
                g = lambda x: -INF if x <= -1 else INF if x == INF else math.log1p(x)
                return (dn(g(l)) if l != 0 else 0.0), (up(g(h)) if h != 0 else 0.0), n or l < -1
            if f == 'sqrt':
                g = lambda x: 0.0 if x <= 0 else INF if x == INF else math.sqrt(x)
                return g(l), g(h), n or l < 0
        if f in ('fmin', 'fmax') and len(args) == 2:
            a, b = R(args[0]), R(args[1])
            if f == 'fmin':
                r = [min(a[0], b[0]), min(a[1], b[1])]
            else:
                r = [max(a[0], b[0]), max(a[1], b[1])]
            # a NaN argument yields the other one
            if a[2]:
                r = [min(r[0], b[0]), max(r[1], b[1])]
            if b[2]:
                r = [min(r[0], a[0]), max(r[1], a[1])]
            return r[0], r[1], a[2] and b[2]
    return TOP


def irange(S, t, atomf=None, d=0):
    """integer range of sums and products (without overflow)"""
    lo, hi, ne = S.rng(t)
    if d > 20:
        return lo, hi
    if atomf:
        r = atomf(t)
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
    if t.k == 'cast' and t.a[0] in ('sext', 'zext') and t.a[1] != 'i1':
        l, h = irange(S, t.a[3], atomf, d + 1)
        if t.a[0] == 'sext' or l >= 0:
            lo, hi = max(lo, l), min(hi, h)
    if t.k == 'op' and t.a[0] in ('add', 'sub', 'mul'):
        a, b = irange(S, t.a[1], atomf, d + 1), irange(S, t.a[2], atomf, d + 1)
        if t.a[0] == 'add':
            r = a[0] + b[0], a[1] + b[1]
        elif t.a[0] == 'sub':
            r = a[0] - b[1], a[1] - b[0]
        else:
            v = [_mul(x, y) for x in a for y in b]
            r = min(v), max(v)
        lo, hi = max(lo, r[0]), min(hi, r[1])
    return lo, hi


def arith(o, a, b):
    n = a[2] or b[2]
    if o == 'fsub':
        return arith('fadd', a, (-b[1], -b[0], b[2]))
    if o == 'fadd':
        if a[0] == -INF and b[1] == INF or a[1] == INF and b[0] == -INF:
            n = True
        s = lambda x, y, dflt: dflt if x != x or y != y or x == -y and abs(x) == INF else x + y
        return s(a[0], b[0], -INF), s(a[1], b[1], INF), n
    if o == 'fmul':
        inf = lambda r: abs(r[0]) == INF or abs(r[1]) == INF
        zero = lambda r: r[0] <= 0 <= r[1]
        if inf(a) and zero(b) or inf(b) and zero(a):
            n = True
        v = [_mul(x, y) for x in a[:2] for y in b[:2]]
        return min(v), max(v), n
    if o == 'fdiv':
        if b[0] <= 0 <= b[1]:
            if b[0] == 0 and a[0] > 0:
                return (a[0] / b[1] if b[1] not in (0, INF) else 0.0), INF, n
            return -INF, INF, True
        v = []
        for x in a[:2]:
            for y in b[:2]:
                if abs(x) == INF and abs(y) == INF:
                    n = True
                    v += [0.0, math.copysign(INF, x) * math.copysign(1, y)]
                elif abs(x) == INF:
                    v.append(x * math.copysign(1, y))
                else:
                    q = x / y if abs(y) != INF else 0.0
                    v.append(q)
        return min(v), max(v), n
    return TOP


def mono(S, t, var, atomf=None, d=0):
    """0 constant, +1 nondecreasing, -1 nonincreasing in the values selected by var(term) -> bool; None unknown"""
    if var(t):
        return 1
    if t.k in ('i', 'f', 'g', 's', 'fn', 'A', 'arg'):
        return 0
    if d > 40:
        return None
    M = lambda x: mono(S, x, var, atomf, d + 1)
    R = lambda x: frange(S, x, atomf)
    if t.k == 'cast' and t.a[0] in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'sext', 'zext', 'trunc'):
        return M(t.a[3])
    if t.k == 'op':
        o = t.a[0]
        if o == 'fneg':
            m = M(t.a[1])
            return -m if m is not None else None
        a, b = M(t.a[1]), M(t.a[2])
        if a is None or b is None:
            return None
        if a == b == 0:
            return 0
        if o in ('add', 'fadd', 'sub', 'fsub'):
            if 'sub' in o:
                b = -b
            return a or b if not (a and b) or a == b else None
        sg = lambda x: (lambda r: 1 if r[0] >= 0 else -1 if r[1] <= 0 else 0)(R(x) if o[0] == 'f' else irange(S, x, atomf))
        if o in ('mul', 'fmul'):
            out = 0
            for m, other in ((a, t.a[2]), (b, t.a[1])):
                if m:
                    s = sg(other)
                    if not s and o == 'fmul' and R(t)[0] > 0:
                        # the product is known to be positive: both factors have one sign
                        s = sg(t.a[1] if other is t.a[2] else t.a[2])
                    if not s:
                        return None
                    x = m * s
                    if out and out != x:
                        return None
                    out = x
            return out
        if o == 'fdiv':
            s = sg(t.a[2])
            if not s:
                return None
            out = a * s
            if b:
                q = sg(t.a[1])
                if not q:
                    return None
                x = -b * q
                if out and out != x:
                    return None
                out = x
            return out
        return None
    if t.k == 'sel':
        vals = []
        for val, x in ((1, t.a[1]), (0, t.a[2])):
            vals.append(M(x))
        if None in vals:
            return None
        nz = {v for v in vals if v}
        if M(t.a[0]) == 0 if t.a[0].k not in ('cmp', 'not') else dep(t.a[0], var) is False:
            return nz.pop() if len(nz) == 1 else 0 if not nz else None
        # a clamp: the condition compares one of the two values with the other
        c = t.a[0]
        while c.k == 'not':
            c = c.a[0]
        if c.k == 'cmp' and {c.a[1], c.a[2]} == {t.a[1], t.a[2]} and len(nz) <= 1:
            return nz.pop() if nz else 0
        return None
    if t.k == 'pure':
        f = t.a[0]
        args = [x for x in t.a[1:] if isinstance(x, Term)]
        if f in ('exp', 'log', 'sqrt', 'log1p', 'expm1'):
            return M(args[0])
        if f == 'fabs':
            m, r = M(args[0]), R(args[0])
            return m if m == 0 or m is None else m if r[0] >= 0 else -m if r[1] <= 0 else None
        if f in ('fmin', 'fmax'):
            m = {M(args[0]), M(args[1])}
            if None in m:
                return None
            m.discard(0)
            return 0 if not m else m.pop() if len(m) == 1 else None
        if f == 'fmuladd':
            x = mk('op', 'fadd', mk('op', 'fmul', args[0], args[1]), args[2])
            return mono(S, x, var, atomf, d + 1)
    return 0 if dep(t, var) is False else None


def dep(t, var):
    return any(var(x) for x in subterms(t))


def rat(t, atomf=None):
    """(numerator, denominator) polynomials of a term"""
    from poly import Poly, poly
    R = lambda x: rat(x, atomf)
    one = Poly.const(1)
    if t.k == 'op' and t.a[0] in ('fadd', 'fsub', 'add', 'sub'):
        (a, b), (p, q) = R(t.a[1]), R(t.a[2])
        if t.a[0] in ('fsub', 'sub'):
            p = -p
        return (a + p, b) if b == q else (a * q + p * b, b * q)
    if t.k == 'op' and t.a[0] in ('fmul', 'mul'):
        (a, b), (p, q) = R(t.a[1]), R(t.a[2])
        return a * p, b * q
    if t.k == 'op' and t.a[0] == 'fdiv':
        (a, b), (p, q) = R(t.a[1]), R(t.a[2])
        return a * q, b * p
    if t.k == 'op' and t.a[0] == 'fneg':
        a, b = R(t.a[1])
        return -a, b
    if t.k == 'pure' and t.a[0] == 'fmuladd':
        (a, b), (p, q), (x, y) = R(t.a[1]), R(t.a[2]), R(t.a[3])
        return a * p * y + x * b * q, b * q * y
    if t.k == 'cast' and t.a[0] in ('sitofp', 'uitofp', 'fpext', 'sext', 'zext') and t.a[1] != 'i1':
        return R(t.a[3])
    return poly(t, atomf), one


def rat_equal(x, y):
    return x[0] * y[1] == y[0] * x[1]
