"""Property simulation: a disjunctive forward dataflow analysis over one flattened function.

Abstract state = (values of live SSA names and tracked memory as interned terms, interval/disequality facts, automaton
state of the client rule).  States are propagated to a fixpoint; a block keeps at most CAP distinct states per automaton
state and joins (forgets differing facts) beyond that, so the iteration terminates.  No path is executed and no solver
is involved; infeasible branches are cut only by the facts in the state."""
from ir import mk, I, ZERO, Term, is_const, show, FRESH
import api

INF = float('inf')


def canon_cmp(pred, a, b):
    """-> (atom, polarity) or (bool const None)"""
    inv = False
    if pred in ('ne',):
        pred, inv = 'eq', True
    elif pred in ('sgt', 'ugt'):
        pred, a, b = pred[0] + 'lt', b, a
    elif pred in ('sge', 'uge'):
        pred, inv = pred[0] + 'lt', True
    elif pred in ('sle', 'ule'):
        pred, a, b, inv = pred[0] + 'lt', b, a, True
    elif pred == 'ogt':
        pred, a, b = 'olt', b, a
    elif pred == 'oge':
        pred, a, b = 'ole', b, a
    elif pred == 'une':
        pred, inv = 'oeq', True
    elif pred == 'ult?':
        pass
    elif pred in ('ugt', 'uge', 'ule') or pred == 'uno':
        pass
    if pred in ('eq', 'oeq'):
        if is_const(a) and not is_const(b):
            a, b = b, a
        elif not is_const(b) and b.n < a.n:
            a, b = b, a
    return pred, a, b, inv


FPRED = {'oeq', 'olt', 'ole', 'uno', 'ord', 'ueq'}


def ptr_idx(t):
    return (t.a[0], t.a[1]) if t.k == 'idx' else (t, ZERO)


def cmp_term(pred, a, b, fp=False):
    if not fp and (a.k == 'idx' or b.k == 'idx'):
        # two places of one array: compare their indexes
        (p, u), (q, v) = ptr_idx(a), ptr_idx(b)
        if p is q:
            return cmp_term({'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred), u, v)
    if fp and pred in ('ult', 'ule', 'ugt', 'uge'):
        # unordered-or: not of the ordered opposite
        opp = {'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt'}[pred]
        p, x, y, inv = canon_cmp(opp, a, b)
        inv = not inv
    else:
        p, x, y, inv = canon_cmp(pred, a, b)
    # constant folding
    if x.k == 'i' and y.k == 'i':
        u, v = x.a[0], y.a[0]
        if p == 'ult':
            u, v = u % (1 << 64), v % (1 << 64)
        r = {'eq': u == v, 'slt': u < v, 'ult': u < v}.get(p)
        if r is not None:
            return I(int(r != inv))
    if x is y and p in ('eq', 'slt', 'ult'):
        return I(int((p == 'eq') != inv))
    if x.k == 'f' and y.k == 'f' and p in ('oeq', 'olt', 'ole'):
        try:
            u, v = float(x.a[0]), float(y.a[0])
            return I(int({'oeq': u == v, 'olt': u < v, 'ole': u <= v}[p] != inv))
        except ValueError:
            pass
    if p == 'eq' and y.k == 'i' and x.k in ('s', 'fn', 'g', 'A') and y is ZERO:
        return I(int(inv))
    if p == 'eq' and x.k in ('s', 'fn', 'g') and y.k in ('s', 'fn', 'g'):
        return I(int((x is y) != inv))
    if p == 'eq' and x.k == 'fld' and y is ZERO and root(x).k in ('A', 'g'):
        return I(int(inv))
    if p == 'eq' and y.k == 'i':
        # (zext c) == 0/1
        z = x
        while z.k == 'cast' and z.a[0] in ('zext', 'sext') and z.a[1] != 'i1':
            z = z.a[3]
        if z.k == 'cast' and z.a[1] == 'i1':
            z = z.a[3]
            if y is ZERO:
                return not_(z) if not inv else z
            if y.a[0] in (1, -1):
                return z if not inv else not_(z)
        elif z.k in ('cmp', 'not'):
            if y is ZERO:
                return not_(z) if not inv else z
            if y.a[0] in (1, -1):
                return z if not inv else not_(z)
    t = mk('cmp', p, x, y)
    return not_(t) if inv else t


def not_(t):
    if t.k == 'i':
        return I(1 - (t.a[0] & 1))
    if t.k == 'not':
        return t.a[0]
    return mk('not', t)


def root(t):
    while t.k in ('fld', 'idx'):
        t = t.a[0]
    return t


def key_of(loc):
    """coarse class of a location, for liveness and clobbering"""
    t = loc
    r = root(t)
    if r.k == 'A':
        return ('A', r.a[0])
    while t.k == 'idx':
        t = t.a[0]
    if t.k == 'fld':
        return ('F', t.a[1])
    if t.k == 'g':
        return ('G', t.a[0])
    return ('D',)


def op_term(name, a, b, ty):
    if a.k == 'i' and b.k == 'i':
        x, y = a.a[0], b.a[0]
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                 'xor': lambda: x ^ y, 'shl': lambda: x << (y & 63),
                 'ashr': lambda: x >> y, 'sdiv': lambda: int(x / y), 'srem': lambda: x - y * int(x / y),
                 'udiv': lambda: x // y, 'urem': lambda: x % y, 'lshr': lambda: (x % (1 << 64)) >> y}[name]()
        except (KeyError, ZeroDivisionError, ValueError):
            r = None
        if r is not None:
            if isinstance(ty, str) and ty[0] == 'i' and ty != 'i1':
                w = int(ty[1:])
                r = ((r + (1 << (w - 1))) % (1 << w)) - (1 << (w - 1))
            elif ty == 'i1':
                r &= 1
            return I(r)
    if ty == 'i1':
        if name == 'xor' and b.k == 'i':
            return not_(a) if b.a[0] & 1 else a
        if name == 'and':
            for u, v in ((a, b), (b, a)):
                if u.k == 'i':
                    return v if u.a[0] & 1 else ZERO
        if name == 'or':
            for u, v in ((a, b), (b, a)):
                if u.k == 'i':
                    return I(1) if u.a[0] & 1 else v
    if name == 'sub' and b.k == 'i':
        name, b = 'add', I(-b.a[0])
    if name in ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul') and (is_const(a) and not is_const(b) or (not is_const(b) and b.n < a.n)):
        a, b = b, a
    if name == 'add' and b.k == 'i':
        if b.a[0] == 0:
            return a
        if a.k == 'op' and a.a[0] == 'add' and a.a[2].k == 'i':
            return op_term('add', a.a[1], I(a.a[2].a[0] + b.a[0]), ty)
    if name == 'sub' and a is b:
        return ZERO
    return mk('op', name, a, b)


def cast_term(op, frm, to, t):
    if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
        return t
    if t.k == 'i':
        v = t.a[0]
        if op == 'zext' and v < 0:
            v %= 1 << int(frm[1:])
        if op == 'trunc':
            w = int(to[1:])
            v = ((v + (1 << (w - 1))) % (1 << w)) - (1 << (w - 1)) if w > 1 else v & 1
        if op in ('sitofp', 'uitofp'):
            return mk('f', repr(float(v)))
        return I(v)
    if op in ('fpext', 'fptrunc') and t.k == 'f':
        return t
    if op in ('fptosi', 'fptoui') and t.k == 'f':
        try:
            return I(int(float(t.a[0])))
        except (ValueError, OverflowError):
            pass
    if op == 'trunc' and t.k == 'cast' and t.a[0] in ('zext', 'sext') and t.a[1] == to:
        return t.a[3]
    if op in ('sext', 'zext') and t.k == 'cast' and t.a[0] == op:
        return mk('cast', op, t.a[1], to, t.a[3])
    return mk('cast', op, frm, to, t)


NNF = set()    # fields the client knows to hold non-negative values
NN = set()     # phis of the function under analysis that are sums of non-negative parts


class State(object):
    __slots__ = ('env', 'mem', 'facts', 'auto')

    def __init__(self, env=None, mem=None, facts=None, auto=None):
        self.env, self.mem, self.facts, self.auto = env or {}, mem or {}, facts or {}, auto

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.facts), self.auto)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()), self.auto)

    # ---- facts -----------------------------------------------------------
    def rng(self, t, d=0):
        """(lo, hi, ne) of a term"""
        k = t.k
        if k == 'i':
            return t.a[0], t.a[0], ()
        lo, hi, ne = -INF, INF, ()
        f = self.facts.get(t)
        if f:
            lo, hi, ne = f
        if k == 'o' and lo < 0 and t.a[0] in NN or k == 'old' and lo < 0 and t.a[1].k == 'o' and t.a[1].a[0] in NN:
            lo = 0
        if NNF and lo < 0:
            u = t.a[1] if k == 'old' else t
            if u.k == 'ld':
                key = key_of(u.a[1])
                if key[0] == 'F' and key[1] in NNF:
                    lo = 0
        if d > 6:
            return lo, hi, ne
        if k == 'cast':
            op, frm, to, x = t.a
            l, h, n = self.rng(x, d + 1)
            if op in ('zext', 'sext'):
                w = int(frm[1:])
                if op == 'zext':
                    if frm == 'i1':
                        l, h = max(l, 0), min(h, 1)
                    elif l < 0:
                        l, h = 0, (1 << w) - 1
                        n = (0,) if 0 in n else ()
                    h = min(h, (1 << w) - 1)
                else:
                    l, h = max(l, -(1 << (w - 1))), min(h, (1 << (w - 1)) - 1)
                lo, hi = max(lo, l), min(hi, h)
                ne = tuple(set(ne) | set(n))
            elif op == 'trunc':
                w = int(to[1:])
                m = 1 << (w - 1)
                if l >= -m and h < m:
                    lo, hi = max(lo, l), min(hi, h)
                    ne = tuple(set(ne) | set(n))
                else:
                    lo, hi = max(lo, -m), min(hi, m - 1)
        elif k == 'op':
            n, a, b = t.a
            if n == 'add' and b.k == 'i':
                l, h, e = self.rng(a, d + 1)
                c = b.a[0]
                lo, hi = max(lo, l + c), min(hi, h + c)
                ne = tuple(set(ne) | {x + c for x in e})
            elif n in ('add', 'sub'):
                l, h, e = self.rng(a, d + 1)
                l2, h2, e2 = self.rng(b, d + 1)
                if n == 'add':
                    lo, hi = max(lo, l + l2), min(hi, h + h2)
                else:
                    lo, hi = max(lo, l - h2), min(hi, h - l2)
            elif n == 'and' and b.k == 'i' and b.a[0] >= 0:
                lo, hi = max(lo, 0), min(hi, b.a[0])
            elif n in ('urem', 'srem') and b.k == 'i' and b.a[0] > 0:
                l, h, e = self.rng(a, d + 1)
                lo, hi = max(lo, 0 if (l >= 0 or n == 'urem') else 1 - b.a[0]), min(hi, b.a[0] - 1)
            elif n in ('sdiv', 'udiv') and b.k == 'i' and b.a[0] > 0:
                l, h, e = self.rng(a, d + 1)
                if l >= 0:
                    lo, hi = max(lo, l // b.a[0]), min(hi, h // b.a[0] if h != INF else INF)
            elif n == 'xor' and b.k == 'i':
                l, h, e = self.rng(a, d + 1)
                if l >= 0 and h <= 3 and 0 <= b.a[0] <= 3:
                    lo, hi = max(lo, 0), min(hi, 3)
            elif n == 'mul' and b.k == 'i' and b.a[0] > 0:
                l, h, e = self.rng(a, d + 1)
                lo, hi = max(lo, l * b.a[0]), min(hi, h * b.a[0])
        elif k == 'sel':
            l1, h1, _ = self.rng(t.a[1], d + 1)
            l2, h2, _ = self.rng(t.a[2], d + 1)
            lo, hi = max(lo, min(l1, l2)), min(hi, max(h1, h2))
        elif k in ('s', 'fn', 'g', 'A'):
            ne = (0,)
        elif k in ('fld', 'idx'):
            if root(t).k in ('A', 'g'):
                ne = (0,)
        elif k == 'c':
            r = api.RET.get(t.a[1])
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            if t.a[1] in api.NONNULL:
                ne = tuple(set(ne) | {0})
            elif t.a[1] == 'g_strdup' and len(t.a) == 3:
                l, h, n = self.rng(t.a[2], d + 1)
                if 0 in n or l > 0:
                    ne = tuple(set(ne) | {0})
                elif l == h == 0:
                    lo = hi = 0
        elif k == 'ld':
            if t.a[1].k == 'fld' and t.a[1].a[1] in api.NONNULL_FIELDS:
                ne = tuple(set(ne) | {0})
            if t.a[1].k == 'fld' and t.a[1].a[1] in api.NONNEG_FIELDS:
                lo = max(lo, 0)
        elif k in ('cmp', 'not'):
            lo, hi = max(lo, 0), min(hi, 1)
        return lo, hi, ne

    def truth(self, t):
        """True/False/None for an i1 term"""
        if t.k == 'i':
            return bool(t.a[0] & 1)
        if t.k == 'not':
            r = self.truth(t.a[0])
            return None if r is None else not r
        f = self.facts.get(t)
        if f and f[0] == f[1]:
            return bool(f[0])
        if t.k == 'cmp':
            p, a, b = t.a
            if p in ('eq', 'slt', 'ult'):
                la, ha, na = self.rng(a)
                lb, hb, nb = self.rng(b)
                if p == 'eq':
                    if la == ha == lb == hb:
                        return True
                    if ha < lb or hb < la:
                        return False
                    if lb == hb and lb in na or la == ha and la in nb:
                        return False
                elif p == 'slt' or (la >= 0 and lb >= 0):
                    if ha < lb:
                        return True
                    if la >= hb:
                        return False
            # implied by facts on the same pair
            if p == 'slt':
                f = self.facts.get(mk('cmp', 'slt', b, a))
                if f and f[0] == 1:
                    return False
                if a.n <= b.n:
                    e = self.facts.get(mk('cmp', 'eq', a, b))
                else:
                    e = self.facts.get(mk('cmp', 'eq', b, a))
                if e and e[0] == 1:
                    return False
        elif t.k == 'op' and t.a[0] in ('and', 'or'):
            x, y = self.truth(t.a[1]), self.truth(t.a[2])
            if t.a[0] == 'and':
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            else:
                if x or y:
                    return True
                if x is False and y is False:
                    return False
        elif t.k == 'sel':
            c = self.truth(t.a[0])
            if c is not None:
                return self.truth(t.a[1] if c else t.a[2])
            x, y = self.truth(t.a[1]), self.truth(t.a[2])
            if x is not None and x == y:
                return x
        l, h, n = self.rng(t)
        if l == h:
            return bool(l)
        return None

    def refine(self, t, lo=-INF, hi=INF, ne=()):
        if t.k == 'i':
            v = t.a[0]
            return lo <= v <= hi and v not in ne
        if t.k == 'cast' and t.a[0] in ('sext', 'zext'):
            if t.a[0] == 'zext' and lo < 0:
                lo = -INF
            x = t.a[3]
            if t.a[0] == 'zext' and t.a[1] != 'i1' and not (self.rng(x)[0] >= 0 or lo >= 0):
                pass
            else:
                if t.a[1] == 'i1' and lo == hi and lo in (0, 1):
                    return self.assume(x, bool(lo))
                if t.a[1] == 'i1' and ne and 0 in ne:
                    return self.assume(x, True)
                return self.refine(x, lo, hi, ne)
        if t.k == 'op' and t.a[0] == 'add' and t.a[2].k == 'i':
            c = t.a[2].a[0]
            return self.refine(t.a[1], lo - c, hi - c, tuple(x - c for x in ne))
        if t.k in ('cmp', 'not') or (t.k == 'op' and t.a[0] in ('and', 'or') and False):
            if lo == hi and lo in (0, 1):
                return self.assume(t, bool(lo))
            if 0 in ne:
                return self.assume(t, True)
        l, h, n = self.rng(t)
        l2, h2 = max(l, lo), min(h, hi)
        n2 = set(n) | set(ne)
        while l2 in n2:
            l2 += 1
        while h2 in n2:
            h2 -= 1
        if l2 > h2:
            return False
        n2 = tuple(sorted(x for x in n2 if l2 <= x <= h2))
        self.facts[t] = (l2, h2, n2)
        return True

    def assume(self, t, val):
        """add i1 term t == val; False if infeasible"""
        if t.k == 'not':
            return self.assume(t.a[0], not val)
        cur = self.truth(t)
        if cur is not None and cur != val:
            return False
        if t.k == 'op' and ((t.a[0] == 'and' and val) or (t.a[0] == 'or' and not val)):
            return self.assume(t.a[1], val) and self.assume(t.a[2], val)
        if t.k == 'sel':
            c = self.truth(t.a[0])
            if c is not None:
                return self.assume(t.a[1] if c else t.a[2], val)
            # c ? x : const
            for i, cv in ((1, False), (2, True)):
                x = self.truth(t.a[i])
                if x is not None and x != val:
                    if not self.assume(t.a[0], cv):
                        return False
                    return self.assume(t.a[3 - i], val)
        if t.k == 'cmp':
            p, a, b = t.a
            if p == 'eq':
                if val:
                    la, ha, na = self.rng(a)
                    lb, hb, nb = self.rng(b)
                    if not self.refine(a, lb, hb, nb) or not self.refine(b, la, ha, na):
                        return False
                else:
                    la, ha, na = self.rng(a)
                    lb, hb, nb = self.rng(b)
                    if lb == hb and not self.refine(a, ne=(lb,)):
                        return False
                    if la == ha and not self.refine(b, ne=(la,)):
                        return False
                if is_const(b) and b.k == 'i':
                    return True
            elif p in ('slt', 'ult'):
                la, ha, na = self.rng(a)
                lb, hb, nb = self.rng(b)
                if p == 'slt' or (la >= 0 and lb >= 0):
                    if val:
                        ok = self.refine(a, hi=hb - 1) and self.refine(b, lo=la + 1)
                    else:
                        ok = self.refine(a, lo=lb) and self.refine(b, hi=ha)
                    if not ok:
                        return False
                    if a.k == 'i' or b.k == 'i':
                        return True
                elif p == 'ult' and val and lb >= 0:
                    # a <u b with b >= 0: 0 <= a < b
                    if not self.refine(a, lo=0, hi=hb - 1):
                        return False
                elif p == 'ult' and not val and la >= 0:
                    # b <=u a with a >= 0: 0 <= b <= a
                    if not self.refine(b, lo=max(0, lb), hi=ha):
                        return False
                elif p == 'ult' and val and la >= 0:
                    if not self.refine(b, ne=(0,)):
                        return False
        self.facts[t] = (int(val), int(val), ())
        return True

    def nonnull(self, t):
        l, h, n = self.rng(t)
        return 0 in n or l > 0 or h < 0

    def isnull(self, t):
        l, h, n = self.rng(t)
        return l == 0 and h == 0

    # ---- substitution when a value is redefined ---------------------------
    def redefine(self, iid, track=False):
        if track and self.auto is not None:
            self.auto = subst_auto(self.auto, iid)
        cur = (('ld', iid), ('c', iid), ('o', iid), ('out', iid))
        oldk = ('old', iid)

        def hit(t):
            at = t.atoms
            return at and (oldk in at or cur[0] in at or cur[1] in at or cur[2] in at or cur[3] in at)
        he = [k for k, v in self.env.items() if hit(v)]
        hm = [k for k, v in self.mem.items() if hit(k) or hit(v)]
        hf = [k for k in self.facts if hit(k)]
        if not he and not hm and not hf:
            return
        # oldest generation: holders become opaque
        ren = {}
        for k in he:
            v = self.env[k]
            if oldk in v.atoms:
                n = mk('o', k)
                if v not in ren:
                    ren[v] = n
                self.env[k] = n
        for k in hm:
            v = self.mem.pop(k)
            if oldk in k.atoms:
                continue
            if oldk in v.atoms:
                if v in ren:
                    v = ren[v]
                else:
                    continue
            self.mem[subst(k, iid)] = subst(v, iid)
        for k in hf:
            f = self.facts.pop(k)
            if oldk in k.atoms:
                if k in ren:
                    self.facts[ren[k]] = f
                continue
            self.facts[subst(k, iid)] = f
        for k in he:
            self.env[k] = subst(self.env[k], iid)


_sub = {}


def subst(t, iid):
    """replace current-generation terms of instruction iid by their 'old' version"""
    ks = (('ld', iid), ('c', iid), ('o', iid), ('out', iid))
    if not any(k in t.atoms for k in ks):
        return t
    key = (t, iid)
    r = _sub.get(key)
    if r is not None:
        return r
    if t.k in ('ld', 'c', 'o', 'out') and t.a[0] == iid:
        r = mk('old', iid, t)
        r.atoms = (t.atoms - set(ks)) | {('old', iid)}
    else:
        r = mk(t.k, *[subst(x, iid) if isinstance(x, Term) else x for x in t.a])
    _sub[key] = r
    return r


def subst_auto(x, iid):
    """automaton states that follow a value: keep it apart from its next generation (opt-in: Client.track)"""
    if isinstance(x, Term):
        if ('old', iid) in x.atoms:
            return mk('o', ('auto', iid))
        return subst(x, iid)
    if isinstance(x, tuple):
        return tuple(subst_auto(y, iid) for y in x)
    return x


class Violation(object):
    def __init__(self, rule, ins, msg, path):
        self.rule, self.ins, self.msg, self.path = rule, ins, msg, path

    def key(self):
        return (self.rule, self.ins.where() if self.ins else '', self.msg)


ERRNO = mk('pure', '__errno_location')


LISTF = {'_GSList.data', '_GSList.next', '_GList.data', '_GList.next', '_GList.prev'}


class Sim(object):
    CAP = 48
    DEPTH = 12
    MAXSTEPS = 400000

    def __init__(self, fn, client, live_keys=(), start=0, state=None, cap=None, stop=(), depth=None):
        self.fn, self.client, self.prog = fn, client, fn.prog
        self.live = fn.livein()
        self.start = start
        self.s0 = state
        self.stop = set(stop)
        if cap:
            self.CAP = cap
        if depth:
            self.DEPTH = depth
        self.viol = {}
        self.extra = set(live_keys)
        self.compute_memlive()
        self.inloop = set()
        for h, body, _ in fn.loops():
            self.inloop |= body
        self.parents = {}
        self.steps = 0
        self.visited_ins = set()
        self.escaped = set()
        client.sim = self

    # ---- memory liveness ---------------------------------------------------
    def static_loc(self, op, memo={}):
        """location key of a pointer operand, independent of the state"""
        if op[0] == 'g':
            t, _ = self.prog.first_leaf(mk('g', op[1]), self.prog.globals.get(op[1], {}).get('ty'))
            return key_of(t)
        if op[0] == 'v':
            i = self.fn.ins[op[1]]
            seen = 0
            while seen < 50:
                seen += 1
                if i.op == 'alloca':
                    return ('A', i.id)
                if i.op == 'fld':
                    r = i
                    # rooted in alloca never happens (relowered)
                    return ('F', self.prog.leaf_field(self.prog.field(*i.x)))
                if i.op == 'gep':
                    o = i.ops[0]
                    if o[0] == 'v':
                        i = self.fn.ins[o[1]]
                        if i.op not in ('alloca', 'fld', 'gep'):
                            return ('D',)
                        continue
                    return self.static_loc(o)
                break
        return ('D',)

    def compute_memlive(self):
        n = len(self.fn.blocks)
        use = [set(self.extra) for _ in range(n)]
        for b, ins in enumerate(self.fn.blocks):
            for i in ins:
                if i.op == 'load':
                    use[b].add(self.static_loc(i.ops[0]))
                elif i.op == 'call':
                    for o in i.ops:
                        if o[0] in ('v', 'g'):
                            k = self.static_loc(o)
                            if k != ('D',):
                                use[b].add(k)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.fn.rpo()):
                x = set(live[b])
                for s in self.fn.succ[b]:
                    x |= live[s]
                if x != live[b]:
                    live[b] = x
                    ch = True
        self.memlive = live
        use = [{('arg', o[1]) for i in ins for o in i.ops if o[0] == 'a'} for ins in self.fn.blocks]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.fn.rpo()):
                n = len(use[b])
                for s in self.fn.succ[b]:
                    use[b] |= use[s]
                if len(use[b]) != n:
                    ch = True
        self.arglive = use

    # ---- evaluation ----------------------------------------------------------
    def val(self, S, o):
        k = o[0]
        if k == 'v':
            t = S.env.get(o[1])
            if t is None:
                t = mk('o', o[1])
            return t
        if k == 'i':
            return I(o[1])
        if k == 'n':
            return ZERO
        if k == 'a':
            if self.s0 is not None and ('a', o[1]) in self.s0.env:
                return self.s0.env[('a', o[1])]
            return mk('arg', o[1], self.fn.args[o[1]][0])
        if k == 's':
            return mk('s', o[1])
        if k == 'g':
            return mk('g', o[1])
        if k == 'fn':
            return mk('fn', o[1])
        if k == 'f':
            return mk('f', o[1])
        if k == 'cc':
            return self.val(S, o[2])
        if k == 'cg':
            b = self.val(S, o[2])
            if o[1] == 'i8' and len(o) == 4 and o[3][0] == 'i':
                r = self.byoff(b, o[3][1])
                if r is not None:
                    return r
            if all(x[0] == 'i' for x in o[3:]) and isinstance(o[1], (str, list)) and o[1] != 'i8':
                ty = o[1]
                for n, x in enumerate(o[3:]):
                    if n == 0:
                        if x[1]:
                            b = mk('idx', b, I(x[1]))
                    elif isinstance(ty, str) and ty in self.prog.structs:
                        b = mk('fld', b, self.prog.field(ty, x[1]))
                        ty = self.prog.structs[ty]['f'][x[1]][1]
                    elif isinstance(ty, list) and ty[0] == 'arr':
                        if x[1] or isinstance(ty[2], list):
                            b = mk('idx', b, I(x[1]))
                        ty = ty[2]
                return self.addr_leaf(b) if b.k == 'fld' else b
            return mk('idx', b, mk('x', str(o[3:])))
        if k == 'u':
            return mk('u')
        return mk('x', str(o))

    def byoff(self, t, off):
        """the member at byte offset off of the aggregate t, or None"""
        ty = self.prog.field_type(t.a[1]) if t.k == 'fld' else self.type_at(t)
        while off > 0 and off < 1 << 20:
            if isinstance(ty, list) and ty[0] == 'arr' and ty[1] == 1:
                ty = ty[2]
            elif isinstance(ty, str) and ty in self.prog.structs:
                n = max((n for n, (o, _) in enumerate(self.prog.structs[ty]['f']) if o <= off), default=None)
                if n is None:
                    return None
                o, fty = self.prog.structs[ty]['f'][n]
                t, ty, off = mk('fld', t, self.prog.field(ty, n)), fty, off - o
            else:
                return None
        return t if off == 0 else None

    def addr_leaf(self, t):
        """normalise an address used for a scalar access"""
        if t.k == 'g':
            g = self.prog.globals.get(t.a[0])
            if g:
                return self.prog.first_leaf(t, g['ty'])[0]
        elif t.k == 'fld':
            ty = self.prog.field_type(t.a[1])
            if ty is not None and (isinstance(ty, list) or ty in self.prog.structs):
                return self.prog.first_leaf(t, ty)[0]
        elif t.k == 'A':
            ty = self.type_at(t)
            if isinstance(ty, str) and ty in self.prog.structs:
                return self.prog.first_leaf(t, ty)[0]
        return t

    def gep(self, S, i):
        base = self.val(S, i.ops[0])
        ty = i.x
        if ty == 'i8' and len(i.ops) == 2 and i.ops[1][0] == 'i' and (base.k in ('A', 'g') or base.k == 'fld'):
            r = self.byoff(base, i.ops[1][1])
            if r is not None and r is not base:
                return r
        if base.k == 'fld' and isinstance(ty, list):
            bt = self.prog.field_type(base.a[1])
            while isinstance(bt, list) and isinstance(bt[2], list) and bt != ty:
                base, bt = mk('idx', base, ZERO), bt[2]
        for n, o in enumerate(i.ops[1:]):
            ix = self.val(S, o)
            if n == 0:
                if ix is not ZERO:
                    if base.k == 'idx' and ix.k == 'i' and base.a[1].k == 'i' and base.a[0].k not in ('A', 'g', 'fld', 'idx') and not isinstance(ty, list):
                        ix = I(base.a[1].a[0] + ix.a[0])       # a pointer moved on
                        base = base.a[0]
                    if ix is not ZERO:
                        base = mk('idx', base, ix)
                continue
            if isinstance(ty, str) and ty in self.prog.structs and ix.k == 'i':
                base = mk('fld', base, self.prog.field(ty, ix.a[0]))
                ty = self.prog.structs[ty]['f'][ix.a[0]][1]
            elif isinstance(ty, list) and ty[0] == 'arr':
                if ix is not ZERO or isinstance(ty[2], list):
                    base = mk('idx', base, ix)
                ty = ty[2]
            else:
                base = mk('idx', base, ix)
        if base.depth > self.DEPTH:
            base = mk('o', i.id)
        return base

    # ---- memory ----------------------------------------------------------------
    def may_alias(self, S, a, b):
        if a is b:
            return True
        ra, rb = root(a), root(b)
        if ra.k == 'A' or rb.k == 'A':
            if ra is not rb:
                return False
        ka, kb = key_of(a), key_of(b)
        if ka != kb:
            if ra.k in ('A', 'g') and ra is rb:
                # one location inside the other?
                return self.within(a, b) or self.within(b, a)
            if ka == ('D',) or kb == ('D',):
                # raw pointer access vs a named field: assume distinct unless one contains the other
                return False
            return False
        if ra is rb and ra.k in ('A', 'g'):
            return self.path_alias(a, b)
        if ka[0] == 'F':
            x, y = a, b
            while x.k == 'idx':
                x = x.a[0]
            while y.k == 'idx':
                y = y.a[0]
            if x.a[0] is y.a[0]:
                return self.path_alias(a, b)
            if self.distinct(S, x.a[0], y.a[0]):
                return False
        return True

    def within(self, a, b):
        while True:
            if a is b:
                return True
            if a.k in ('fld', 'idx'):
                a = a.a[0]
            else:
                return False

    def path_alias(self, a, b):
        """same root: could the two paths denote overlapping storage?"""
        def steps(t):
            o = []
            while t.k in ('fld', 'idx'):
                o.append((t.k, t.a[1]))
                t = t.a[0]
            return o[::-1]
        pa, pb = steps(a), steps(b)
        ia = ib = 0
        while ia < len(pa) and ib < len(pb):
            x, y = pa[ia], pb[ib]
            if x[0] == 'fld' and y[0] == 'fld':
                if x[1] != y[1]:
                    return False
                ia += 1
                ib += 1
            elif x[0] == 'idx' and y[0] == 'idx':
                if x[1].k == 'i' and y[1].k == 'i' and x[1] is not y[1]:
                    return False
                ia += 1
                ib += 1
            elif x[0] == 'idx':
                if x[1].k == 'i' and x[1].a[0] != 0:
                    return True
                ia += 1
            else:
                ib += 1
        return True

    def distinct(self, S, p, q):
        """two base pointers known to differ"""
        if p is q:
            return False
        fresh = lambda t: t.k == 'c' and t.a[1] in FRESH
        if fresh(p) and fresh(q):
            return True
        for u, v in ((p, q), (q, p)):
            if fresh(u) and ('c', u.a[0]) not in v.atoms and v.k in ('arg', 'g', 'A'):
                return True
        if p.k == 'g' and q.k == 'g':
            return True
        c = cmp_term('eq', p, q)
        return S.truth(c) is False

    def clobber(self, S, loc):
        for k in [k for k in S.mem if self.may_alias(S, k, loc)]:
            del S.mem[k]

    def clobber_under(self, S, base):
        r = root(base)
        for k in list(S.mem):
            if self.within(k, base) or (self.within(base, k)):
                del S.mem[k]

    def clobber_keys(self, S, keys):
        for k in list(S.mem):
            kk = key_of(k)
            if kk in keys:
                del S.mem[k]

    def load(self, S, i, loc):
        v = S.mem.get(loc)
        if v is not None:
            return v
        r = root(loc)
        if r.k == 's' and i.ty == 'i8':
            off, l = 0, loc
            while l.k == 'idx' and l.a[1].k == 'i':
                off, l = off + l.a[1].a[0], l.a[0]
            if l is r and 0 <= off <= len(r.a[0]):
                return I(ord((r.a[0] + '\0')[off]))
        if loc.k == 'g' or r.k == 'g':
            # constant global scalars
            g = self.prog.globals.get(r.a[0])
            if g and g['const'] and loc is r and g['init'] and g['init'][0] in ('i', 's', 'n', 'f', 'fn'):
                return self.val(S, g['init'])
            if g and g['const'] and g['init']:
                v = self.const_at(S, g, loc)
                if v is not None:
                    return v
        t = mk('ld', i.id, loc) if loc.depth <= self.DEPTH - 3 else mk('o', i.id)
        S.mem[loc] = t
        return t

    def const_at(self, S, g, loc):
        """value of a scalar inside a constant global"""
        steps, l = [], loc
        while l.k in ('fld', 'idx'):
            steps.append((l.k, l.a[1]))
            l = l.a[0]
        ty, v = g['ty'], g['init']
        down = lambda n: None if v is None else ['zero'] if v[0] == 'zero' else ['i', ord((v[1] + '\0' * (n + 1))[n]), 8] if v[0] in ('str', 's') else v[n + 1] if v[0] == 'agg' and n + 1 < len(v) else None
        for k, x in reversed(steps):
            if k == 'fld':
                while isinstance(ty, list) and ty[0] == 'arr':
                    ty, v = ty[2], down(0)
                if not isinstance(ty, str) or ty not in self.prog.structs:
                    return None
                n = next((n for n in range(len(self.prog.structs[ty]['f'])) if self.prog.field(ty, n) == x), None)
                if n is None:
                    return None
                v, ty = down(n), self.prog.structs[ty]['f'][n][1]
            else:
                if x.k != 'i' or not isinstance(ty, list) or ty[0] != 'arr' or not 0 <= x.a[0] < ty[1]:
                    return None
                v, ty = down(x.a[0]), ty[2]
        for _ in range(6):
            if isinstance(ty, list) and ty[0] == 'arr':
                v, ty = down(0), ty[2]
            elif isinstance(ty, str) and ty in self.prog.structs:
                v, ty = down(0), self.prog.structs[ty]['f'][0][1]
        if v is None or v[0] not in ('i', 's', 'n', 'f', 'fn', 'g', 'zero', 'cg'):
            return None
        return ZERO if v[0] == 'zero' else self.val(S, v)

    # ---- violations -------------------------------------------------------------
    def report(self, S, ins, rule, msg):
        v = Violation(rule, ins, msg, self.trace())
        self.viol.setdefault(v.key(), v)

    def trace(self):
        out, n = [], self.cur
        seen = set()
        while n is not None and n not in seen and len(out) < 400:
            seen.add(n)
            out.append(n[0])
            n = self.parents.get(n)
        steps, last = [], None
        for b in reversed(out):
            t = self.fn.blocks[b][-1]
            w = t.where()
            if (t.op in ('switch', 'ret') or (t.op == 'br' and t.ops)) and w != last:
                steps.append(w)
                last = w
        return steps

    # ---- main loop -----------------------------------------------------------------
    def run(self):
        S = self.s0.copy() if self.s0 is not None else State()
        if S.auto is None:
            S.auto = self.client.init()
        self.seen = {}      # block -> auto -> list of states
        self.joined = {}
        self.work = []
        self.cur = None
        NN.clear()
        NNF.clear()
        NNF.update(self.client.NONNEG)
        for bl in self.fn.blocks:
            for i in bl:
                if i.op == 'phi' and str(i.ty).startswith('i') and self.nonneg(['v', i.id], set()):
                    NN.add(i.id)
        self.rpo_idx = {b: n for n, b in enumerate(self.fn.rpo())}
        self.enqueue(S, self.start, None)
        import heapq
        while self.work:
            _, _, b, S, node = heapq.heappop(self.work)
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                from frontend import Broken
                raise Broken('%s: analysis did not converge' % self.fn.name)
            self.cur = node
            self.block(S, b)
        self.client.done(self)
        return list(self.viol.values())

    def enqueue(self, S, b, parent):
        import heapq
        d = self.seen.setdefault(b, {})
        lst = d.setdefault(S.auto, [])
        if self.CAP >= 10000:
            k = S.key()
            if k in lst:
                return
            if type(lst) is list:
                lst = d[S.auto] = set()
            lst.add(k)
            if len(lst) > self.CAP:
                from frontend import Broken
                raise Broken('%s: too many paths' % self.fn.name)
            node = (b, hash(k))
            if node not in self.parents:
                self.parents[node] = parent
            heapq.heappush(self.work, (self.rpo_idx.get(b, 0), self.steps * 1000 + len(self.work), b, S, node))
            return
        for T in lst:
            if T.env == S.env and leq_facts(T.mem, S.mem) and leq_f(T.facts, S.facts):
                return
        if len(lst) >= self.CAP:
            jk = (b, S.auto)
            J = self.joined.get(jk)
            N = self.join(J if J is not None else lst[0], S, b)
            if J is None:
                for T in lst[1:]:
                    N = self.join(N, T, b)
            elif N.key() == J.key():
                return
            self.joined[jk] = N
            d[S.auto] = lst[:self.CAP] + [N] if False else [N] + lst[:self.CAP - 1]
            S = N.copy()
        else:
            lst.append(S.copy())
        node = (b, hash(S.key()))
        if node not in self.parents:
            self.parents[node] = parent
        heapq.heappush(self.work, (self.rpo_idx.get(b, 0), self.steps * 1000 + len(self.work), b, S, node))

    def join(self, A, B, b):
        N = State(auto=A.auto)
        sure = []
        for k, v in A.env.items():
            w = B.env.get(k)
            if w is v:
                N.env[k] = v
            elif w is not None:
                N.env[k] = mk('o', k)
        for k, v in A.mem.items():
            w = B.mem.get(k)
            if w is v:
                N.mem[k] = v
            elif w is not None and k.k in ('A', 'fld') and root(k).k == 'A' and A.nonnull(v) and B.nonnull(w):
                t, at = mk('sl', k), ('sl', k)
                if all(at not in x.atoms for S in (A, B) for kk, vv in S.mem.items() for x in (kk, vv) if kk is not k) and \
                        all(at not in x.atoms for S in (A, B) for x in S.env.values()) and all(f is t or at not in f.atoms for S in (A, B) for f in S.facts):
                    N.mem[k] = t
                    sure.append(t)
        for k, f in A.facts.items():
            g = B.facts.get(k)
            if g is None:
                continue
            lo, hi = min(f[0], g[0]), max(f[1], g[1])
            # widen
            if f[0] != g[0] and g[0] < f[0]:
                lo = -INF if g[0] != 0 else 0
            if f[1] != g[1] and g[1] > f[1]:
                hi = INF
            ne = tuple(sorted(set(f[2]) & set(g[2])))
            if lo > -INF or hi < INF or ne:
                N.facts[k] = (lo, hi, ne)
        # values that became opaque keep the facts their two values share (non-null etc.)
        for k in N.env:
            if N.env[k] is not A.env[k]:
                la, ha, na = A.rng(A.env[k])
                lb, hb, nb = B.rng(B.env[k])
                ne = tuple(sorted(({0} & set(na) if na else set()) & set(nb)))
                if ((la > 0 or ha < 0 or 0 in na) and (lb > 0 or hb < 0 or 0 in nb)):
                    ne = (0,)
                lo = 0 if la >= 0 and lb >= 0 else -INF
                if ne or lo == 0:
                    N.facts[N.env[k]] = (lo, INF, ne)
        for t in sure:
            N.facts[t] = (-INF, INF, (0,))
        return N

    def prune(self, S, b, back=False):
        lv = self.live[b]
        S.env = {k: v for k, v in S.env.items() if k in lv}
        ml = self.memlive[b]
        # garbage collection: keep what live names, the client, and locations rooted in variables can still reach
        held = set(self.arglive[b])
        for v in S.env.values():
            held |= v.atoms
        extra = self.client.keep_atoms(S)
        held |= set(extra)
        mem, rest = {}, []
        for k, v in S.mem.items():
            if key_of(k) not in ml:
                continue
            rest.append((k, v))
        ch = True
        while ch and rest:
            ch = False
            nrest = []
            for k, v in rest:
                if all(a in held or a[0] == 'A' for a in k.atoms):
                    mem[k] = v
                    if not v.atoms <= held:
                        held |= v.atoms
                    ch = True
                else:
                    nrest.append((k, v))
            rest = nrest
        facts = S.facts
        if facts:
            facts = {k: f for k, f in facts.items() if all(a in held or a[0] == 'A' for a in k.atoms) and k.k != 'i' and (f[2] or f[0] > -INF or f[1] < INF)}
        # entries that only say "the value last loaded" and whose value nothing else mentions
        cnt = {}
        for k in mem:
            for a in k.atoms:
                cnt[a] = cnt.get(a, 0) + 1
        for v in mem.values():
            for a in v.atoms:
                cnt[a] = cnt.get(a, 0) + 1
        for v in S.env.values():
            for a in v.atoms:
                cnt[a] = cnt.get(a, 0) + 2
        for k in facts:
            for a in k.atoms:
                cnt[a] = cnt.get(a, 0) + 2
        for a in extra:
            cnt[a] = cnt.get(a, 0) + 2
        drop = [k for k, v in mem.items() if v.k in ('ld', 'old', 'o', 'out') and not (k.k == 'fld' and k.a[1] in LISTF and k.a[0].k == 'c') and cnt.get((v.k, v.a[0]), 0) <= 1
                and not (v.k == 'ld' and v.a[1] is not k and v.a[1].k == 'fld' and v.a[1].a[1] in api.NONNULL_FIELDS)]
        for k in drop:
            del mem[k]
        S.mem, S.facts = mem, facts
        self.slots(S, extra, back)

    def slots(self, S, extra, back):
        """values that only a variable's slot holds get the slot's own name, so that states differing only in where such
        a value came from coincide; on a back edge, values built in earlier iterations do as well"""
        todo = []
        for k, v in S.mem.items():
            if root(k).k not in ('A', 'g') or v.k in ('i', 's', 'fn', 'g', 'A', 'f', 'sl', 'fld', 'idx', 'arg'):
                continue
            if v.k in ('out', 'o') or (v.k in ('ld', 'old') and root(v.a[1] if v.k == 'ld' else v).k in ('A', 'g')):
                todo.append((k, v))
            elif back and any(a[0] == 'old' for a in v.atoms):
                todo.append((k, v))
        if not todo:
            return
        ex = set(extra)
        for k, v in todo:
            t = mk('sl', k)
            at = v.atoms
            if at & ex or S.mem.get(k) is not v:
                continue
            wide = back and any(a[0] == 'old' for a in at)
            own = (v.k, v.a[0])
            busy = False
            tat = ('sl', k)
            for kk, vv in S.mem.items():
                if tat in kk.atoms or tat in vv.atoms:
                    busy = True
                    break
                if not wide and (own in kk.atoms or (kk is not k and own in vv.atoms)):
                    busy = True
                    break
            if busy:
                continue
            for vv in S.env.values():
                if tat in vv.atoms or (not wide and own in vv.atoms):
                    busy = True
                    break
            if busy:
                continue
            r = S.rng(v)
            for f in list(S.facts):
                if tat in f.atoms:
                    del S.facts[f]
                elif not wide and own in f.atoms:
                    del S.facts[f]
            S.mem[k] = t
            lo, hi, ne = r
            if wide:
                lo = 0 if lo >= 0 else -INF
                hi = 0 if hi <= 0 else INF
                ne = (0,) if (0 in ne or lo > 0 or hi < 0) else ()
                if r[0] > 0:
                    lo = 1
            if lo > -INF or hi < INF or ne:
                S.facts[t] = (lo, hi, ne)

    def block(self, S, b):
        states = [S]
        ins = self.fn.blocks[b]
        for i in ins:
            if i.op == 'phi':
                continue
            nxt = []
            for s in states:
                r = self.step(s, i)
                if r is None:
                    nxt.append(s)
                else:
                    nxt.extend(r)
            states = nxt
            if not states:
                return

    def step(self, S, i):
        """execute one instruction abstractly; None = same state, or a list of successor states"""
        self.visited_ins.add(i.id)
        op = i.op
        if op == 'call':
            return self.call(S, i)
        if op == 'load':
            loc = self.addr_leaf(self.val(S, i.ops[0]))
            if i.b in self.inloop and S.mem.get(loc) is None:
                S.redefine(i.id, self.client.track)
                loc = self.addr_leaf(self.val(S, i.ops[0]))
            v = self.load(S, i, loc)
            S.env[i.id] = v
            return self.client.load(S, i, loc, v)
        if op == 'store':
            v = self.val(S, i.ops[0])
            loc = self.addr_leaf(self.val(S, i.ops[1]))
            if v.depth > self.DEPTH:
                v = mk('o', -i.id)
            r = self.client.store(S, i, loc, v)
            self.clobber(S, loc)
            S.mem[loc] = v
            return r
        if op == 'fld':
            S.env[i.id] = mk('fld', self.val(S, i.ops[0]), self.prog.field(*i.x))
            return
        if op == 'gep':
            S.env[i.id] = self.gep(S, i)
            return
        if op == 'alloca':
            S.env[i.id] = mk('A', i.id, i.x[1])
            return
        if op == 'icmp':
            S.env[i.id] = cmp_term(i.x, self.val(S, i.ops[0]), self.val(S, i.ops[1]))
            return
        if op == 'fcmp':
            S.env[i.id] = cmp_term(i.x, self.val(S, i.ops[0]), self.val(S, i.ops[1]), True)
            return
        if op == 'select':
            c = self.val(S, i.ops[0])
            a, b = self.val(S, i.ops[1]), self.val(S, i.ops[2])
            t = S.truth(c)
            if t is None and self.CAP >= 1000 and self.client.split_select and a is not b:
                r = []
                for w, x in ((True, a), (False, b)):
                    s = S.copy()
                    if s.assume(c, w):
                        s.env[i.id] = x
                        r.append(s)
                return r
            S.env[i.id] = a if t else b if t is False else mk('sel', c, a, b)
            return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'freeze'):
            o = i.ops[0]
            frm = self.ty_of(o)
            S.env[i.id] = cast_term(op, frm, i.ty, self.val(S, o))
            return
        if op == 'br':
            if not i.ops:
                return self.goto(S, i.b, i.x[0])
            c = self.val(S, i.ops[0])
            t = S.truth(c)
            r = []
            if t is not False:
                s = S.copy()
                if s.assume(c, True):
                    if self.client.branch(s, i, c, True) is not False:
                        self.goto(s, i.b, i.x[0])
            if t is not True:
                s = S.copy()
                if s.assume(c, False):
                    if self.client.branch(s, i, c, False) is not False:
                        self.goto(s, i.b, i.x[1])
            return []
        if op == 'switch':
            v = self.val(S, i.ops[0])
            rest = S.copy()
            feasible = True
            for cv, dst in i.x[1]:
                s = S.copy()
                if s.refine(v, cv, cv):
                    if self.client.branch(s, i, cmp_term('eq', v, I(cv)), True) is not False:
                        self.goto(s, i.b, dst)
                if feasible and not rest.refine(v, ne=(cv,)):
                    feasible = False
            if feasible:
                self.client.branch(rest, i, None, False)
                self.goto(rest, i.b, i.x[0])
            return []
        if op == 'ret':
            self.client.ret(S, i, self.val(S, i.ops[0]) if i.ops else None)
            return []
        if op == 'cut':
            self.client.cut(S, i)
            return []
        if op == 'unreachable':
            self.client.dead(S, i)
            return []
        if op == 'fneg':
            S.env[i.id] = mk('op', 'fneg', self.val(S, i.ops[0]), ZERO)
            return
        if len(i.ops) == 2:
            t = op_term(op, self.val(S, i.ops[0]), self.val(S, i.ops[1]), i.ty)
            S.env[i.id] = t if t.depth <= self.DEPTH else self.opaque(S, i)
            return
        S.env[i.id] = self.opaque(S, i)

    def opaque(self, S, i):
        if i.b in self.inloop:
            S.redefine(i.id, self.client.track)
        return mk('o', i.id)

    def ty_of(self, o):
        if o[0] == 'v':
            return self.fn.ins[o[1]].ty
        if o[0] == 'a':
            return self.fn.args[o[1]][1]
        if o[0] == 'i':
            return 'i%d' % o[2]
        return 'p'

    def goto(self, S, frm, to):
        if (to, ) in self.stop or to in self.stop:
            self.client.stopped(S, frm, to)
            return []
        phis = [i for i in self.fn.blocks[to] if i.op == 'phi']
        back = (frm, to) in self.fn.back_edges()
        if phis:
            vals = []
            for p in phis:
                for o, pb in zip(p.ops, p.x):
                    if pb == frm:
                        vals.append((p, o, self.val(S, o)))
                        break
            ids = {p.id for p in phis}
            facts0 = {}
            for p, o, v in vals:
                facts0[p.id] = S.rng(v)
            for p, o, v in vals:
                if to in self.inloop:
                    S.redefine(p.id, self.client.track)
            # values may have been renamed by redefine: recompute through a temporary env is unnecessary for constants
            for p, o, v in vals:
                if to in self.inloop:
                    v2 = v
                    for q in ids:
                        v2 = subst(v2, q)
                    v = v2
                bind = True
                if back and o[0] == 'v' and self.fn.ins[o[1]].op in ('add', 'sub', 'mul', 'gep', 'fadd', 'fsub', 'fmul', 'or', 'shl'):
                    bind = False
                if v.depth > self.DEPTH - 4:
                    bind = False
                if any(('old', q) in v.atoms for q in ids) and back:
                    # depends on the previous iteration's value of a phi of this block
                    if v.k != 'ld' and v.k != 'c' and v.k != 'old':
                        bind = False
                if bind:
                    S.env[p.id] = v
                else:
                    t = mk('o', p.id)
                    S.env[p.id] = t
                    lo, hi, ne = facts0[p.id]
                    lo2 = self.phi_lo(p)
                    keep = tuple(x for x in ne if x == 0)
                    if lo2 > -INF or keep:
                        S.facts[t] = (lo2, INF, keep if lo2 <= 0 else ())
        if self.client.edge(S, frm, to) is False:
            return []
        self.prune(S, to, back)
        self.enqueue(S, to, self.cur)
        return []

    def phi_lo(self, p):
        r = self.phi_lo1(p)
        if r < 0 and self.nonneg(['v', p.id], set()):
            return 0
        return r

    def nonneg(self, o, assumed):
        """a sum of non-negative parts, by induction over the loops it is carried through"""
        if o[0] == 'i':
            return o[1] >= 0
        if o[0] != 'v' or o[1] not in self.fn.ins:
            return False
        if o[1] in assumed:
            return True
        d = self.fn.ins[o[1]]
        if d.op == 'phi':
            assumed.add(o[1])
            return all(self.nonneg(x, assumed) for x in d.ops)
        if d.op == 'add':
            return self.nonneg(d.ops[0], assumed) and self.nonneg(d.ops[1], assumed)
        if d.op == 'load':
            k = static_key(self.fn.prog if hasattr(self.fn, 'prog') else self.prog, self.fn, d.ops[0])
            return bool(k) and k[0] == 'F' and k[1] in self.client.NONNEG
        return False

    def phi_lo1(self, p):
        """lower bound of a counting phi"""
        lo = INF
        for o in p.ops:
            if o[0] == 'i':
                lo = min(lo, o[1])
            elif o[0] == 'v':
                d = self.fn.ins[o[1]]
                if d.op == 'phi' and d is p:
                    continue
                if d.op == 'add' and d.ops[1][0] == 'i' and d.ops[1][1] >= 0 and d.ops[0] == ['v', p.id]:
                    continue
                return -INF
            else:
                return -INF
        return lo if lo != INF else -INF

    # ---- calls -----------------------------------------------------------------------
    def call(self, S, i):
        name = i.callee()
        args = [self.val(S, o) for o in i.ops]
        if name is None:
            ct = self.val(S, i.x)
            name = '*' + (ct.k if ct.k != 'fn' else ct.a[0])
            if ct.k == 'fn':
                name = ct.a[0]
        if name.startswith('llvm.'):
            if name.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                name = name.split('.')[1]
            elif name.startswith(('llvm.fmuladd', 'llvm.fabs', 'llvm.maxnum', 'llvm.minnum')):
                name = {'llvm.fm': 'fmuladd', 'llvm.fa': 'fabs', 'llvm.ma': 'fmax', 'llvm.mi': 'fmin'}[name[:7]]
            else:
                S.env[i.id] = mk('o', i.id)
                return
        name = api.ALIAS.get(name, name)
        if i.b in self.inloop:
            S.redefine(i.id, self.client.track)
            args = [self.val(S, o) for o in i.ops]
        # return value
        if name in ('strcmp', 'g_str_equal') and args[0].k == args[1].k == 's':
            S.env[i.id] = I((args[0].a[0] > args[1].a[0]) - (args[0].a[0] < args[1].a[0]) if name == 'strcmp' else int(args[0].a[0] == args[1].a[0]))
            self.client.call(S, i, name, args, S.env[i.id], None)
            return
        if name in api.PURE and not (name in api.CONTENT and any(root(a).k == 'A' for a in args)):
            ret = mk('pure', name, *args)
            if ret.depth > self.DEPTH:
                ret = mk('o', i.id)
        else:
            ret = mk('c', i.id, name, *args)
            if ret.depth > self.DEPTH - 4:
                ret = mk('c', i.id, name)
        if name == 'g_steal_pointer':
            pass
        if name == 'memset' and len(args) >= 3:
            r = self.client.call(S, i, name, args, ret, None)
            self.do_memset(S, args)
            S.env[i.id] = args[0]
            return r
        if name == 'memcpy' and len(args) >= 3:
            r = self.client.call(S, i, name, args, ret, None)
            self.do_memcpy(S, i, args)
            S.env[i.id] = args[0]
            return r
        outs = api.outcomes(name, args, i)
        res = []
        if outs is None:
            outs = [(None, None, {})]
        for label, rr, ow in outs:
            s = S.copy() if len(outs) > 1 else S
            s.env[i.id] = ret
            ok = True
            if rr is not None:
                ok = s.refine(ret, *rr) if not isinstance(rr, Term) else True
                if isinstance(rr, Term):
                    s.env[i.id] = rr
            if not ok:
                continue
            pre = self.client.pre_call(s, i, name, args, label)
            if pre is False:
                continue
            self.effects(s, i, name, args, ow)
            if name in ('g_malloc0', 'calloc', 'g_slice_alloc0') and all(a.k == 'i' for a in args):
                n = 1
                for a in args:
                    n *= a.a[0]
                self.zeroed(s, i, s.env[i.id], n)
            r = self.client.call(s, i, name, args, s.env[i.id], label)
            if api.noreturn(name, args):
                self.client.dead(s, i)
                continue
            if r is None:
                res.append(s)
            else:
                res.extend(r)
        if len(res) == 1 and res[0] is S:
            return None
        return res

    def zeroed(self, S, i, t, size):
        """the members of an object just allocated and cleared, for every structure of that size it is used as"""
        for st in self.prog.sized(size):
            if st in self.uses_as().get(i.id, ()):
                self.fill_zero(S, t, st, 1)

    def uses_as(self):
        if not hasattr(self, '_uses'):
            self._uses = {}
            for j in self.fn.instrs():
                if j.op == 'fld' and j.ops[0][0] == 'v':
                    self._uses.setdefault(j.ops[0][1], set()).add(j.x[0])
        return self._uses

    def do_memset(self, S, args):
        dst = args[0]
        self.clobber_under(S, dst)
        if args[1] is ZERO:
            self.fill_zero(S, dst, self.type_at(dst), 0)

    def type_at(self, t):
        if t.k == 'A':
            return self.fn.ins[t.a[0]].x[0]
        if t.k == 'g':
            return self.prog.globals.get(t.a[0], {}).get('ty')
        return None

    def fill_zero(self, S, loc, ty, d):
        if d > 4:
            return
        if isinstance(ty, str) and ty in self.prog.structs:
            for n, (_, fty) in enumerate(self.prog.structs[ty]['f']):
                self.fill_zero(S, mk('fld', loc, self.prog.field(ty, n)), fty, d + 1)
        elif isinstance(ty, list) and ty[0] == 'arr':
            if ty[1] == 1:
                self.fill_zero(S, loc, ty[2], d + 1)
        elif isinstance(ty, str) and (ty == 'p' or ty[0] == 'i'):
            S.mem[loc] = ZERO
        elif ty == 'f64':
            S.mem[loc] = mk('f', '0')

    def do_memcpy(self, S, i, args):
        dst, src = args[0], args[1]
        new = {}
        for k, v in S.mem.items():
            if self.within(k, src):
                new[rebase(k, src, dst)] = v
        self.clobber_under(S, dst)
        S.mem.update(new)
        # fields not known yet become loads of the source location: record a few by type
        ty = self.type_at(src) or self.type_at(dst)
        self.copy_fields(S, i, dst, src, ty, 0)

    def copy_fields(self, S, i, dst, src, ty, d):
        if d > 3:
            return
        if isinstance(ty, list) and ty[0] == 'arr' and ty[1] == 1:
            return self.copy_fields(S, i, dst, src, ty[2], d + 1)
        if isinstance(ty, list) and ty[0] == 'arr' and src.k == 'g' and ty[1] <= 32:
            g = self.prog.globals.get(src.a[0])
            if g and g['const'] and g['init'] and isinstance(ty[2], str) and ty[2] not in self.prog.structs:
                for n in range(ty[1]):
                    v = self.const_at(S, g, mk('idx', src, I(n)) if n else src)
                    if v is not None:
                        S.mem[mk('idx', dst, I(n)) if n else dst] = v
                return
        if isinstance(ty, str) and ty in self.prog.structs:
            for n, (_, fty) in enumerate(self.prog.structs[ty]['f']):
                f = self.prog.field(ty, n)
                self.copy_fields(S, i, mk('fld', dst, f), mk('fld', src, f), fty, d + 1)
        elif isinstance(ty, str):
            if dst not in S.mem:
                v = S.mem.get(src)
                if v is None:
                    v = mk('ld', i.id, src)
                    S.mem[src] = v
                S.mem[dst] = v

    def effects(self, S, i, name, args, ow):
        if name not in api.PURE:
            S.mem.pop(ERRNO, None)
        if name in self.prog.fns:           # recursive or stopped call into the program
            keys = set(self.modset(name))
            for a in args:
                if a.k == 'fn' and a.a[0] in self.prog.fns:
                    keys |= self.modset(a.a[0])      # called back from there
            # an error already recorded stays recorded (GError locations are written only while they hold NULL)
            keep = {} if self.clears_errors(name) else {k: v for k, v in S.mem.items() if v.k in ('out', 'sl') and root(k).k == 'A' and S.nonnull(v)}
            own = self.ownnodes(S, args)
            self.clobber_keys(S, keys)
            S.mem.update(own)
            for a in args:
                if root(a).k == 'A':
                    self.clobber_under(S, a)
            for k in list(S.mem):
                if root(k).k == 'A' and root(k) in self.escaped:
                    del S.mem[k]
            for k, v in keep.items():
                S.mem[k] = v
            return
        sp = api.WRITES.get(name)
        if sp is None:
            # unknown external: anything a pointer argument designates directly
            if name not in api.READONLY:
                for n, a in enumerate(args):
                    if n in ow:
                        continue
                    if a.k in ('A', 'fld', 'idx') or (a.k == 'g' and not self.prog.globals.get(a.a[0], {}).get('const')):
                        self.clobber_under(S, self.addr_leaf(a) if a.k != 'A' else a)
                        if a.k != 'A':
                            self.clobber(S, self.addr_leaf(a))
        else:
            for n in sp.get('args', ()):
                if n < len(args) and n not in ow:
                    a = args[n]
                    self.clobber_under(S, a)
                    if a.k in ('fld', 'idx'):
                        self.clobber(S, a)
                    if name not in api.SCAN:
                        S.mem.pop(a, None)
            if sp.get('fields'):
                own = self.ownnodes(S, args, False) if sp['fields'] is api.SL or sp['fields'] is api.DL else {}
                self.clobber_keys(S, sp['fields'])
                S.mem.update(own)
            if sp.get('scan') is not None:
                for n, a in enumerate(args):
                    if n >= sp['scan']:
                        self.clobber_under(S, a)
                        if a.k in ('fld', 'idx'):
                            self.clobber(S, a)
        for n, v in ow.items():
            if v != 'keep' and n < len(args) and args[n] is not ZERO:
                loc = self.addr_leaf(args[n])
                self.clobber(S, loc)
                if v == 'nonnull':
                    t = mk('out', i.id, n)
                    S.facts[t] = (-INF, INF, (0,))
                    S.mem[loc] = t
                elif v == 'any':
                    S.mem[loc] = mk('out', i.id, n)
                elif v == 'null':
                    S.mem[loc] = ZERO

    def ownnodes(self, S, args, held=True):
        """memory of list nodes made here that the arguments do not lead to (and, held: nothing outside this function refers to)"""
        own = [(k, v) for k, v in S.mem.items() if k.k == 'fld' and k.a[0].k == 'c' and k.a[0].a[1] == 'g_malloc' and k.a[1] in LISTF]
        if not own:
            return {}
        nodes = {k.a[0] for k, v in own}
        out = {a for a in args if a in nodes} | {v for k, v in S.mem.items() if held and v in nodes and root(k).k != 'A' and root(k) not in nodes}
        ch = True
        while ch:
            ch = False
            for k, v in own:
                if k.a[0] in out and v in nodes and v not in out:
                    out.add(v)
                    ch = True
        return {k: v for k, v in own if k.a[0] not in out}

    def clears_errors(self, name):
        return any(f in ('g_clear_error', 'g_error_free', 'g_propagate_error') for f in self.prog.reachable([name]))

    def modset(self, name):
        if not hasattr(self.prog, '_mods'):
            self.prog._mods = {}
        r = self.prog._mods.get(name)
        if r is None:
            r = set()
            for f in self.prog.reachable([name]):
                fn = self.prog.fns.get(f)
                if not fn:
                    sp = api.WRITES.get(f, {})
                    r |= set(sp.get('fields', ()))
                    continue
                for i in fn.instrs():
                    if i.op == 'store':
                        o = i.ops[1]
                        if o[0] == 'cg':
                            r |= static_leaves(self.prog, fn, o[2])
                        r.add(static_key(self.prog, fn, o))
                    elif i.op == 'call' and i.callee() and i.callee().startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove', 'memset', 'memcpy', 'memmove')):
                        r |= static_leaves(self.prog, fn, i.ops[0])
            self.prog._mods[name] = r
        return r


def static_leaves(prog, fn, op):
    """field keys a write over the whole object op designates can change"""
    ty = None
    if op[0] == 'g':
        ty = prog.globals.get(op[1], {}).get('ty')
    elif op[0] == 'v':
        i = fn.ins[op[1]]
        if i.op == 'fld':
            ty = prog.field_type(prog.field(*i.x))
    out, w = {static_key(prog, fn, op)}, [ty]
    while w:
        ty = w.pop()
        while isinstance(ty, list) and ty[0] == 'arr':
            ty = ty[2]
        if isinstance(ty, str) and ty in prog.structs:
            for n, (_, fty) in enumerate(prog.structs[ty]['f']):
                out.add(('F', prog.leaf_field(prog.field(ty, n))))
                w.append(fty)
    return out


def static_key(prog, fn, op):
    if op[0] == 'g':
        t, _ = prog.first_leaf(mk('g', op[1]), prog.globals.get(op[1], {}).get('ty'))
        return key_of(t)
    if op[0] == 'v':
        i = fn.ins[op[1]]
        for _ in range(50):
            if i.op == 'alloca':
                return ('A*', i.id)
            if i.op == 'fld':
                return ('F', prog.leaf_field(prog.field(*i.x)))
            if i.op == 'gep':
                o = i.ops[0]
                if o[0] == 'v':
                    i = fn.ins[o[1]]
                    continue
                return static_key(prog, fn, o)
            break
    return ('D',)


def rebase(k, src, dst):
    if k is src:
        return dst
    return mk(k.k, rebase(k.a[0], src, dst), k.a[1])


def leq_facts(a, b):
    """every entry of a is in b"""
    if len(a) > len(b):
        return False
    for k, v in a.items():
        if b.get(k) is not v:
            return False
    return True


def leq_f(a, b):
    if len(a) > len(b):
        return False
    for k, f in a.items():
        g = b.get(k)
        if g is None:
            return False
        if g != f and not (g[0] >= f[0] and g[1] <= f[1] and all(n in g[2] or not (g[0] <= n <= g[1]) for n in f[2])):
            return False
    return True


class Client(object):
    NONNEG = ()
    track = False
    split_select = True     # path mode: follow both arms of a conditional value

    """rule automaton; override what is needed.  The automaton state S.auto must be hashable."""

    def init(self):
        return ()

    def keep_atoms(self, S):
        """value atoms the automaton refers to"""
        return ()

    def call(self, S, i, name, args, ret, label):
        return None

    def pre_call(self, S, i, name, args, label):
        return None

    def load(self, S, i, loc, v):
        return None

    def store(self, S, i, loc, v):
        return None

    def branch(self, S, i, cond, taken):
        return None

    def edge(self, S, frm, to):
        return None

    def ret(self, S, i, v):
        return None

    def dead(self, S, i):
        return None

    def stopped(self, S, frm, to):
        return None

    def cut(self, S, i):
        return None

    def done(self, sim):
        return None

    def bad(self, S, i, rule, msg):
        self.sim.report(S, i, rule, msg)
