"""Value ranges of SSA values at program points: interval fixpoint over phis, refined by the branch conditions that dominate the point
(sparse, demand driven), and the room behind pointers."""
INF = float('inf')
TOP = (-INF, INF)
MARKS = sorted({2 ** k + d for k in range(64) for d in (-1, 0, 1)} | set(range(40)))
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def bits(ty):
    return int(ty[1:]) if isinstance(ty, str) and ty[:1] == 'i' and ty[1:].isdigit() else None


def full(ty):
    n = bits(ty)
    if n is None:
        return TOP
    if n == 1:
        return (0, 1)
    return (-2 ** (n - 1), 2 ** (n - 1) - 1)


def meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


def union(a, b):
    if a is None or a[0] > a[1]:
        return b
    if b is None or b[0] > b[1]:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


class Ranges(object):
    """known(ins) -> range of a load or call result, or None"""

    def __init__(self, fn, known):
        self.fn, self.prog, self.known = fn, fn.prog, known
        self.pointers = False       # pointers range over 0 (absent) and 1 (present)
        self.phi = {}
        self.cons = {}          # ssa id -> [(block, pred, other operand, predicate, offset, through)]
        self.memo = {}
        self.tested = {}
        self.same = {}
        self.reach = set(fn.rpo())
        for b in self.reach:
            t = fn.blocks[b][-1]
            for d in fn.succ[b]:
                if len([p for p in fn.pred[d] if p in self.reach]) == 1:
                    def put(v, r, d=d):
                        self.cons.setdefault(v, []).append((d,) + r)
                        self.tested.setdefault(d, set()).add(v)
                    self.edgecons(b, d, put)

    # ---- conditions
    def edgecons(self, b, d, put):
        t = self.fn.blocks[b][-1]
        if t.op == 'br' and t.ops and len(set(t.x)) == 2:
            self.condition(t.ops[0], t.x[0] == d, b, put)
        elif t.op == 'switch':
            cs = [cv for cv, dst in t.x[1] if dst == d]
            if t.x[0] != d and len(cs) >= 1:
                self.put(t.ops[0], 'sge', ['i', min(cs), 64], b, put)
                self.put(t.ops[0], 'sle', ['i', max(cs), 64], b, put)
            elif t.x[0] == d:
                for cv, dst in t.x[1]:
                    if dst != d:
                        self.put(t.ops[0], 'ne', ['i', cv, 64], b, put)

    def condition(self, o, pos, b, put, depth=0):
        if o[0] != 'v' or depth > 8:
            return
        i = self.fn.ins.get(o[1])
        if i is None:
            return
        if i.op == 'phi':
            put(i.id, (b, ['i', 0, 1], 'ne' if pos else 'eq', 0, ()))
        if i.op == 'icmp':
            l, r = i.ops
            p = i.x if pos else NEG[i.x]
            # a truth value compared with 0
            if r[0] in 'in' and (r[0] == 'n' or r[1] == 0) and p in ('ne', 'eq') and l[0] == 'v':
                j = self.fn.ins.get(l[1])
                if j is not None and (bits(j.ty) == 1 or j.op in ('zext', 'sext') and self.ty(j.ops[0]) == 'i1'):
                    self.condition(l, p == 'ne', b, put, depth + 1)
            self.put(l, p, r, b, put)
            self.put(r, SWAP[p], l, b, put)
        elif i.op in ('zext', 'sext', 'freeze') and self.ty(i.ops[0]) == 'i1':
            self.condition(i.ops[0], pos, b, put, depth + 1)
        elif i.op in ('and', 'or') and bits(i.ty) == 1 and pos == (i.op == 'and'):
            self.condition(i.ops[0], pos, b, put, depth + 1)
            self.condition(i.ops[1], pos, b, put, depth + 1)
        elif i.op == 'xor' and bits(i.ty) == 1 and i.ops[1][0] == 'i' and i.ops[1][1]:
            self.condition(i.ops[0], not pos, b, put, depth + 1)
        elif i.op == 'select' and bits(i.ty) == 1:
            x, y = i.ops[1], i.ops[2]
            if pos and y[0] == 'i' and not y[1]:
                self.condition(i.ops[0], True, b, put, depth + 1)
                self.condition(x, True, b, put, depth + 1)
            elif not pos and x[0] == 'i' and x[1]:
                self.condition(i.ops[0], False, b, put, depth + 1)
                self.condition(y, False, b, put, depth + 1)
        elif i.op == 'phi' and bits(i.ty) == 1 and not any(x == i.b for x in ()):
            # short circuit evaluation: the only way in that can give this outcome
            live = [(x, p) for x, p in zip(i.ops, i.x) if not (x[0] == 'i' and bool(x[1]) != pos)]
            if len(live) == 1 and p_ok(self.fn, i, live[0][1]):
                self.condition(live[0][0], pos, live[0][1], put, depth + 1)
                # conditions that dominate that way in
                x = live[0][1]
                for _ in range(8):
                    ps = [p for p in self.fn.pred[x] if p in self.reach]
                    if len(ps) != 1 or ps[0] in self.fn.doms()[i.b]:
                        if len(ps) == 1:
                            self.edgecons(ps[0], x, put)
                        break
                    self.edgecons(ps[0], x, put)
                    x = ps[0]

    def put(self, o, p, other, b, put):
        """o `p` other holds; through casts and constant additions as well"""
        off, thru = 0, ()
        for _ in range(6):
            o = self.canon(o)
            if o[0] != 'v':
                return
            put(o[1], (b, other, p, off, thru))
            i = self.fn.ins.get(o[1])
            if i is None:
                return
            if i.op in ('sext', 'freeze'):
                o = i.ops[0]
            elif i.op == 'zext':
                thru += (('z', bits(self.ty(i.ops[0]))),)
                o = i.ops[0]
            elif i.op == 'trunc':
                thru += (('t', i.ops[0], bits(i.ty)),)
                o = i.ops[0]
            elif i.op == 'add' and i.ops[1][0] == 'i':
                off -= i.ops[1][1]
                o = i.ops[0]
            elif i.op == 'sub' and i.ops[1][0] == 'i':
                off += i.ops[1][1]
                o = i.ops[0]
            else:
                return

    def ty(self, o):
        if o[0] == 'v':
            return self.fn.ins[o[1]].ty
        if o[0] == 'a':
            return self.fn.args[o[1]][1]
        if o[0] == 'i':
            return 'i%d' % o[2]
        return 'p'

    # ---- the same value loaded twice
    def addr(self, o, d=0):
        if o[0] != 'v' or d > 8:
            return tuple(map(str, o))
        i = self.fn.ins.get(o[1])
        if i is not None and i.op in ('fld', 'gep'):
            return (i.op, str(i.x)) + tuple(self.addr(self.canon(x), d + 1) for x in i.ops)
        return ('v', o[1])

    def base(self, o):
        for _ in range(20):
            if o[0] != 'v':
                return o
            i = self.fn.ins.get(o[1])
            if i is None or i.op not in ('fld', 'gep', 'freeze', 'bitcast'):
                return o
            o = i.ops[0]
        return o

    def canon(self, o):
        """the value an operand is known to be: the store or earlier load a load follows directly"""
        if o[0] != 'v':
            return o
        if o[1] in self.same:
            return self.same[o[1]]
        self.same[o[1]] = o
        i = self.fn.ins.get(o[1])
        if i is None or i.op != 'load':
            return o
        a, ab = self.addr(i.ops[0]), self.base(i.ops[0])
        local = ab[0] == 'v' and self.fn.ins[ab[1]].op == 'alloca'
        b, n = i.b, i.i - 1
        for _ in range(12):
            while n >= 0:
                j = self.fn.blocks[b][n]
                n -= 1
                if j.op == 'store':
                    if self.addr(j.ops[1]) == a:
                        if self.ty(j.ops[0]) == i.ty:
                            self.same[o[1]] = self.canon(j.ops[0])
                        return self.same[o[1]]
                    jb = self.base(j.ops[1])
                    if local and jb != ab and jb[0] == 'v' and self.fn.ins[jb[1]].op in ('alloca',) or local and jb[0] == 'g':
                        continue
                    return o
                if j.op == 'load' and j.ty == i.ty and self.addr(j.ops[0]) == a:
                    self.same[o[1]] = self.canon(['v', j.id])
                    return self.same[o[1]]
                if j.op == 'call':
                    c = str(j.callee() or '')
                    if c in ('g_log', 'strlen', 'strcmp', 'llvm.assume') or c.startswith(('llvm.dbg', 'llvm.lifetime')):
                        continue
                    if local and all(self.base(x) != ab for x in j.ops):
                        continue
                    return o
            ps = [p for p in self.fn.pred[b] if p in self.reach]
            if len(ps) != 1:
                return o
            b = ps[0]
            n = len(self.fn.blocks[b]) - 1
        return o

    # ---- ranges
    def at(self, o, b, edge=None, depth=0):
        if o[0] == 'i':
            return (o[1], o[1])
        if o[0] == 'n':
            return (0, 0)
        if o[0] == 'a':
            return (1, 1) if self.pointers and bits(self.ty(o)) is None else full(self.ty(o))
        if o[0] != 'v':
            return (1, 1) if self.pointers else TOP
        o = self.canon(o)
        if o[0] != 'v':
            return self.at(o, b, edge, depth)
        if depth > 25:
            return full(self.ty(o))
        key = (o[1], b, edge)
        r = self.memo.get(key)
        if r is not None:
            return r
        i = self.fn.ins.get(o[1])
        if i is None:
            return TOP
        self.memo[key] = full(i.ty)        # cycle through conditions: nothing known
        r = self.define(i, b, edge, depth)
        if i.op == 'phi' and r is not None and depth < 12:
            out = self.excluded(i, b, edge)
            if out:
                q = None
                for x, e in zip(i.ops, i.x):
                    if e in self.reach and e not in out:
                        q = union(q, self.at(x, e, i.b, depth + 1))
                r = meet(r, q) if q is not None and q[0] <= q[1] else r
        if r is None or r[0] > r[1]:
            r = r or (INF, -INF)
        else:
            lst = self.cons.get(o[1], ())
            dom = self.fn.doms().get(b, ())
            hits = [c for c in lst if c[0] in dom]
            if edge is not None:
                self.edgecons(b, edge, lambda v, x: v == o[1] and hits.append((edge,) + x))
            for _, p, other, pred, off, thru in hits:
                r = self.apply(r, i, p, other, pred, off, thru, depth)
        self.memo[key] = r
        return r

    def excluded(self, i, b, edge, at=None, more=None):
        """ways into the block of a phi that a dominating condition on another phi of the same block rules out"""
        out = set()
        for f in self.fn.blocks[i.b if i is not None else at]:
            if f.op != 'phi':
                break
            if f is i or not any(o[0] != 'v' for o in f.ops):
                continue
            for pred, k in self.facts(f, b, edge) + (more or {}).get(f.id, []):
                for o, e in zip(f.ops, f.x):
                    x = o[1] if o[0] == 'i' else 0 if o[0] == 'n' else None
                    if x is None:
                        if o[0] in 'sg' and bits(f.ty) is None and pred == 'eq' and k == 0:
                            out.add(e)
                        continue
                    if bits(f.ty) == 1:
                        x = abs(x)
                    if pred[0] == 'u' and (x < 0 or k < 0):
                        continue
                    ok = {'eq': x == k, 'ne': x != k, 'lt': x < k, 'le': x <= k, 'gt': x > k, 'ge': x >= k}[pred if pred in ('eq', 'ne') else pred[1:]]
                    if not ok:
                        out.add(e)
        return out

    def facts(self, f, b, edge):
        """[(predicate, constant)] established of a phi at a point"""
        dom = self.fn.doms().get(b, ())
        hits = [c for c in self.cons.get(f.id, ()) if c[0] in dom]
        if edge is not None:
            self.edgecons(b, edge, lambda v, x: v == f.id and hits.append((edge,) + x))
        return [(pred, (other[1] if other[0] == 'i' else 0) + off) for _, p, other, pred, off, thru in hits
                if other[0] in 'in' and not any(t[0] == 't' for t in thru)]

    def apply(self, r, i, p, other, pred, off, thru, depth):
        for t in thru:
            if t[0] == 't':
                q = self.at_plain(['v', i.id]) if t[1] == ['v', i.id] else self.at_plain(t[1])
                if not (q[0] >= -2 ** (t[2] - 1) and q[1] < 2 ** (t[2] - 1)):
                    return r
            elif t[0] == 'z' and r[0] < 0 and not (pred in ('slt', 'sle', 'ult', 'ule', 'eq')):
                return r
        lo, hi = self.at(other, p, None, depth + 1)
        if lo > hi:
            return r
        if pred[0] == 'u':
            if pred in ('ult', 'ule'):
                if lo < 0:
                    return r
                if off:
                    # an unsigned comparison of x - c: x lies in [c, c + hi]
                    k = hi - (pred == 'ult')
                    return meet(r, (off, off + k)) if k < 2 ** 31 else r
                lo, hi = 0, hi - (pred == 'ult')
            else:
                if lo < 0 or r[0] < 0 or off:
                    return r
                lo, hi = lo + (pred == 'ugt'), INF
        elif pred == 'eq':
            pass
        elif pred == 'ne':
            if lo == hi and not thru:
                v = lo + off
                if r[0] == v:
                    r = (v + 1, r[1])
                if r[1] == v:
                    r = (r[0], v - 1)
            return r
        elif pred in ('slt', 'sle'):
            lo, hi = -INF, hi - (pred == 'slt')
        else:
            lo, hi = lo + (pred == 'sgt'), INF
        if any(t[0] == 'z' for t in thru):
            if hi >= 2 ** (min(t[1] for t in thru if t[0] == 'z') - 1):
                return r
            lo = max(lo, 0)
        return meet(r, (lo + off, hi + off))

    def at_plain(self, o):
        if o[0] != 'v':
            return self.at(o, 0)
        r = self.memo.get((o[1], 'plain'))
        if r is None:
            i = self.fn.ins[o[1]]
            self.memo[(o[1], 'plain')] = full(i.ty)
            r = self.memo[(o[1], 'plain')] = self.define(i, i.b, None, 20) or full(i.ty)
        return r

    def define(self, i, b, edge, depth):
        R = lambda n: self.at(i.ops[n], b, edge, depth + 1)
        op, F = i.op, full(i.ty)
        fit = lambda r: r if r[0] > r[1] or r[0] >= F[0] and r[1] <= F[1] else F
        if op == 'phi':
            if i.id not in self.phi:
                self.phi[i.id] = None
                self.fresh = True
            return self.phi[i.id]
        if op in ('load', 'call'):
            k = self.known(self, i, b, edge)
            return meet(F, k) if k is not None else F
        if bits(i.ty) is None:
            if self.pointers:
                if op in ('freeze', 'bitcast'):
                    return R(0)
                if op == 'select':
                    return self.choice(i, R(1), R(2), b, depth)
                return (1, 1)
            return TOP
        if op == 'icmp':
            return (0, 1)
        if op in ('sext', 'freeze'):
            return fit(R(0))
        if op == 'zext':
            r, n = R(0), bits(self.ty(i.ops[0]))
            return r if r[0] >= 0 or r[0] > r[1] else (0, 2 ** n - 1)
        if op == 'trunc':
            return fit(R(0))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            x, y = R(0), R(1)
            if x[0] > x[1] or y[0] > y[1]:
                return (INF, -INF)
            if op == 'add':
                return fit((x[0] + y[0], x[1] + y[1]))
            if op == 'sub':
                return fit((x[0] - y[1], x[1] - y[0]))
            if op == 'mul':
                try:
                    q = [p * s for p in x for s in y]
                    return fit((min(q), max(q)))
                except Exception:
                    return F
            if op == 'and':
                hi = [z[1] for z in (x, y) if z[0] >= 0]
                return (0, min(hi)) if hi else F
            if op in ('or', 'xor'):
                if x[0] >= 0 and y[0] >= 0 and max(x[1], y[1]) < INF:
                    return (0 if op == 'xor' else max(x[0], y[0]), 2 ** int(max(x[1], y[1])).bit_length() - 1)
                return F
            if op in ('lshr', 'ashr') and x[0] >= 0 and y[0] == y[1] and x[1] < INF:
                return (int(x[0]) >> int(y[0]), int(x[1]) >> int(y[0]))
            if op == 'shl' and x[0] >= 0 and 0 <= y[0] and y[1] < 64 and x[1] < INF:
                return fit((int(x[0]) << int(y[0]), int(x[1]) << int(y[1])))
            if op in ('udiv', 'sdiv') and x[0] >= 0 and y[0] > 0 and x[1] < INF:
                return (int(x[0]) // int(y[1]) if y[1] < INF else 0, int(x[1]) // int(y[0]))
            if op in ('urem', 'srem') and y[0] > 0 and y[1] < INF:
                if x[0] >= 0:
                    return (0, min(x[1], y[1] - 1))
                return (-(y[1] - 1), y[1] - 1) if op == 'srem' else (0, y[1] - 1)
            return F
        if op == 'select':
            return self.choice(i, R(1), R(2), b, depth)
        return F

    def ways(self, b, edge, more):
        """(merge, its ways in, what is known of the phis behind each way) for every dominating merge whose flags, as tested since, leave only
        some of its ways in"""
        for d in self.fn.doms().get(b, ()):
            if self.fn.blocks[d][0].op == 'phi':
                out = self.excluded(None, b, edge, d, more)
                know, nested = {}, False
                for f in self.fn.blocks[d]:
                    if f.op != 'phi':
                        break
                    fs = self.facts(f, b, edge) + more.get(f.id, [])
                    for o, e in zip(f.ops, f.x):
                        j = self.fn.ins.get(o[1]) if o[0] == 'v' else None
                        if fs and j is not None and j.op == 'phi':
                            know.setdefault(e, {}).setdefault(j.id, []).extend(fs)
                            nested = True
                if out or nested:
                    yield d, [p for p in self.fn.pred[d] if p in self.reach and p not in out], know

    def dead(self, e, to):
        """a way into a merge whose conditions contradict each other, or what the tested value is by its definition"""
        k = ('dead', e, to)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = False
            r = self.memo[k] = self.contrary(e, to, set(), {}, 0)
        return r

    def contrary(self, e, to, facts, more, depth):
        facts = set(facts)

        def put(v, x):
            p, other, pred, off, thru = x
            if pred in ('eq', 'ne') and not off and not thru:
                other = self.canon(other)
                facts.add((v, ('n',) if other[0] == 'i' and other[1] == 0 else tuple(map(str, other)), pred))
        doms = self.fn.doms().get(e, ())
        for d in doms:
            for v in self.tested.get(d, ()):
                for c in self.cons[v]:
                    if c[0] == d:
                        put(v, c[1:])
        self.edgecons(e, to, put)
        if any(q == 'eq' and ((v, o, 'ne') in facts or o == ('n',) and self.there(v)) for v, o, q in facts):
            return True
        if depth < 5:
            for d, ins, know in self.ways(e, to, more):
                if ins and all(self.contrary(p, d, {f for f in facts if self.fn.ins[f[0]].b != d and self.fn.ins[f[0]].b in self.fn.doms().get(d, ())}, know.get(p, {}), depth + 1)
                                          for p in ins):
                    return True
        return False

    def there(self, v):
        """a pointer that is present by its definition"""
        i = self.fn.ins.get(v)
        if i is None or bits(i.ty) is not None or i.op == 'load' or i.op == 'call' and 'alloc' not in str(i.callee()) and 'g_str' not in str(i.callee()):
            return False
        r = self.define(i, i.b, None, 10)
        return r is not None and 1 <= r[0] <= r[1]

    def choice(self, i, x, y, b, depth):
        out = []
        for k, r in ((1, x), (2, y)):
            hits = []
            v = self.canon(i.ops[k])
            if v[0] == 'v':
                self.condition(i.ops[0], k == 1, b, lambda w, q: w == v[1] and hits.append(q))
                for p, other, pred, off, thru in hits:
                    r = self.apply(r, self.fn.ins[v[1]], p, other, pred, off, thru, depth)
            out.append(r)
        return union(*out)

    def range(self, o, b):
        """range of operand o at the end of block b (its definitions dominate b)"""
        r = None
        for n in range(200):
            self.memo, self.fresh = {}, False
            r = self.at(o, b)
            ch = self.fresh
            for p in sorted(self.phi):
                i = self.fn.ins[p]
                q = None
                for x, e in zip(i.ops, i.x):
                    if e in self.reach and not (self.pointers and x[0] in 'in' and self.dead(e, i.b)):
                        q = union(q, self.at(x, e, i.b))
                if q is not None and q[0] <= q[1]:
                    old = self.phi[p]
                    new = union(old, q)
                    if old is not None and new != old and n > 3:
                        lo = new[0] if new[0] == old[0] else next((-m for m in MARKS if -m <= new[0]), -INF)
                        hi = new[1] if new[1] == old[1] else next((m for m in MARKS if m >= new[1]), INF)
                        if new[0] >= 0:
                            lo = min(new[0], old[0])
                        F = full(i.ty)
                        new = (max(lo, F[0]), min(hi, F[1]))
                    if new != old:
                        self.phi[p] = new
                        self.memo = {}
                        ch = True
            if not ch and not self.fresh:
                break
        else:
            return full(self.ty(o)) if o[0] == 'v' else TOP
        # descend again from the fixpoint
        for n in range(3):
            self.memo = {}
            new = {}
            for p in sorted(self.phi):
                i = self.fn.ins[p]
                q = None
                for x, e in zip(i.ops, i.x):
                    if e in self.reach and not (self.pointers and x[0] in 'in' and self.dead(e, i.b)):
                        q = union(q, self.at(x, e, i.b))
                new[p] = meet(self.phi[p], q) if q is not None and q[0] <= q[1] and self.phi[p] is not None else self.phi[p]
            if new == self.phi:
                break
            self.phi = new
        self.memo = {}
        return self.at(o, b)


def p_ok(fn, i, p):
    return p in fn.pred[i.b]
