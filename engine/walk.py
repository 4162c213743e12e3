"""Event lists with container walks, for unfolded (loop-free) functions: which elements of which table, array or list a path went through,
in which order, and whether it went through all of them."""
from trace import *
from unfold import unfold


class Walk(Trace):
    """events: ('init', table, it) ('next', it, key, value) ('end', it) ('elem', array, index, value) ('node', node, data) + those of Trace"""
    MAXEV = 400

    def keep_atoms(self, S):
        return {a for f in S.facts for a in f.atoms} | Trace.keep_atoms(self, S)

    def add(self, S, e):
        if len(S.auto) >= self.MAXEV:
            raise Broken('event list too long')
        S.auto = S.auto + (e,)

    def call(self, S, i, name, args, ret, label):
        if name == 'g_hash_table_iter_init':
            self.add(S, ('init', args[1], args[0]))
        elif name == 'g_hash_table_iter_next':
            if label == 'next':
                val = lambda n: S.mem.get(self.sim.addr_leaf(args[n]), ZERO) if args[n] is not ZERO else ZERO
                self.add(S, ('next', args[0], val(1), val(2)))
                for v in (val(1), val(2)):
                    if v.k == 'out' and self.nonnull(v):
                        S.refine(v, ne=(0,))
            else:
                self.add(S, ('end', args[0]))
        return Trace.call(self, S, i, name, args, ret, label)

    def nonnull(self, v):
        return True

    def load(self, S, i, loc, v):
        a = elemloc(loc)
        if a:
            e = ('elem', a[0], a[1], v)
            if e not in S.auto:
                self.add(S, e)
            S.refine(v, ne=(0,))
        elif loc.k == 'fld' and loc.a[1] in ('_GSList.data', '_GList.data'):
            e = ('node', loc.a[0], v)
            if e not in S.auto:
                self.add(S, e)
        return Trace.load(self, S, i, loc, v)


def elemloc(loc):
    """(array, index) of a pointer-array slot"""
    j = 0
    if loc.k == 'idx' and loc.a[1].k == 'i':
        j, loc = loc.a[1].a[0], loc.a[0]
    l = unload(loc)
    if l is not None and l.k == 'fld' and l.a[1] == '_GPtrArray.pdata':
        return l.a[0], j
    return None


def arrlen(S, A):
    """(lo, hi) of the length of array A as the facts of the path have it"""
    lo, hi = 0, INF
    for t in list(S.facts) + list(S.mem.values()):
        for x in subterms(t):
            if x.k == 'ld' and x.a[1].k == 'fld' and x.a[1].a[1] == '_GPtrArray.len' and x.a[1].a[0] is A:
                l, h, ne = S.rng(x)
                while l in ne:
                    l += 1
                lo, hi = max(lo, l), min(hi, h)
    return lo, hi


def same(a, b):
    """two loads of one location (the structures walked here are not replaced during the walk)"""
    if a is b:
        return True
    x, y = unload(a), unload(b)
    if x is None or y is None:
        return False
    return x is y or x.k == y.k == 'fld' and x.a[1] == y.a[1] and same(x.a[0], y.a[0])


def hashwalks(ev, lo=0, hi=None):
    """walks over hash tables among events lo..hi: list of (table, [(key, value)], complete, first event, last event)"""
    out, cur = [], {}
    for n, e in enumerate(ev[lo:hi], lo):
        if e[0] == 'init':
            w = [e[1], [], False, n, n]
            out.append(w)
            cur[e[2]] = w
        elif e[0] == 'next' and e[1] in cur:
            cur[e[1]][1].append((e[2], e[3]))
            cur[e[1]][4] = n
        elif e[0] == 'end' and e[1] in cur:
            cur[e[1]][2] = True
            cur[e[1]][4] = n
            del cur[e[1]]
    return out


def arrwalks(S, ev, lo=0, hi=None):
    """{array: (elements by index, complete)}"""
    out = {}
    for e in ev[lo:hi]:
        if e[0] == 'elem':
            k = next((a for a in out if same(a, e[1])), e[1])
            out.setdefault(k, {})[e[2]] = e[3]
    r = {}
    for A, els in out.items():
        l, h = arrlen(S, A)
        r[A] = (els, l == h == len(els) and set(els) == set(range(len(els))))
    return r
