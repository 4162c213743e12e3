"""Comparator summarisation.  Every function handed to a sorting routine is flattened and each of its paths is summarised as
(relations between the two elements' attributes) -> sign of the result; results computed by subtraction or narrowed are rejected.
The summary is then checked for antisymmetry, reflexivity and transitivity over all combinations of attribute orderings, and for the
direction and priority the prediction order, the path order and the block order need.  The configured strategy is followed through
preload_readahead, and the block recorder is analysed path by path: a known disk block always wins over the inode number."""
from trace import *
from itertools import product

JOBS = ['ra preload_readahead', 'pr preload_prophet_predict stop=preload_prophet_readahead,vomm_predict']
SORTS = {'qsort': (0, 3), 'g_ptr_array_sort': (0, 1), 'g_qsort_with_data': (0, 3), 'g_ptr_array_sort_with_data': (0, 1), 'g_slist_sort': (0, 1), 'g_list_sort': (0, 1),
         'g_array_sort': (0, 1), 'g_sort_array': (0, 3), 'qsort_r': (0, 3), 'g_ptr_array_sort_values': (0, 1), 'g_list_insert_sorted': (1, 2), 'g_slist_insert_sorted': (1, 2)}
VALUES = {'g_ptr_array_sort_values', 'g_slist_sort', 'g_list_sort', 'g_list_insert_sorted', 'g_slist_insert_sorted'}


class Unsafe(Exception):
    pass


class Cmp(object):
    """summary of a comparator: list of (facts, return term)"""

    def __init__(self, c, name, direct):
        self.c, self.name, self.paths, self.direct = c, name, [], direct
        fn = c.flat('cmp:' + name)
        if len(fn.args) < 2:
            raise Broken('comparator %s takes %d arguments' % (name, len(fn.args)))
        A = [mk('arg', n, fn.args[n][0]) for n in (0, 1)]
        self.A = A

        class P(Client):
            def ret(cl, S, i, v):
                self.paths.append((dict(S.facts), v, S))

            def keep_atoms(cl, S):
                return {a for f in S.facts for a in f.atoms}

            def call(cl, S, i, name, args, ret, label):
                c.count('calls in comparators')

            def store(cl, S, i, loc, v):
                cl.bad(S, i, 'pure', 'the comparison modifies %s' % show(loc))
        if fn.loops():
            raise Broken('comparator %s has a loop' % name)
        c.sim(fn, P(), cap=5000, depth=40)
        self.attrs = []
        for f, v, S in self.paths:
            for t in list(f) + [v]:
                for x in subterms(t):
                    o = self.owner(x)
                    if o and o[1] not in self.attrs:
                        self.attrs.append(o[1])

    def owner(self, t):
        """(0|1, attribute) of a loaded attribute term"""
        t = uncast(t) if t.k == 'cast' and t.a[0] in ('sext', 'zext', 'fpext') else t
        l = unload(t) if t.k == 'ld' else None
        if l is None or l.k != 'fld':
            return None
        b = l.a[0]
        for n in (0, 1):
            if b is self.A[n] and self.direct or (not self.direct and b.k == 'ld' and b.a[1] is self.A[n]):
                return n, tag(l.a[1])
        return None

    def rel(self, a, b, R):
        """relation (-1,0,1) between two compared terms under the attribute relations R"""
        oa, ob = self.owner(a), self.owner(b)
        if oa and ob:
            if oa[1] != ob[1]:
                raise Unsafe('compares %s with %s' % (oa[1], ob[1]))
            if oa[0] == ob[0]:
                return 0
            return R[oa[1]] if oa[0] == 0 else -R[oa[1]]
        return None

    def sign(self, t, R):
        """sign of an integer term"""
        if t.k == 'i':
            return (t.a[0] > 0) - (t.a[0] < 0)
        if t.k == 'sel':
            return self.sign(t.a[1] if self.truth(t.a[0], R) else t.a[2], R)
        if t.k == 'pure' and t.a[0] in ('strcmp',):
            r = self.rel(t.a[1], t.a[2], R)
            if r is None:
                raise Unsafe('compares strings %s' % show(t))
            return r
        if t.k == 'cast' and t.a[0] == 'trunc':
            raise Unsafe('narrows %s to the result type' % show(t.a[3]))
        if t.k == 'cast':
            return self.sign(t.a[3], R)
        if t.k in ('cmp', 'not'):
            return int(self.truth(t, R))
        if t.k == 'op' and t.a[0] in ('sub', 'add'):
            v = self.small(t, R)
            if v is None:
                raise Unsafe('computes its result as %s, which can overflow' % show(t))
            return (v > 0) - (v < 0)
        if t.k == 'op' and t.a[0] == 'mul' and t.a[2].k == 'i':
            s = self.sign(t.a[1], R)
            return s if t.a[2].a[0] > 0 else -s if t.a[2].a[0] < 0 else 0
        raise Unsafe('result %s is not a comparison' % show(t))

    def small(self, t, R):
        """value of a small integer term"""
        if t.k == 'i':
            return t.a[0]
        if t.k == 'cast' and t.a[0] in ('sext', 'zext'):
            v = self.small(t.a[3], R)
            return -v if t.a[0] == 'sext' and t.a[1] == 'i1' and v else v
        if t.k in ('cmp', 'not'):
            return int(self.truth(t, R))
        if t.k == 'op' and t.a[0] in ('add', 'sub', 'mul'):
            a, b = self.small(t.a[1], R), self.small(t.a[2], R)
            if a is None or b is None:
                return None
            return a + b if t.a[0] == 'add' else a - b if t.a[0] == 'sub' else a * b
        return None

    def truth(self, t, R):
        if t.k == 'i':
            return bool(t.a[0])
        if t.k == 'not':
            return not self.truth(t.a[0], R)
        if t.k == 'cast':
            return self.truth(t.a[3], R)
        if t.k == 'sel':
            return self.truth(t.a[1] if self.truth(t.a[0], R) else t.a[2], R)
        if t.k == 'op' and t.a[0] in ('and', 'or', 'xor'):
            a, b = self.truth(t.a[1], R), self.truth(t.a[2], R)
            return {'and': a and b, 'or': a or b, 'xor': a != b}[t.a[0]]
        if t.k == 'cmp':
            p, a, b = t.a
            r = self.rel(a, b, R)
            if r is None:
                if b.k == 'i':
                    v = self.small(a, R)
                    if v is not None:
                        r = (v > b.a[0]) - (v < b.a[0])
                    elif b.a[0] == 0:
                        r = self.sign(a, R)
                elif a.k == 'i':
                    v = self.small(b, R)
                    if v is not None:
                        r = (a.a[0] > v) - (a.a[0] < v)
                    elif a.a[0] == 0:
                        r = -self.sign(b, R)
            if r is None:
                raise Unsafe('depends on %s' % show(t))
            return {'eq': r == 0, 'oeq': r == 0, 'slt': r < 0, 'ult': r < 0, 'olt': r < 0, 'ole': r <= 0, 'uno': False}[p]
        raise Unsafe('depends on %s' % show(t))

    def value(self, R):
        """sign under the relations R"""
        out = set()
        for f, v, S in self.paths:
            ok = True
            for t, (lo, hi, ne) in f.items():
                if t.k in ('cmp', 'not'):
                    if self.truth(t, R) != bool(lo):
                        ok = False
                        break
                elif t.k in ('arg',) or self.owner(t) or t.k == 'ld':
                    if self.owner(t):
                        raise Unsafe('treats a particular value of %s specially' % self.owner(t)[1])
                else:
                    s = self.small(t, R)
                    if s is None:
                        s = self.sign(t, R)
                        # only the sign is known
                        vals = {-1: (-INF, -1), 0: (0, 0), 1: (1, INF)}[s]
                        if hi < vals[0] or lo > vals[1] or (s == 0 and 0 in ne):
                            ok = False
                            break
                    elif not (lo <= s <= hi) or s in ne:
                        ok = False
                        break
            if ok:
                out.add(self.sign(v, R))
        if len(out) != 1:
            raise Unsafe('has %d results for one combination of attribute orders' % len(out))
        return out.pop()


def comp(a, b):
    if a == 0:
        return (b,)
    if b == 0:
        return (a,)
    return (a,) if a == b else (-1, 0, 1)


def summarise(c, name, direct):
    try:
        m = Cmp(c, name, direct)
        n = len(m.attrs)
        if n == 0:
            c.bad('order', name, 'the comparison %s looks at no attribute of its elements' % name)
            return None
        if n > 5:
            raise Broken('comparator %s looks at %d attributes' % (name, n))
        tab = {}
        for r in product((-1, 0, 1), repeat=n):
            tab[r] = m.value(dict(zip(m.attrs, r)))
            c.count('attribute orderings evaluated')
    except Unsafe as e:
        c.bad('overflow-free', name, 'the comparison %s %s' % (name, e))
        return None
    for r, v in tab.items():
        if tab[tuple(-x for x in r)] != -v:
            c.bad('antisymmetric', name, 'comparing two elements both ways round gives results of signs %d and %d (%s)' % (v, tab[tuple(-x for x in r)], dict(zip(m.attrs, r))))
            return None
    for r1, v1 in tab.items():
        if v1 > 0:
            continue
        for r2, v2 in tab.items():
            if v2 > 0:
                continue
            for r3 in product(*[comp(x, y) for x, y in zip(r1, r2)]):
                c.count('triples checked')
                if tab[r3] > 0 or tab[r3] == 0 and (v1 < 0 or v2 < 0):
                    c.bad('transitive', name, 'the comparison is not transitive')
                    return None
    c.ok('%s: total preorder over %s' % (name, ', '.join(m.attrs)))
    return m, tab


def priority(s, attr, want):
    """attr is the first key, ascending (want=1)"""
    m, tab = s
    if attr not in m.attrs:
        return False
    k = m.attrs.index(attr)
    return all(v == r[k] * want for r, v in tab.items() if r[k])


def lexi(s, attrs):
    """the attributes decide in this order (ascending), ignoring later ones"""
    m, tab = s
    if any(a not in m.attrs for a in attrs):
        return False
    ix = [m.attrs.index(a) for a in attrs]
    for r, v in tab.items():
        for k in ix:
            if r[k]:
                if v != r[k]:
                    return False
                break
    return True


def run(c):
    found = {}
    for fn in c.prog.fns.values():
        for i in fn.calls(*SORTS):
            o = i.ops[SORTS[i.callee()][1]]
            if o[0] == 'fn':
                found.setdefault(o[1], []).append((i.callee(), i.where(), fn.name))
    # through helpers: function arguments resolved on the flattened roots
    used = {'ra': [], 'pr': []}

    def ontr(root):
        def f(cl, S, i, name, args, ret, label):
            t = args[SORTS[name][1]]
            if t.k != 'fn':
                raise Broken('comparison function of %s is not constant' % name)
            found.setdefault(t.a[0], []).append((name, i.where(), root))
        return f
    for root in used:
        c.sim(root, Trace(calls=SORTS, oncall=ontr(root)))
    if not found:
        c.bad('sorted', 'preload_prophet_predict', 'nothing is sorted')
        return
    c.load(JOBS + ['cmp:%s %s' % (f, f) for f in found])
    S = {}
    for f, where in sorted(found.items()):
        c.count('comparators')
        S[f] = summarise(c, f, where[0][0] in VALUES)
    c.summ = S
    # ---- prediction order
    seen = [0]

    def onpred(cl, S_, i, v):
        c.count('prediction paths')
        last = None
        for e in S_.auto:
            if e[1] in SORTS:
                last = e
            elif e[1] == 'preload_prophet_readahead':
                seen[0] += 1
                if last is None:
                    cl.bad(S_, i, 'prediction-order', 'maps are chosen without having been sorted')
                    continue
                s = S.get(last[2][SORTS[last[1]][1]].a[0])
                if s and not priority(s, 'map.lnprob', 1):
                    cl.bad(S_, i, 'prediction-order', 'the maps are not sorted by need, most needed (lowest log-probability) first')
    c.sim('pr', Trace(calls=set(SORTS) | {'preload_prophet_readahead'}, onret=onpred))
    # ---- disk order by strategy
    for strat, name, keys in ((0, 'none', None), (1, 'path', ['map.path', 'map.offset']), (2, 'inode', ['map.block', 'map.path', 'map.offset']), (3, 'block', ['map.block', 'map.path', 'map.offset'])):
        hit = [0]

        class D(Trace):
            def init(self):
                return (None, False)

            def keep_atoms(self, S_):
                return ()

            def load(self, S_, i, loc, v):
                if isfld(loc, 'conf_system.sortstrategy') and v.k != 'i':
                    S_.mem[loc] = I(strat)
                    S_.env[i.id] = I(strat)

            def call(self, S_, i, n, args, ret, label):
                if n in SORTS:
                    S_.auto = (args[SORTS[n][1]].a[0], False)
                elif n == 'fork':
                    self.judge(S_, i)

                elif n == 'ioctl':
                    S_.auto = (S_.auto[0], True)
                    if strat != 3:
                        self.bad(S_, i, 'strategy', 'strategy %s: disk blocks are queried' % name)
                elif n == 'open':
                    S_.auto = (S_.auto[0], False)

            def store(self, S_, i, loc, v):
                if strat == 3 and isfld(loc, 'map.block') and v.k != 'i' and not S_.auto[1]:
                    self.bad(S_, i, 'strategy', 'strategy block: the position is recorded without querying the disk block')

            def judge(self, S_, i):
                hit[0] += 1
                last = S_.auto[0]
                if keys is None:
                    if last:
                        self.bad(S_, i, 'strategy', 'strategy %s: the maps are sorted by %s' % (name, last))
                elif last is None:
                    self.bad(S_, i, 'strategy', 'strategy %s: the maps are read without being sorted' % name)
                elif S.get(last) and not lexi(S[last], keys):
                    self.bad(S_, i, 'strategy', 'strategy %s: the last sort before reading is by %s' % (name, last))
        c.sim('ra', D())
        c.count('strategies followed')
        if not hit[0]:
            c.bad('strategy', 'preload_readahead', 'strategy %s: no file is read' % name)
        c.ok('strategy %s' % name)
    block(c)


def block(c):
    """recording of disk blocks: the value left in map.block on each path of one recording, and the completeness of the recording"""
    class B(Trace):
        track = True

        # auto: (query location, query result, block read back, pending (element, block value))
        def init(self):
            return (None, None, None, None)

        def keep_atoms(self, S):
            out = set()
            for x in S.auto[:3] + (S.auto[3] or ()):
                if x is not None:
                    out |= x.atoms
            return out

        def settle(self, S, i, again):
            """the pending element must have had a block, or have been given one"""
            p = S.auto[3]
            S.auto = S.auto[:3] + (None,)
            if p and not self.known(S, p[1]) and not (again and S.rng(p[1])[:2] == (-1, -1)):
                self.bad(S, i, 'block', 'the maps are put in disk order although the block of one has not been looked up')

        def known(self, S, v):
            lo, hi, ne = S.rng(v)
            return -1 in ne or lo > -1 or hi < -1

        def load(self, S, i, loc, v):
            if S.auto[0] is not None and loc is S.auto[0] and (unload(v) is loc or v.k == 'i'):
                S.auto = S.auto[:2] + (v, S.auto[3])
            if isfld(loc, 'map.block') and v.k != 'i':
                if S.auto[3] and S.auto[3][1] is v:
                    return
                self.settle(S, i, True)
                S.auto = S.auto[:3] + ((loc.a[0], v),)
                c.count('block tests')

        def call(self, S, i, name, args, ret, label):
            if name == 'ioctl':
                c.count('block queries')
                S.auto = (args[2], ret, None, S.auto[3])
            elif name == 'open':
                S.auto = (None, None, None, S.auto[3])
            elif name in SORTS:
                t = args[SORTS[name][1]]
                s = self.summ.get(t.a[0])
                self.settle(S, i, s and 'map.block' not in s[0].attrs)

        def store(self, S, i, loc, v):
            if not isfld(loc, 'map.block'):
                return
            p = S.auto[3]
            if p and p[0] is loc.a[0]:
                S.auto = S.auto[:3] + (None,)
            if v.k == 'i':
                if v.a[0] == -1:
                    self.bad(S, i, 'block', 'a looked-up block is forgotten')
                return
            c.count('block stores')
            q, r, b, _ = S.auto
            if any(x.k == 'ld' and x.a[1].k == 'fld' and x.a[1].a[1].endswith('st_ino') or x.k in ('out', 'hv', 'm') and 'st_ino' in show(x) for x in subterms(v)):
                c.count('inode stores')
                if q is not None and S.rng(r)[1] >= 0 and not (b is not None and S.isnull(b)):
                    self.bad(S, i, 'block', 'the inode number replaces a disk block that is known')
            elif b is not None and uncast(v) is uncast(b):
                c.count('disk block stores')
                if S.rng(r)[0] < 0:
                    self.bad(S, i, 'block', 'the result of a failed block query is stored')
            elif not any(x.k == 'ld' for x in subterms(v)):
                pass
    b = B()
    b.summ = c.summ
    c.sim('ra', b)
    c.need('block stores')
