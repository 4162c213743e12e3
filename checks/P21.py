"""Iteration typestate.  Every function reachable from main that walks a container (GLib walkers are inlined C models, so callbacks and
explicit loops look alike) is unfolded; each hash-table iterator, ascending array walk and list walk is tracked, and an insertion, removal or
release that may be of the walked container - made by the loop body, a callback, or by any function they call (transitive effect summaries
over the call graph, with the release callbacks of the tables) - followed by a continuation of that walk is a violation."""
from walk import *
from sim import static_key

JOBS = ['root preload_map_get_size']
HMOD = {'g_hash_table_insert': 'inserts into', 'g_hash_table_replace': 'inserts into', 'g_hash_table_add': 'inserts into', 'g_hash_table_remove': 'removes from', 'g_hash_table_steal': 'removes from',
        'g_hash_table_steal_extended': 'removes from', 'g_hash_table_remove_all': 'removes from', 'g_hash_table_steal_all': 'removes from', 'g_hash_table_destroy': 'frees', 'g_hash_table_unref': 'frees',
        'g_hash_table_foreach_remove': 'removes from', 'g_hash_table_foreach_steal': 'removes from'}
AMOD = {'g_ptr_array_add': 'inserts into', 'g_ptr_array_insert': 'inserts into', 'g_ptr_array_remove': 'removes from', 'g_ptr_array_remove_fast': 'removes from', 'g_ptr_array_remove_index': 'removes from',
        'g_ptr_array_remove_index_fast': 'removes from', 'g_ptr_array_remove_range': 'removes from', 'g_ptr_array_set_size': 'removes from', 'g_ptr_array_free': 'frees', 'g_ptr_array_unref': 'frees',
        'g_ptr_array_sort': 'reorders'}
LMOD = {'g_%slist_%s' % (a, b): w for a in ('s', '') for b, w in (('append', 'inserts into'), ('insert', 'inserts into'), ('insert_before', 'inserts into'), ('remove', 'removes from'), ('remove_all', 'removes from'),
        ('remove_link', 'removes from'), ('delete_link', 'removes from'), ('free', 'frees'), ('free_1', 'frees'), ('sort', 'reorders'), ('reverse', 'reorders'), ('concat', 'inserts into'), ('insert_sorted', 'inserts into'))}
MODS = {}
for d in (HMOD, AMOD, LMOD):
    MODS.update(d)
WALKERS = {'g_hash_table_foreach', 'g_hash_table_foreach_remove', 'g_hash_table_foreach_steal', 'g_hash_table_find', 'g_slist_foreach', 'g_list_foreach', 'g_ptr_array_foreach', 'g_hash_table_iter_init',
           'g_slist_free_full', 'g_list_free_full'}
NEWTAB = {'g_hash_table_new', 'g_hash_table_new_full', 'g_ptr_array_new', 'g_ptr_array_new_with_free_func', 'g_ptr_array_sized_new'}


ENDS = ('_preload_markov_t.a', '_preload_markov_t.b')


def kind(n):
    return 'H' if n in HMOD else 'A' if n in AMOD else 'L'


def origin(prog, fn, op, d=0):
    """where a container pointer comes from: keys of the fields it is loaded from, ('arg', n), or ('?',)"""
    if d > 12:
        return {('?',)}
    if op[0] == 'a':
        return {('arg', op[1])}
    if op[0] == 'n':
        return set()
    if op[0] == 'v':
        i = fn.ins[op[1]]
        if i.op == 'load':
            k = static_key(prog, fn, i.ops[0])
            return {k} if k[0] in ('F', 'G') else {('?',)}
        if i.op in ('phi', 'select'):
            r = set()
            for o in (i.ops if i.op == 'phi' else i.ops[1:]):
                if o != ['v', i.id]:
                    r |= origin(prog, fn, o, d + 1)
            return r
        if i.op == 'cast':
            return origin(prog, fn, i.ops[0], d + 1)
        if i.op == 'call' and (i.callee() in NEWTAB or i.callee() in LMOD):
            return set() if i.callee() in NEWTAB else origin(prog, fn, i.ops[0], d + 1)
    return {('?',)}


class Effects(object):
    """(kind, key) of every container a function, or anything it calls, inserts into, removes from or frees"""

    def __init__(self, prog):
        self.prog, self.m = prog, {}
        self.destroy = {}
        for fn in prog.fns.values():
            for i in fn.instrs():
                if i.op == 'store' and i.ops[0][0] == 'v':
                    d = fn.ins[i.ops[0][1]]
                    if d.op == 'call' and d.callee() in NEWTAB:
                        fs = {o[1] for o in d.ops if o[0] == 'fn' and o[1] in prog.fns}
                        if fs:
                            self.destroy.setdefault(static_key(prog, fn, i.ops[1]), set()).update(fs)
        ch = True
        while ch:
            ch = False
            for fn in prog.fns.values():
                r = set(self.m.get(fn.name, ()))
                n0 = len(r)
                for i in fn.calls():
                    n = i.callee()
                    if n in MODS and i.ops:
                        for k in origin(prog, fn, i.ops[0]):
                            r.add((kind(n), k))
                            if MODS[n] in ('removes from', 'frees') and 'steal' not in n:
                                for f in self.destroy.get(k, ()):
                                    r |= {e for e in self.m.get(f, ()) if e[1][0] != 'arg'}
                    elif n in prog.fns:
                        for kd, k in self.m.get(n, ()):
                            if k[0] == 'arg':
                                if k[1] < len(i.ops):
                                    r |= {(kd, x) for x in origin(prog, fn, i.ops[k[1]])}
                            else:
                                r.add((kd, k))
                    for o in i.ops:
                        if o[0] == 'fn' and o[1] in prog.fns and n != 'g_hash_table_new_full':
                            r |= {e for e in self.m.get(o[1], ()) if e[1][0] != 'arg'}
                if len(r) != n0:
                    self.m[fn.name] = r
                    ch = True

    def of(self, n):
        return self.m.get(n, set())


def locof(t):
    """the place a container value is kept in; the value itself if it is not known to be kept anywhere"""
    t = uncast(t)
    if t.k == 'sl':
        return t.a[0]
    l = unload(t)
    return l if l is not None else t


def sameplace(a, b):
    if a is b:
        return True
    return a.k == b.k == 'fld' and a.a[1] == b.a[1] and sameplace(locof(a.a[0]), locof(b.a[0]))


class It(Client):
    """auto: tuple of ('H', iterator, table place, dirty) ('A', array place, last index, dirty) ('N', node, list place, dirty) ('E', element, table place)"""

    def __init__(self, eff):
        self.eff = eff

    def keep_atoms(self, S):
        # walks whose container nothing live refers to are over
        held = set()
        for v in S.env.values():
            held |= v.atoms
        for k, v in S.mem.items():
            if root(k).k == 'A':
                held |= v.atoms
        S.auto = tuple(e for e in S.auto if all(a in held or a[0] in ('arg', 'A') for x in e[1:3] if isinstance(x, Term) for a in x.atoms))
        a = set()
        for f in S.facts:
            if f.k == 'cmp' and f.a[0] == 'eq' and any(l is not None and l.k == 'fld' and l.a[1] in ENDS for l in (unload(f.a[1]), unload(f.a[2]))):
                a |= f.atoms
        for e in S.auto:
            for x in e:
                if isinstance(x, Term):
                    a |= x.atoms
        return a

    def put(self, S, e, n=2):
        S.auto = tuple(x for x in S.auto if x[:n] != e[:n]) + (e,)

    def disjoint(self, S, x, y):
        """can the containers kept at places x and y not be the same one?"""
        if sameplace(x, y):
            return False
        if 'A' in (x.k, y.k) and x.k != y.k and {x.k, y.k} & {'fld', 'g', 'c'}:
            return True
        if (x.k in ('fld', 'g')) != (y.k in ('fld', 'g')):
            # a container made here against one that is kept in a structure
            z = y if x.k in ('fld', 'g') else x
            return z.k == 'c'
        if x.k == 'c' and y.k == 'c':
            return True
        if x.k in ('fld', 'g') and key_of(x) != key_of(y):
            return True
        if x.k == 'fld':
            p, q = x.a[0], y.a[0]
            if S.truth(cmp_term('eq', p, q)) is False:
                return True
            rp, rq = root(p), root(q)
            if rp.k == 'c' and rp is not rq and self.fresh(rp) or rq.k == 'c' and rp is not rq and self.fresh(rq):
                return True
            # a member of the walked container against its owner: structures that own their members form trees
            for m, o in ((p, y), (q, x)):
                if any(e[0] == 'E' and e[1] is uncast(m) and sameplace(e[2], o) for e in S.auto):
                    return True
            # the two ends of a pair are different
            la, lb = self.end(S, p), self.end(S, q)
            for (ra, ma) in la:
                for (rb, mb) in lb:
                    if ma is mb and ra != rb:
                        return True
        return False

    def fresh(self, t):
        return t.a[1] in ('g_malloc', 'g_malloc0', 'malloc', 'calloc') or t.a[1] in self.eff.prog.fns and t.a[1].endswith('_new')

    def end(self, S, t):
        """{(end, pair)}: the pairs t is known to be an end of"""
        out = set()
        l = unload(t)
        if l is not None and l.k == 'fld' and tag(l.a[1]) in ('markov.a', 'markov.b'):
            out.add((tag(l.a[1]), l.a[0]))
        for f in S.facts:
            if f.k == 'cmp' and f.a[0] == 'eq' and S.truth(f) is True:
                for u, v in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    l = unload(v)
                    if u is t and l is not None and l.k == 'fld' and tag(l.a[1]) in ('markov.a', 'markov.b'):
                        out.add((tag(l.a[1]), l.a[0]))
        return out

    def modified(self, S, i, kd, place, how, cur=None, key=None):
        """a container of kind kd at place (or any with the given key) was modified"""
        new = []
        for e in S.auto:
            hit = False
            if e[0] == kd or e[0] == 'N' and kd == 'L':
                p = e[2] if e[0] in ('H', 'N') else e[1]
                if place is not None:
                    hit = not self.disjoint(S, p, place)
                else:
                    hit = p.k == 'arg' or p.k in ('fld', 'g') and root(p).k != 'A' and (key == ('?',) or key_of(p) == key)
                if hit and cur is not None and e[0] == 'N':
                    hit = e[1] is cur
            if hit:
                e = e[:3] + ((how, i.where()),)
            new.append(e)
        S.auto = tuple(new)

    def call(self, S, i, name, args, ret, label):
        c = self.ctx
        if name == 'g_hash_table_iter_init':
            self.put(S, ('H', args[0], locof(args[1]), None))
            c.count('walks started')
        elif name == 'g_hash_table_iter_next':
            for e in S.auto:
                if e[0] == 'H' and e[1] is args[0]:
                    if e[3]:
                        self.bad(S, i, 'iteration', 'the walk over %s goes on after it was modified: %s %s it' % (self.name(e[2]), e[3][1], e[3][0]))
                    if label == 'next':
                        for n in (1, 2):
                            v = S.mem.get(self.sim.addr_leaf(args[n])) if args[n] is not ZERO else None
                            if v is not None:
                                self.put(S, ('E', uncast(v), e[2]))
                                S.refine(v, ne=(0,))
            if label == 'end':
                for w in [e for e in S.auto if e[0] == 'H' and e[1] is args[0]]:
                    S.auto = tuple(e for e in S.auto if e is not w and not (e[0] == 'E' and e[2] is w[2]))
        elif name in ('g_hash_table_iter_remove', 'g_hash_table_iter_steal'):
            own = [e for e in S.auto if e[0] == 'H' and e[1] is args[0]]
            for e in own:
                rest = tuple(x for x in S.auto if x is not e)
                S.auto = rest
                self.modified(S, i, 'H', e[2], 'removes from')
                if name.endswith('remove') and e[2].k in ('fld', 'g'):
                    self.released(S, i, key_of(e[2]))
                S.auto = S.auto + (e,)
            c.count('removals through the iterator')
        elif name in MODS:
            c.count('modifications judged')
            cur = None
            if name.endswith(('delete_link', 'remove_link')):
                cur = args[1]
            elif name.endswith('_remove_all') or name.endswith('list_remove'):
                d = [e for e in S.auto if e[0] == 'N']
                for e in d:
                    v = S.mem.get(mk('fld', e[1], '_GSList.data'), S.mem.get(mk('fld', e[1], '_GList.data')))
                    if v is not None and v is args[1]:
                        cur = e[1]
            p = locof(args[0])
            if kind(name) == 'L':
                for e in S.auto:
                    if e[0] == 'N' and (e[1] is args[0] or e[1] is p):
                        p = e[2]
            self.modified(S, i, kind(name), p, MODS[name], cur)
            if MODS[name] in ('removes from', 'frees') and 'steal' not in name and p.k in ('fld', 'g'):
                self.released(S, i, key_of(p))
        elif name in self.eff.prog.fns:
            es = self.eff.of(name)
            if es and any(e[0] != 'E' for e in S.auto):
                c.count('calls judged by their effects')
            for kd, k in es:
                if k[0] == 'arg':
                    if k[1] < len(args):
                        self.modified(S, i, kd, locof(args[k[1]]), '%s() changes' % name)
                else:
                    # a call on a member of the walked structure changes only what lies below it
                    under = [e for e in S.auto if e[0] == 'E' and any(uncast(x) is e[1] for x in args) and e[2].k == 'fld' and key_of(e[2]) == k and name in self.eff.prog.reachable([self.sim.fn.name])]
                    if kd == 'H' and under and self.confined(name, k):
                        c.count('recursive walks')
                        continue
                    self.modified(S, i, kd, None, '%s() changes' % name, key=k)

    def released(self, S, i, key):
        for f in self.eff.destroy.get(key, ()):
            for kd, k in self.eff.of(f):
                if k[0] != 'arg':
                    if (kd, k) == ('H', key) and self.confined(f, k):
                        continue
                    self.modified(S, i, kd, None, '%s() changes' % f, key=k)

    def confined(self, name, key):
        """name changes containers of this key only below its own arguments: every such container is reached from an argument, an element
        of a container so reached, or a node made there"""
        prog = self.eff.prog
        memo = self.__dict__.setdefault('conf', {})
        if (name, key) in memo:
            return memo[name, key]
        memo[name, key] = True
        fn = prog.fns[name]

        def below(op, d=0):
            if d > 15:
                return False
            if op[0] == 'a':
                return True
            if op[0] == 'n':
                return True
            if op[0] == 'v':
                i = fn.ins[op[1]]
                if i.op in ('load', 'fld', 'gep', 'cast'):
                    o = i.ops[0]
                    if o[0] == 'v' and fn.ins[o[1]].op == 'alloca':
                        # written by an iterator step whose table lies below
                        al = fn.ins[o[1]]
                        for j in fn.calls('g_hash_table_iter_next'):
                            if any(x == o for x in j.ops[1:]):
                                its = [x for x in fn.calls('g_hash_table_iter_init') if x.ops[0] == j.ops[0]]
                                return bool(its) and all(below(x.ops[1], d + 1) for x in its)
                        return False
                    return below(o, d + 1)
                if i.op in ('phi', 'select'):
                    return all(o == ['v', i.id] or below(o, d + 1) for o in (i.ops if i.op == 'phi' else i.ops[1:]))
                if i.op == 'call' and i.callee() in NEWTAB:
                    return True
            return False
        r = True
        for i in fn.calls():
            n = i.callee()
            if n in MODS and ('H', key) == (kind(n), key) and key in origin(prog, fn, i.ops[0]):
                r = r and below(i.ops[0])
            elif n in prog.fns and ('H', key) in self.eff.of(n):
                r = r and all(below(o) for o in i.ops if o[0] in 'va') and self.confined(n, key)
        memo[name, key] = r
        return r

    def name(self, p):
        return tag(p.a[1]) if p.k == 'fld' else show(p)

    def load(self, S, i, loc, v):
        a = elemloc(loc)
        if a:
            p, j = locof(a[0]), a[1]
            old = [e for e in S.auto if e[0] == 'A' and sameplace(e[1], p)]
            for e in old:
                if j > e[2] and e[3]:
                    self.bad(S, i, 'iteration', 'the walk over %s goes on after it was modified: %s %s it' % (self.name(e[1]), e[3][1], e[3][0]))
            S.auto = tuple(e for e in S.auto if e not in old) + (('A', p, j, old[0][3] if old and j > old[0][2] else None),)
            if not old:
                self.ctx.count('walks started')
            S.refine(v, ne=(0,))
        elif loc.k == 'fld' and loc.a[1] in ('_GSList.data', '_GList.data', '_GSList.next', '_GList.next'):
            n = loc.a[0]
            mine = [e for e in S.auto if e[0] == 'N' and e[1] is n]
            for e in mine:
                if e[3]:
                    self.bad(S, i, 'iteration', 'the walk over %s goes on after it was modified: %s %s it' % (self.name(e[2]), e[3][1], e[3][0]))
            if not mine:
                S.auto = S.auto + (('N', n, locof(n), None),)
                self.ctx.count('walks started')
                mine = [S.auto[-1]]
            if loc.a[1].endswith('next') and not S.isnull(v) and v is not ZERO:
                if not any(e[0] == 'N' and e[1] is v for e in S.auto):
                    S.auto = S.auto + (('N', v, mine[0][2], None),)


def walkers(prog, reach):
    out = []
    for f in sorted(reach):
        fn = prog.fns.get(f)
        if fn is None:
            continue
        w = any(True for _ in fn.calls(*WALKERS))
        inl = set()
        for h, body, _ in fn.loops():
            inl |= set(body)
        for b in inl:
            for i in fn.blocks[b]:
                if i.op == 'load':
                    k = static_key(prog, fn, i.ops[0])
                    if k in (('F', '_GPtrArray.pdata'), ('F', '_GSList.next'), ('F', '_GList.next'), ('F', '_GSList.data'), ('F', '_GList.data'), ('F', '_GList.prev')):
                        w = True
        if w:
            out.append(f)
    return out


def run(c):
    prog = c.prog
    reach = {f for f in prog.reachable(['main']) if f in prog.fns}
    eff = Effects(prog)
    ws = walkers(prog, reach)
    taken = set()
    for fn in prog.fns.values():
        for i in fn.instrs():
            for o in i.ops:
                if isinstance(o, list) and o and o[0] == 'fn':
                    taken.add(o[1])
                    if i.op == 'call' and i.callee() in prog.fns:
                        taken.add(i.callee())
    # walkers that take the function to call as a parameter are analysed inside their callers
    wrap = {f for f in ws if any(i.callee() is None and i.op == 'call' for i in prog.fns[f].calls()) or any(o[0] == 'a' and i.callee() in WALKERS and n == 1 for i in prog.fns[f].calls() for n, o in enumerate(i.ops))}
    roots = sorted(set(ws) - wrap)
    pub = {f.name for f in prog.fns.values() if not f.internal}
    rec = {f for f in prog.fns if any(f in prog.reachable([g]) for g in prog.callgraph().get(f, ()) if g in prog.fns)}
    callers = sorted({f for f in reach for i in prog.fns[f].calls() if i.callee() in taken & reach and any(o[0] == 'fn' for o in i.ops)})
    roots = sorted(set(roots) | set(callers) - wrap)
    # helpers that are handed the iterator, and helpers of one file that change a container, are analysed inside their callers as well
    iterarg = {f for f in reach for i in prog.fns[f].calls() if (i.callee() or '').startswith('g_hash_table_iter_') and i.ops[0][0] == 'a'}
    stopped = {f for f in prog.fns if f in pub or f in rec or not eff.of(f)} - taken - wrap - iterarg
    jobs = []
    for f in roots:
        stop = sorted(stopped - {f})
        jobs.append('w:%s %s stop=%s' % (f, f, ','.join(stop)))
    c.load(jobs)
    eff = Effects(c.prog)
    for f in roots:
        try:
            u = unfold(c.flat('w:' + f), 2, 16000)
        except ValueError:
            u = unfold(c.flat('w:' + f), 1, 60000)
        c.sim(u, It(eff), [('F', '_GSList.data'), ('F', '_GSList.next'), ('F', '_GList.data'), ('F', '_GList.next'), ('F', '_preload_markov_t.a'), ('F', '_preload_markov_t.b')], depth=60)
        c.count('functions that walk a container')
    c.count('effect summaries', len(eff.m))
    c.need('functions that walk a container', 12)
    c.need('walks started', 20)
    c.need('modifications judged', 3)
    c.ok('no walk goes on after its container was modified')
    c.assume('different structure members hold different containers; the sequence tree is a tree; the two ends of a chain are different programs')
