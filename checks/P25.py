"""Inductive-bound and identifier analysis of the sequence tree (flattened, unfolded past the depth limit). History: for every old length
0..5 the update leaves the recorded length equal to the list's and at most 5; the other writers of the history keep that. Depth: at
every insertion into a node's children the new node's parent is that node, and its depth, derived from the parent links the path has
followed, is at most 4. A tree that exists is left alone by start-up; seeding requires an empty root. Saved identifiers are successive
values of a 64-bit counter, handed to children as their parent; restoring enters each identifier and each edge once, untruncated."""
from walk import *
from sim import static_key

JOBS = ['upd vomm_update', 'imp vomm_import_node', 'hyd vomm_hydrate_from_state', 'init vomm_init', 'clean vomm_cleanup', 'forget vomm_forget_exe', 'exp vomm_export_state', 'done vomm_import_done', 'run preload_state_run ' + 'stop=vomm_init,vomm_hydrate_from_state,vomm_cleanup,preload_spy_scan,preload_spy_update_model,preload_prophet_predict,preload_state_save']
LIMIT = 5
LIVE = [('F', '_vomm_node_t.parent'), ('F', '_vomm_node_t.exe'), ('F', '_vomm_system_t.history'), ('F', '_vomm_system_t.history_length'), ('F', '_vomm_node_t.count'), ('F', '_vomm_system_t.root'), ('F', '_vomm_system_t.current_context')]
TAGS = None
INS = ('g_hash_table_insert', 'g_hash_table_replace')


class P(Walk):
    def __init__(self, do, calls, **kw):
        self.do = do
        Walk.__init__(self, calls=(lambda n, s=set(calls): n in s), **kw)

    def ret(self, S, i, v):
        self.do(self, S, i, S.auto)


def calls(ev, *names):
    return [e for e in ev if e[0] == 'call' and e[1] in names]


def run(c):
    prog = c.prog
    # members are found by what they are, under the names the program gives them
    node = next((k[:-len('.children')] for k in field_names(prog) if k.endswith('.children')), None)
    if node is None or node + '.parent' not in field_names(prog):
        raise Broken('the node type of the sequence tree is not found')
    system = next((k[:-len('.history_length')] for k in field_names(prog) if k.endswith('.history_length')), None) or next((k[:-len('.history')] for k in field_names(prog) if k.endswith('.history')), None)
    if system is None:
        raise Broken('the history of the sequence model is not found')
    F = lambda s: tag(s)
    CH, PA, CO, EX = [F(node + x) for x in ('.children', '.parent', '.count', '.exe')]
    HI, HL, RO, CU = [F(system + x) for x in ('.history', '.history_length', '.root', '.current_context')]
    live = [('F', node + x) for x in ('.parent', '.exe', '.count')] + [('F', system + x) for x in ('.history', '.history_length', '.root', '.current_context')]

    def ld(t, f):
        t = uncast(t)
        if t.k == 'sl':
            return isfld(t.a[0], f)
        return isload(t, f)

    def simulate(root, cl, K):
        u = unfold(c.flat(root), K, 60000)
        return c.sim(u, cl, live, cap=60000, depth=60)

    # ------------------------------------------------------------------ history
    def hist(S, t, n):
        """(length, base) of list term t when the list at entry has n elements"""
        t = uncast(t)
        if t is ZERO:
            return 0
        if ld(t, HI):
            return n
        if t.k == 'c':
            if t.a[1] in ('g_list_append', 'g_list_insert_sorted', 'g_list_insert'):
                x = hist(S, t.a[2], n)
                return None if x is None else x + 1
            if t.a[1] in ('g_list_delete_link', 'g_list_remove_link'):
                x = hist(S, t.a[2], n)
                if x is None or x == 0:
                    return x
                return x - 1
            if t.a[1] == 'g_malloc':     # a link made in front
                for k, v in S.mem.items():
                    if k.k == 'fld' and k.a[0] is t and k.a[1] == '_GList.next':
                        x = hist(S, v, n)
                        return None if x is None else x + 1
        return None

    def feasible(S, n, f):
        for t, (lo, hi, ne) in S.facts.items():
            try:
                v = evali(t, f)
            except (ValueError, KeyError, TypeError):
                continue
            if v is None:
                continue
            if not lo <= v <= hi or v in ne:
                return False
        return True

    def bound(cl, S, i, ev):
        c.count('update paths')
        h = next((v for k, v in S.mem.items() if isfld(k, HI)), None)
        l = next((v for k, v in S.mem.items() if isfld(k, HL)), None)
        if h is None or ld(h, HI) and l is None:
            return
        for n in range(LIMIT + 1):
            def f(t):
                if ld(t, HL):
                    return n
                if t.k in ('c', 'pure') and 'g_list_length' in t.a[:2]:
                    return hist(S, t.a[2] if t.k == 'c' else t.a[-1], n)
                return None
            if not feasible(S, n, f):
                continue
            # an emptied or absent list has no elements to drop
            if n == 0 and any(ld(t, HI) and S.nonnull(t) for t in S.facts) or n > 0 and any(ld(t, HI) and S.isnull(t) for t in S.facts):
                continue
            m = hist(S, h, n)
            if m is None:
                return cl.bad(S, i, 'history', 'the history is changed in a way whose length cannot be followed')
            if l is not None:
                try:
                    r = evali(l, f)
                except (ValueError, TypeError):
                    r = None
                if r is None or r % 2 ** 32 != m:
                    return cl.bad(S, i, 'history', 'with %d launches on record the recorded length becomes %s, the list has %d' % (n, r, m))
            elif F(system + '.history_length') and HL and any(isfld(k, HL) for k in S.mem) is False and m != n and has_len:
                return cl.bad(S, i, 'history', 'the history changes without its recorded length')
            if m > LIMIT:
                return cl.bad(S, i, 'history', 'the history grows to %d entries' % m)
            c.count('history lengths decided')
    has_len = system + '.history_length' in field_names(prog)

    # ------------------------------------------------------------------ depth
    def depth(S, x, d=0):
        """upper bound of the number of edges between node x and the root on this path"""
        if d > 12:
            return INF
        x = uncast(x)
        if ld(x, RO):
            return 0
        r = next((v for k, v in S.mem.items() if isfld(k, RO)), None)
        if r is not None and r is x:
            return 0
        best = INF
        p = S.mem.get(mk('fld', x, node + '.parent'))
        if p is not None and not (unload(p) is not None and unload(p) is mk('fld', x, node + '.parent')):
            if p is ZERO or S.isnull(p):
                return 0
            return depth(S, p, d + 1) + 1
        if x.k == 'c' and x.a[1] in ('g_hash_table_lookup',):
            t = x.a[2]
            if ld(t, CH):
                best = min(best, depth(S, unload(t).a[0] if unload(t) is not None else uncast(t).a[0].a[0], d + 1) + 1)
        for t, e in owners.items():
            if t is x:
                best = min(best, depth(S, e, d + 1) + 1)
        # parent links followed on the path
        y, n = x, 0
        while n < 12:
            nx = None
            for f in S.facts:
                for z in subterms(f):
                    if ld(z, PA) and unload(z) is not None and (unload(z).a[0] is y):
                        nx = z
            if nx is None:
                break
            if S.isnull(nx):
                best = min(best, n)
                break
            n += 1
            y = nx
            if ld(nx, RO) or S.truth(cmp_term('eq', nx, mk_root(S, nx))) is True:
                best = min(best, n)
                break
        # equal to the root
        for f, (lo, hi, ne) in S.facts.items():
            if f.k == 'cmp' and f.a[0] == 'eq' and lo == hi == 1:
                for u, v in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if u is x and ld(v, RO):
                        best = 0
        return best

    def mk_root(S, like):
        for f in S.facts:
            for z in subterms(f):
                if ld(z, RO):
                    return z
        return like if False else ZERO
    owners = {}

    def inserted(cl, S, i, ev):
        owners.clear()
        for w in hashwalks(ev):
            if ld(w[0], CH) and unload(w[0]) is not None:
                for k, v in w[1]:
                    owners[v] = unload(w[0]).a[0]
        for e in calls(ev, *INS):
            t = e[2][0]
            if not ld(t, CH):
                continue
            x = unload(t).a[0] if unload(t) is not None else uncast(t).a[0].a[0]
            n = e[2][2]
            c.count('insertions into the tree')
            p = S.mem.get(mk('fld', n, node + '.parent'))
            if p is None or not (p is x or same(p, x)):
                cl.bad(S, i, 'depth', 'a node is entered below one node but linked to another')
            d = depth(S, x)
            if d > LIMIT - 1:
                cl.bad(S, i, 'depth', 'a node is entered below a node whose depth %s' % ('can be %d' % d if d < INF else 'is not bounded'))
            ex = S.mem.get(mk('fld', n, node + '.exe'))
            if ex is None or not (isload(e[2][1], 'exe.path', ex) or e[2][1].k == 'c' and any(isload(y, 'exe.path', ex) for y in e[2][1].a[2:] if isinstance(y, Term))):
                cl.bad(S, i, 'ids', 'a node is entered under a name that is not its program\'s')

    # ------------------------------------------------------------------ update
    def upd(cl, S, i, ev):
        bound(cl, S, i, ev)
        inserted(cl, S, i, ev)
        for k, v in S.mem.items():
            if isfld(k, RO) and not ld(v, RO):
                cl.bad(S, i, 'kept', 'recording a launch replaces the tree')
    simulate('upd', P(upd, INS), LIMIT + 1)
    c.need('insertions into the tree', 1)
    c.need('history lengths decided', 6)
    c.ok('update: history at most five, tree at most five levels')

    # ------------------------------------------------------------------ restoring
    def imp(cl, S, i, ev):
        inserted(cl, S, i, ev)
        idv, exe, cnt, par = [mk('arg', n, cl.sim.fn.args[n][0]) for n in range(4)]
        tab = lambda e: isglob_load(e[2][0])
        put = [e for e in calls(ev, *INS) if not ld(e[2][0], CH)]
        tree = [e for e in calls(ev, *INS) if ld(e[2][0], CH)]
        look = calls(ev, 'g_hash_table_lookup', 'g_hash_table_lookup_extended', 'g_hash_table_contains')
        for e in put + look:
            for z in subterms(e[2][1]):
                if z.k == 'cast' and z.a[0] == 'trunc' or z.k == 'op' and z.a[0] in ('and', 'lshr', 'ashr', 'shl'):
                    if any(y is idv or y is par for y in subterms(z)):
                        cl.bad(S, i, 'ids', 'an identifier is cut short')
        if not tree:
            return
        c.count('nodes restored')
        n = tree[0][2][2]
        mine = [e for e in put if uncast(e[2][1]) is idv]
        if len(tree) != 1 or len(mine) != 1 or mine[0][2][2] is not n:
            cl.bad(S, i, 'ids', 'a restored node is not remembered under its identifier exactly once')
        parent = tree[0][2][0]
        pl = [e for e in look if uncast(e[2][1]) is par and not ld(e[2][0], CH)]
        px = unload(parent).a[0] if unload(parent) is not None else None
        if not pl or px is not None and uncast(px) is not pl[-1][3]:
            cl.bad(S, i, 'ids', 'a restored node is not entered below the node its parent identifier names')
        free = [e for e in look if uncast(e[2][1]) is idv and not ld(e[2][0], CH) and (e[4] == 'absent' or S.isnull(e[3]))]
        if not free:
            cl.bad(S, i, 'ids', 'a restored node can take the identifier of another one')
        edge = [e for e in look if ld(e[2][0], CH) and same(e[2][0], parent) and isload(e[2][1], 'exe.path', exe) and (e[4] == 'absent' or S.isnull(e[3]))]
        if not edge:
            cl.bad(S, i, 'ids', 'a restored node can replace one that is still referred to')
        ex, co = S.mem.get(mk('fld', n, node + '.exe')), S.mem.get(mk('fld', n, node + '.count'))
        if ex is not exe or co is not cnt:
            cl.bad(S, i, 'kept', 'a restored node does not get its program or its count')
        zero = [e for e in put if uncast(e[2][1]) is ZERO or e[2][1] is ZERO]
        for e in zero:
            if not ld(e[2][2], RO) and not any(isfld(k, RO) and v is e[2][2] for k, v in S.mem.items()):
                cl.bad(S, i, 'ids', 'identifier 0 does not stand for the root')
        new = [e for e in ev if e[0] == 'call' and e[1] in ('g_hash_table_new', 'g_hash_table_new_full') and any(e[3] is x[2][0] for x in put)]
        if new and not zero:
            cl.bad(S, i, 'ids', 'identifier 0 does not stand for the root')
        for e in new:
            for a in e[2][:2]:
                if a.k == 'fn' and a.a[0] not in ('g_direct_hash', 'g_direct_equal', 'g_int64_hash', 'g_int64_equal'):
                    cl.bad(S, i, 'ids', 'identifiers are compared by %s' % a.a[0])

    def isglob_load(t):
        return unload(t) is not None
    simulate('imp', P(imp, INS + ('g_hash_table_lookup', 'g_hash_table_lookup_extended', 'g_hash_table_contains', 'g_hash_table_new', 'g_hash_table_new_full')), LIMIT + 1)
    c.need('nodes restored')
    c.ok('restoring: depth bounded, identifiers and edges unique and untruncated')

    # ------------------------------------------------------------------ seeding
    def hyd(cl, S, i, ev):
        inserted(cl, S, i, ev)
        ch = calls(ev, *INS) + [e for e in ev if e[0] == 'store' and e[1] == CO]
        c.count('seeding paths')
        if not ch:
            return
        n = ev.index(ch[0])
        sizes = [t for t in S.facts if uncast(t).k in ('c', 'pure') and 'g_hash_table_size' in uncast(t).a[:2]]
        okk = False
        for t in S.facts:
            for z in subterms(t):
                if z.k == 'c' and z.a[1] == 'g_hash_table_size' and ld(z.a[2], CH) and depth(S, unload(z.a[2]).a[0] if unload(z.a[2]) is not None else uncast(z.a[2]).a[0].a[0]) == 0 and S.rng(z)[1] <= 0:
                    okk = True
        for w in hashwalks(ev):
            if ld(w[0], CH) and w[2] and not w[1] and w[4] < n:
                okk = True
        if not okk:
            cl.bad(S, i, 'seed', 'the tree is seeded from the chains although it may hold launches already')
        c.count('seeded paths')
    simulate('hyd', P(hyd, INS, stores=(CO,)), 1)
    c.need('seeded paths')
    c.ok('seeding only into an empty tree, two levels deep')

    # ------------------------------------------------------------------ start-up
    def init(cl, S, i, ev):
        root = [e for e in ev if e[0] == 'store' and e[1] in (RO, HI, HL, CU)]
        had = any(ld(t, RO) and S.nonnull(t) for f in S.facts for t in subterms(f))
        had0 = any(ld(t, RO) and S.isnull(t) for f in S.facts for t in subterms(f))
        c.count('start-up paths')
        if root and not had0:
            cl.bad(S, i, 'kept', 'start-up replaces a tree that was loaded from the state file')
        if root:
            h = [e for e in root if e[1] == HI]
            l = [e for e in root if e[1] == HL]
            if has_len and (bool(h) != bool(l) or l and l[-1][2] is not ZERO) or h and h[-1][2] is not ZERO:
                cl.bad(S, i, 'history', 'a new tree does not start with an empty history')
    simulate('init', P(init, (), stores=(RO, HI, HL, CU)), 1)
    c.need('start-up paths', 2)

    def clean(cl, S, i, ev):
        g = lambda f: [e for e in ev if e[0] == 'store' and e[1] == f]
        h, l = g(HI), g(HL)
        if has_len and (bool(h) != bool(l) or h and (h[-1][2] is not ZERO or l[-1][2] is not ZERO)):
            cl.bad(S, i, 'history', 'the history and its recorded length are not reset together')
    simulate('clean', P(clean, (), stores=(HI, HL)), 1)

    def forget(cl, S, i, ev):
        h = next((v for k, v in S.mem.items() if isfld(k, HI)), None)
        l = next((v for k, v in S.mem.items() if isfld(k, HL)), None)
        if h is None or ld(h, HI):
            return
        c.count('removals from the history')
        okk = l is not None and l.k == 'c' and l.a[1] == 'g_list_length' and uncast(l.a[2]) is h or not has_len
        if not okk and l is not None:
            # one removal, one less
            n = 0
            t = h
            while t.k == 'c' and t.a[1] in ('g_list_delete_link', 'g_list_remove_link'):
                n += 1
                t = t.a[2]
            try:
                okk = ld(t, HI) and all(evali(l, lambda x: k if ld(x, HL) else None) == k - n for k in range(n, 6))
            except ValueError:
                okk = False
        if not okk:
            cl.bad(S, i, 'history', 'removing a program leaves the recorded length different from the list\'s')
    simulate('forget', P(forget, ()), 2)
    c.need('removals from the history')
    c.ok('the recorded history length stays the list\'s')

    # the tree is only torn down by the teardown, and start-up comes after loading
    cg = {}
    for f in prog.fns.values():
        for i in f.calls('vomm_cleanup'):
            cg.setdefault(f.name, i)
    for f, i in cg.items():
        if 'preload_state_run' in prog.reachable(['main']) and f in prog.reachable(['preload_state_run', 'preload_state_load']):
            c.bad('kept', i.where(), 'the tree is discarded while the daemon starts or runs')

    class Run(Client):
        def init(self):
            return ('', )

        def call(self, S, i, name, args, ret, label):
            if name == 'vomm_hydrate_from_state':
                c.count('seedings requested')
                if 'init' not in S.auto:
                    self.bad(S, i, 'seed', 'the tree is seeded before it is initialised')
            if name == 'vomm_init':
                S.auto = S.auto + ('init',)
    c.sim('run', Run())
    c.need('seedings requested')

    # nothing else touches the history, the links or the tree
    judged = set()
    for r in ('upd', 'imp', 'hyd', 'init', 'clean', 'forget'):
        judged |= {i.where() for i in c.flat(r).instrs()}
    keys = {('F', node + '.parent'): 'the parent link of a node', ('F', system + '.history'): 'the history', ('F', system + '.history_length'): 'the recorded history length', ('F', system + '.root'): 'the tree'}
    reach = {f for f in prog.reachable(['main']) if f in prog.fns}
    for f in sorted(reach):
        fn = prog.fns[f]
        for i in fn.instrs():
            if i.op == 'store' and static_key(prog, fn, i.ops[1]) in keys:
                c.count('stores to the model')
                if i.where() not in judged:
                    c.bad('elsewhere', i.where(), '%s is changed outside the operations analysed' % keys[static_key(prog, fn, i.ops[1])])
            elif i.op == 'call' and i.callee() in INS and i.where() not in judged:
                from P21 import origin
                if ('F', node + '.children') in origin(prog, fn, i.ops[0]):
                    c.bad('elsewhere', i.where(), 'a node is entered outside the operations analysed')
    c.need('stores to the model', 5)

    # ------------------------------------------------------------------ saving
    exp = c.flat('exp')
    rec = sorted({i.callee() for i in exp.calls() if i.callee() in prog.fns})
    if not rec:
        raise Broken('the sequence tree is not saved by a recursive walk')
    rec = [f for f in rec if f in prog.reachable(prog.callgraph()[f])]
    if len(rec) != 1:
        raise Broken('the recursive walk that saves the sequence tree is not found')
    c.load(['node %s %s' % (rec[0], 'stop=' + rec[0]), 'start vomm_export_state stop=' + rec[0]])
    ctr = {}

    def saved(cl, S, i, ev):
        fn = cl.sim.fn
        args = [mk('arg', n, a[0]) for n, a in enumerate(fn.args)]
        nod = args[0]
        if S.isnull(nod):
            return
        w = [e for e in ev if e[0] == 'call' and e[1].startswith('*')]
        r = calls(ev, rec[0])
        st = [e for e in ev if e[0] == 'store' and isinstance(e[3], Term) and e[3].k == 'g']
        isroot = None
        for f, (lo, hi, ne) in S.facts.items():
            if f.k == 'cmp' and f.a[0] == 'eq' and lo == hi and any(u is nod and ld(v, RO) for u, v in ((f.a[1], f.a[2]), (f.a[2], f.a[1]))):
                isroot = bool(lo)
        noexe = any(ld(t, EX) and unload(t).a[0] is nod and S.isnull(t) for t in S.facts)
        c.count('saving paths')
        cid = None
        if w:
            if len(w) != 1:
                return cl.bad(S, i, 'ids', 'a node is saved %d times' % len(w))
            a = [uncast(x) if not (x.k == 'cast' and x.a[0] == 'trunc') else x for x in w[0][2]]
            cid = a[0]
            if not (isload(a[1], 'exe.seq') and ld(unload(a[1]).a[0], EX) and ld(a[2], CO) and unload(a[2]).a[0] is nod and unload(unload(a[1]).a[0]).a[0] is nod):
                cl.bad(S, i, 'ids', 'a node is saved without its program\'s number or its own count')
            if a[3] not in args[1:]:
                cl.bad(S, i, 'ids', 'a node is not saved below the identifier it was handed')
            else:
                ctr.setdefault('parent', set()).add(a[3].a[0])
            # the identifier is the counter, one further
            old = [x for x in subterms(cid) if x.k == 'ld' and x.a[1].k == 'g' or x.k == 'sl' and x.a[0].k == 'g']
            g = old and (old[0].a[1] if old[0].k == 'ld' else old[0].a[0])
            okk = False
            if old:
                fin = [e[2] for e in st if e[3] is g]
                try:
                    vals = [evali(w[0][2][0], lambda t: n if t is old[0] else None) - n for n in (0, 3, 2 ** 33)]
                    nxt = [evali(fin[-1], lambda t: n if t is old[0] else None) - n for n in (0, 3, 2 ** 33)] if fin else []
                    okk = len(set(vals)) == 1 and vals[0] == 1 and len(set(nxt)) == 1 and nxt and nxt[0] == 1
                except ValueError:
                    okk = False
            if not okk:
                cl.bad(S, i, 'ids', 'the identifier of a saved node is not a fresh value of a counter')
            else:
                ctr.setdefault('g', set()).add(g)
                c.count('nodes saved')
            if isroot is not False:
                cl.bad(S, i, 'ids', 'the root is saved as a node')
        elif isroot is False and not noexe:
            cl.bad(S, i, 'kept', 'a node of the tree is not saved')
        kids = []
        for x in hashwalks(ev):
            if ld(x[0], CH) and unload(x[0]).a[0] is nod:
                kids += [v for k, v in x[1]]
                if not x[2]:
                    cl.bad(S, i, 'kept', 'not every node below a node is saved')
                if w and ev.index(w[0]) > x[3]:
                    cl.bad(S, i, 'ids', 'a node is saved after the nodes below it')
        if not any(ld(x[0], CH) for x in hashwalks(ev)) and not any(ld(t, CH) and S.isnull(t) for t in S.facts):
            cl.bad(S, i, 'kept', 'the nodes below a node are not saved')
        for k in kids:
            m = [e for e in r if e[2][0] is k]
            if len(m) != 1:
                cl.bad(S, i, 'kept', 'a node below is saved %d times' % len(m))
                continue
            pn = ctr.get('parent', {1})
            for p in pn:
                h = uncast(m[0][2][p])
                if isroot is True and h is not ZERO and m[0][2][p] is not ZERO or w and (m[0][2][p].k == 'cast' and m[0][2][p].a[0] == 'trunc' or h is not cid):
                    cl.bad(S, i, 'ids', 'nodes below are not handed the identifier of their parent')
    cl = P(saved, (), stores=())
    cl.calls = lambda n: n.startswith('*') or n == rec[0]
    cl.stores = {g for g in prog.globals}
    c.sim(unfold(c.flat('node'), 2), cl, live, cap=60000, depth=60)
    c.need('nodes saved')
    for k in ctr.get('g', ()):
        # 64 bits, restarted only when a new save starts
        ty = prog.globals.get(k.a[0], {}).get('ty')
        if ty not in ('i64', ['int', 64]) and str(ty) != 'i64':
            c.bad('ids', k.a[0], 'the counter of identifiers has type %s' % (ty,))
        for f in sorted(reach):
            fn = prog.fns[f]
            for i in fn.instrs():
                if i.op == 'store' and i.ops[1] == ['g', k.a[0]] and i.where() not in {x.where() for x in c.flat('node').instrs()}:
                    if i.where() not in {x.where() for x in c.flat('start').instrs()} or i.ops[0][0] != 'i':
                        c.bad('ids', i.where(), 'the counter of identifiers is changed during a save')
    fl = c.flat('start')

    class Start(Client):
        def pre_call(self, S, i, name, args, label):
            if name == rec[0]:
                c.count('saves started')
                if not ld(args[0], RO):
                    self.bad(S, i, 'kept', 'the tree is not saved from its root')
                for g in ctr.get('g', ()):
                    v = S.mem.get(g)
                    if v is None or v.k != 'i' or v.a[0] < 0:
                        self.bad(S, i, 'ids', 'a save starts with an unknown identifier')
    c.sim('start', Start(), [('G', g.a[0]) for g in ctr.get('g', ())])
    c.need('saves started')
    c.load(JOBS)
    c.ok('saving: every node once, after its parent, under a fresh 64-bit identifier')


def field_names(prog):
    if not hasattr(prog, '_fnames'):
        prog._fnames = {prog.field(s, n) for s, d in prog.structs.items() for n in range(len(d['f']))}
    return prog._fnames
