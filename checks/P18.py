"""Reference-holder enumeration and release typestate. Holders: every persistent field, global and container of the program that pointers
to executables, chains and sequence-tree nodes are put into is enumerated by a flow-insensitive type inference over the program reachable
from main. Removal (flattened, unfolded): before the memory of an executable is released each of those holders has provably dropped it -
lists by removing every occurrence, the sequence tree by a complete recursive removal, the current context by leaving a removed branch,
partners by removing the chain - and nothing is read or written through it, or through what it owned, afterwards, in the removal, in its
callers and in the teardown. Executables are released only by the removal, by their index, or before they were ever registered."""
from walk import *
from sim import static_key
from P21 import origin, MODS, NEWTAB, Effects

EXE, MAR = 'struct._preload_exe_t', 'struct._preload_markov_t'
FREE, UNREG = 'preload_exe_free', 'preload_state_unregister_exe'
JOBS = ['u %s stop=%s' % (UNREG, FREE), 'f %s' % FREE, 'mk preload_markov_free', 'sf preload_state_free stop=vomm_cleanup']
REMALL = ('g_slist_remove_all', 'g_list_remove_all')
INSERT = {'g_hash_table_insert': (1, 2), 'g_hash_table_replace': (1, 2), 'g_hash_table_add': (1,)}
for _p in ('g_slist_', 'g_list_'):
    INSERT.update({_p + k: (1,) for k in ('append', 'prepend', 'insert', 'insert_sorted', 'push_allocated')})
    INSERT[_p + 'insert_before'] = (2,)
INSERT.update({'g_ptr_array_add': (1,), 'g_ptr_array_insert': (2,), 'g_queue_push_tail': (1,), 'g_queue_push_head': (1,), 'g_array_append_vals': (1,), 'g_hash_table_insert_int': (1,)})


def holders(prog, struct):
    """fields, globals and containers that values used as pointers to `struct` are put into: {key: (kind, where)}"""
    reach = [f for f in sorted(prog.reachable(['main'])) if f in prog.fns]
    vals, held, rets, out = set(), set(), set(), {}
    skip = ('_GList', '_GSList')
    ch = True
    while ch:
        n0 = len(vals) + len(held) + len(rets)
        for f in reach:
            fn = prog.fns[f]
            key = lambda o: (f,) + tuple(o[:2]) if o[0] in ('v', 'a') else None
            for i in fn.instrs():
                me = (f, 'v', i.id)
                if i.op == 'fld' and i.x[0] == struct and key(i.ops[0]):
                    vals.add(key(i.ops[0]))
                elif i.op in ('phi', 'select', 'cast'):
                    os = i.ops[1:] if i.op == 'select' else i.ops
                    if me in vals:
                        vals |= {key(o) for o in os} - {None}
                    elif any(key(o) and key(o) in vals for o in os):
                        vals.add(me)
                elif i.op in ('load', 'store'):
                    k = static_key(prog, fn, i.ops[0 if i.op == 'load' else 1])
                    if k[0] not in ('F', 'G') or k[1].startswith(skip):
                        continue
                    v = me if i.op == 'load' else key(i.ops[0])
                    if v is None:
                        continue
                    if v in vals:
                        held.add(k)
                        if i.op == 'store':
                            out.setdefault(k, ('pointer', i.where()))
                    elif k in held:
                        vals.add(v)
                        if i.op == 'store' and i.ops[0][0] != 'n':
                            out.setdefault(k, ('pointer', i.where()))
                elif i.op == 'ret' and i.ops and key(i.ops[0]) and key(i.ops[0]) in vals:
                    rets.add(f)
                elif i.op == 'call':
                    g = i.callee()
                    if g in rets:
                        vals.add(me)
                    for n, o in enumerate(i.ops):
                        if not key(o):
                            continue
                        if g in prog.fns and (g, 'a', n) in vals:
                            vals.add(key(o))
                        if n in INSERT.get(g, ()) and key(o) in vals:
                            for k in origin(prog, fn, i.ops[0]):
                                out.setdefault(k, ('container', i.where()))
        vals.discard(None)
        ch = len(vals) + len(held) + len(rets) != n0
    return out


def transient(prog, st, d=0):
    """is every object of this struct type a local variable?"""
    seen = False
    for fn in prog.fns.values():
        for i in fn.instrs():
            if i.op == 'fld' and i.x[0].split('.', 1)[-1] == st:
                o = i.ops[0]
                for _ in range(20):
                    if o[0] != 'v':
                        break
                    j = fn.ins[o[1]]
                    if j.op in ('cast', 'gep'):
                        o = j.ops[0]
                        continue
                    break
                if o[0] == 'g' or o[0] == 'v' and fn.ins[o[1]].op in ('call', 'load', 'fld', 'phi'):
                    return False
                seen = True
    return seen


class U(Walk):
    def __init__(self, do, live, **kw):
        self.do = do
        Walk.__init__(self, calls=lambda n: n not in api.PURE and n not in ('g_log',) or n in REMALL, **kw)

    def ret(self, S, i, v):
        self.do(self, S, i, S.auto)


def run(c):
    prog = c.prog
    sysf = next((k.rsplit('.', 1)[0] for k in names(prog) if k.endswith('.current_context')), None)
    node = next((k.rsplit('.', 1)[0] for k in names(prog) if k.endswith('.children')), None)
    H = holders(prog, EXE)
    H.update({k: v for k, v in holders(prog, MAR).items() if k not in H})
    if node:
        H.update({k: v for k, v in holders(prog, 'struct.' + node).items() if k not in H})
    lists, ptrs, index, per = [], [], [], []
    fu = c.flat('u')
    eff = Effects(prog)
    readonly = prog.reachable(['preload_state_read_file'])
    for k, (kind, where) in sorted(H.items()):
        if k[0] not in ('F', 'G'):
            continue
        st = k[1].rsplit('.', 1)[0]
        c.count('holders of references')
        if k[0] == 'F' and transient(prog, st):
            c.count('transient holders')
            continue
        if k == ('F', '_preload_state_t.exes'):
            index.append(k)
        elif k[1] in ('_preload_exe_t.markovs', '_preload_markov_t.a', '_preload_markov_t.b') or node and k[1] in (node + '.exe', node + '.children', node + '.parent') or sysf and k[1] in (sysf + '.root', sysf + '.current_context'):
            per.append(k)
        elif kind == 'container' and any(f in readonly for f in [f for f in prog.fns if any(i.where() == where for i in prog.fns[f].instrs())]) and released(prog, k):
            c.count('transient holders')
        elif kind == 'container':
            lists.append((k, where))
        else:
            ptrs.append((k, where))
    if not index:
        raise Broken('the index of executables is not found')
    c.need('holders of references', 8)
    tracked = [k for k, w in lists] + [k for k, w in ptrs]
    live = tracked + [('F', sysf + '.current_context'), ('F', sysf + '.root')] if sysf else tracked
    target = mk('arg', 0, fu.args[0][0])

    def ld(t, name):
        t = uncast(t)
        if t.k == 'sl':
            return isfld(t.a[0], tag(name))
        return isload(t, tag(name))

    def gone(S, v, ev, k):
        """list value v contains the target no more"""
        while v.k == 'c' and v.a[1] in REMALL + ('g_slist_reverse', 'g_list_reverse') or v.k == 'cast':
            if v.k == 'c' and v.a[1] in REMALL and uncast(v.a[3]) is target:
                return True
            v = uncast(v.a[2]) if v.k == 'c' else v.a[3]
        if v is ZERO or S.isnull(v):
            return True
        return walked(S, v, ev)

    def walked(S, v, ev):
        """the list was gone through to its end, and each node whose data is the target was taken out"""
        out, w = [], v
        while w.k == 'c' and w.a[1] in ('g_slist_delete_link', 'g_list_delete_link', 'g_slist_remove_link', 'g_list_remove_link', 'g_slist_remove', 'g_list_remove'):
            out.append(uncast(w.a[3]))
            w = uncast(w.a[2])
        n = w
        for _ in range(8):
            if S.isnull(n):
                return True
            d = [e[2] for e in ev if e[0] == 'node' and e[1] is n]
            if not d:
                return False
            eq = d[0] is target or S.truth(cmp_term('eq', d[0], target))
            if eq is None or eq and n not in out and d[0] not in out and target not in out:
                return False
            nx = [x for kk, x in S.mem.items() if kk.k == 'fld' and kk.a[0] is n and kk.a[1] in ('_GSList.next', '_GList.next')]
            nx = nx or [x for f in S.facts for x in subterms(f) if x.k == 'ld' and x.a[1].k == 'fld' and x.a[1].a[0] is n and x.a[1].a[1] in ('_GSList.next', '_GList.next')]
            if not nx:
                return False
            n = nx[0]
        return False

    def value(S, k):
        v = [v for kk, v in S.mem.items() if key_of(kk) == k]
        if v:
            return v[0]
        w = [x for f in S.facts for x in subterms(f) if unload(x) is not None and key_of(unload(x)) == k]
        return w[0] if w else None

    def rootless(S):
        return sysf and any(ld(x, sysf + '.root') and S.isnull(x) for f in S.facts for x in subterms(f))
    rec = recursive(prog, c.flat('u'), node)

    def removed_children(cl, S, i, ev, walks, exe, who):
        """a children table is gone through completely, with the target's nodes taken out and the others searched"""
        for w in walks:
            if not w[2]:
                cl.bad(S, i, 'tree', 'not every node below %s is looked at' % who)
            seq = ev[w[3]:w[4] + 1]
            for k, v in w[1]:
                p = next(n for n, e in enumerate(seq) if e[0] == 'next' and e[3] is v)
                nx = next((n for n, e in enumerate(seq) if n > p and e[0] in ('next', 'end') and e[1] is seq[p][1]), len(seq))
                part = seq[p:nx]
                rm = [e for e in part if e[0] == 'call' and e[1] == 'g_hash_table_iter_remove']
                rc = [e for e in part if e[0] == 'call' and e[1] in rec and any(a is v for a in e[2])]
                isit = None
                for f, (lo, hi, ne) in S.facts.items():
                    if f.k == 'cmp' and f.a[0] == 'eq' and lo == hi:
                        for a, b in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                            if isload(a, tag(node + '.exe'), v) and b is exe:
                                isit = bool(lo)
                if rm:
                    continue
                if isit is not False:
                    cl.bad(S, i, 'tree', 'a node of a removed executable stays in the sequence tree')
                elif not rc or not any(exe in e[2] for e in rc):
                    # leaves need no search: no children
                    if not any(isload(x, tag(node + '.children'), v) and S.isnull(x) for f in S.facts for x in subterms(f)):
                        cl.bad(S, i, 'tree', 'the nodes below a node that stays are not searched for a removed executable')
                c.count('tree nodes judged')

    def unreg(cl, S, i, ev):
        idx = [n for n, e in enumerate(ev) if e[0] == 'call' and (e[1] == FREE and e[2][0] is target)]
        rem = [n for n, e in enumerate(ev) if e[0] == 'call' and e[1].startswith('g_hash_table_') and ('steal' in e[1] or 'remove' in e[1]) and e[1] != 'g_hash_table_iter_remove' and ld(e[2][0], '_preload_state_t.exes')]
        own = [n for n in rem if 'steal' not in ev[n][1] and FREE in eff.destroy.get(index[0], ())]
        rel = idx + own
        if any(e[0] == 'call' and 'return_if_fail' in e[1] for e in ev) and not rel and not rem:
            return
        if not rel:
            if rem:
                cl.bad(S, i, 'index', 'an executable is taken out of the index but lives on')
            return
        c.count('removals analysed')
        at = rel[0]
        if not rem or rem[0] > at:
            cl.bad(S, i, 'index', 'an executable is released while the index refers to it')
        if len(rel) > 1:
            cl.bad(S, i, 'released', 'an executable is released twice')
        for n in rem:
            k = ev[n][2][1]
            if not isload(k, 'exe.path', target):
                cl.bad(S, i, 'index', 'the entry removed from the index is not the executable\'s')
        before = ev[:at]
        for k, where in lists:
            v = value(S, k)
            if v is None:
                if rootless(S) and sysf and k[1].startswith(sysf):
                    continue
                cl.bad(S, i, 'list', '%s still refers to a removed executable (it is put there at %s)' % (k[1].split('.')[-1], where))
            elif not gone(S, v, ev, k):
                if rootless(S) and sysf and k[1].startswith(sysf):
                    continue
                cl.bad(S, i, 'list', '%s may still refer to a removed executable (it is put there at %s)' % (k[1].split('.')[-1], where))
            else:
                c.count('list removals proved')
        late = [e for n, e in enumerate(ev) if n > at and e[0] == 'call' and (e[1] in REMALL or e[1] in MODS) and any(uncast(a) is target for a in e[2] if isinstance(a, Term))]
        if late:
            cl.bad(S, i, 'order', '%s is searched after the executable was released' % 'a list')
        for k, where in ptrs:
            v = value(S, k)
            if v is None or v is target or not (v is ZERO or S.truth(cmp_term('eq', v, target)) is False or S.isnull(v)):
                cl.bad(S, i, 'pointer', '%s still refers to a removed executable (it is put there at %s)' % (k[1].split('.')[-1], where))
        if not node or rootless(S):
            return
        # the sequence tree
        ws = [w for w in hashwalks(ev) if ld(w[0], node + '.children')]
        ws0 = [w for w in ws if ld(unload(w[0]).a[0], sysf + '.root')]
        viarec = [e for e in ev if e[0] == 'call' and e[1] in rec and any(ld(a, sysf + '.root') for a in e[2]) and target in e[2]]
        if not ws0 and not viarec:
            cl.bad(S, i, 'tree', 'the sequence tree is not searched for a removed executable')
        if any(w[4] > at for w in ws):
            cl.bad(S, i, 'order', 'the sequence tree is searched after the executable was released')
        removed_children(cl, S, i, before, [w for w in hashwalks(before) if ld(w[0], node + '.children')], target, 'the root')
        # the context
        cc = value(S, ('F', sysf + '.current_context'))
        if cc is None:
            return cl.bad(S, i, 'context', 'the current context is not looked at')
        if ld(cc, sysf + '.root') or cc is ZERO or S.isnull(cc):
            c.count('contexts judged')
            return
        x = cc
        for _ in range(10):
            if S.isnull(x) or S.truth(cmp_term('eq', x, rootterm(S, sysf, ld))) is True:
                c.count('contexts judged')
                return
            isit = None
            for f, (lo, hi, ne) in S.facts.items():
                if f.k == 'cmp' and f.a[0] == 'eq' and lo == hi:
                    for a, b in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                        if isload(a, tag(node + '.exe'), x) and b is target:
                            isit = bool(lo)
            if isit is not False:
                return cl.bad(S, i, 'context', 'the current context may lie below a node that is removed')
            nx = [y for f in S.facts for y in subterms(f) if isload(y, tag(node + '.parent'), x)]
            if not nx:
                return cl.bad(S, i, 'context', 'not every node above the current context is looked at')
            x = nx[0]
    up = {}
    for h, body, _ in fu.loops():
        if any(i.op == 'load' and node and static_key(prog, fu, i.ops[0]) == ('F', node + '.parent') for b in body for i in fu.blocks[b]):
            up[h] = 6
    c.sim(unfold(fu, 2, 60000, loopk=up), U(unreg, live), live, cap=60000, depth=60)
    c.need('removals analysed', 2)
    c.need('list removals proved', 4)
    c.need('contexts judged')
    c.ok('every holder drops an executable before it is released')

    # ------------------------------------------------------------------ the recursion
    if rec:
        c.load(JOBS + ['r:%s %s stop=%s' % (r, r, r) for r in rec])
        for r in rec:
            fr = c.flat('r:' + r)

            def search(cl, S, i, ev):
                args = [mk('arg', n, a[0]) for n, a in enumerate(fr.args)]
                ws = [w for w in hashwalks(ev) if ld(w[0], node + '.children')]
                c.count('searches of the tree')
                if not ws and not any(S.isnull(a) for a in args) and not any(isload(x, tag(node + '.children')) and S.isnull(x) for f in S.facts for x in subterms(f)):
                    return cl.bad(S, i, 'tree', 'the nodes below a node are not searched')
                for w in ws:
                    if unload(w[0]).a[0] not in args:
                        cl.bad(S, i, 'tree', 'the search does not look below the node it was given')
                exe = [a for a in args if any(f.k == 'cmp' and a in f.a and any(isload(b, tag(node + '.exe')) for b in f.a[1:]) for f in S.facts)]
                if any(w[1] for w in ws):
                    removed_children(cl, S, i, ev, ws, exe[0] if exe else None, 'a node')
            c.sim(unfold(fr, 3), U(search, live), live, cap=60000, depth=60)
        c.need('searches of the tree', 2)
    c.need('tree nodes judged', 2)
    c.ok('the sequence tree is searched completely')

    # ------------------------------------------------------------------ chains
    def judge(cl, S, i, ev, m, owner, n):
        """chain m is released at event n; owner: the executable that takes care of its own list, or None"""
        rm = [e for e in ev[:n] if e[0] == 'call' and e[1] in ('g_ptr_array_remove', 'g_ptr_array_remove_fast') and uncast(e[2][1]) is m]
        ends = []
        for e in rm:
            l = unload(e[2][0])
            if l is not None and isfld(l, 'exe.markovs'):
                ends.append(l.a[0])
        a = [x for x in ends if isload(x, 'markov.a', m)]
        b = [x for x in ends if isload(x, 'markov.b', m)]
        isa = isb = None
        for f, (lo, hi, ne) in S.facts.items():
            if f.k == 'cmp' and f.a[0] == 'eq' and lo == hi and owner is not None:
                for u, v in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if v is owner and isload(u, 'markov.a', m):
                        isa = bool(lo)
                    if v is owner and isload(u, 'markov.b', m):
                        isb = bool(lo)
        c.count('chain releases judged')
        if owner is None:
            if not a or not b:
                cl.bad(S, i, 'chain', 'a chain is released while %s still lists it' % ('its programs' if not a and not b else 'one of its programs'))
        elif not (a and b) and not (a and (isb or isa is False)) and not (b and (isa or isb is False)):
            cl.bad(S, i, 'chain', 'a chain is released while the partner still lists it')

    def frees(ev):
        return [(n, e) for n, e in enumerate(ev) if e[0] == 'call' and e[1] in ('g_free', 'free', 'g_slice_free1')]

    def exefree(cl, S, i, ev):
        t = mk('arg', 0, cl.sim.fn.args[0][0])
        fr = [n for n, e in frees(ev) if uncast(e[2][-1]) is t]
        if not fr:
            return
        c.count('executables released')
        if len(fr) > 1:
            cl.bad(S, i, 'released', 'the memory of an executable is released twice')
        arr = None
        for A, (els, comp) in arrwalks(S, ev).items():
            l = unload(A)
            if l is not None and isfld(l, 'exe.markovs', t):
                arr = A
                if not comp:
                    cl.bad(S, i, 'chain', 'not every chain of a removed executable is released')
                for n, m in els.items():
                    f = [x for x, e in frees(ev) if uncast(e[2][-1]) is m]
                    if len(f) != 1 or f[0] > fr[0]:
                        cl.bad(S, i, 'chain', 'a chain of a removed executable is released %d times' % len(f))
                    else:
                        judge(cl, S, i, ev, m, t, f[0])
        null = any(isload(x, 'exe.markovs', t) and S.isnull(x) for f in S.facts for x in subterms(f))
        empty = any(unload(x) is not None and unload(x).k == 'fld' and unload(x).a[1] == '_GPtrArray.len' and isload(unload(x).a[0], 'exe.markovs', t) and S.rng(x)[1] <= 0 for f in S.facts for x in subterms(f))
        if arr is None and not null and not empty:
            cl.bad(S, i, 'chain', 'the chains of a removed executable stay with its partners')
    ff = c.flat('f')
    own = {}
    for h, body, _ in ff.loops():
        if not any(i.op == 'load' and static_key(prog, ff, i.ops[0]) in (('F', '_preload_markov_t.a'), ('F', '_preload_markov_t.b')) for b in body for i in ff.blocks[b]):
            own[h] = 1
    c.sim(unfold(ff, 2, 60000, loopk=own), U(exefree, live), live, cap=60000, depth=60)
    c.need('executables released')

    def mkfree(cl, S, i, ev):
        m, owner = [mk('arg', n, a[0]) for n, a in enumerate(cl.sim.fn.args)][:2]
        for n, e in frees(ev):
            if uncast(e[2][-1]) is m:
                judge(cl, S, i, ev, m, None if S.isnull(owner) else owner, n)
    c.sim(unfold(c.flat('mk'), 1), U(mkfree, live), live, cap=60000, depth=60)
    c.need('chain releases judged', 4)
    c.ok('chains leave the partner before they are released')

    # ------------------------------------------------------------------ nothing is used after the release
    consumers = {UNREG: 0, FREE: 0}
    ch = True
    while ch:
        ch = False
        for fn in prog.fns.values():
            for i in fn.calls(*list(consumers)):
                o = i.ops[consumers[i.callee()]]
                if o[0] == 'a' and fn.name not in consumers:
                    consumers[fn.name] = o[1]
                    ch = True
    reach = {f for f in prog.reachable(['main']) if f in prog.fns}
    jobs = []
    tables = set()
    for f in sorted(reach):
        for i in prog.fns[f].calls():
            n = i.callee()
            if n in NEWTAB:
                if any(o == ['fn', FREE] for o in i.ops):
                    tables.add((f, i.where(), i.id))
            elif n in consumers and f != UNREG or any(o[0] == 'fn' and o[1] in consumers for o in i.ops):
                jobs.append(f)
    # the index is the only owner
    for f, where, vid in tables:
        fn = prog.fns[f]
        to = {static_key(prog, fn, s.ops[1]) for s in fn.instrs() if s.op == 'store' and s.ops[0] == ['v', vid]}
        if to - set(index):
            c.bad('owner', where, 'a container besides the index releases executables')
    if not tables:
        c.count('indexes that do not own')
    c.load(JOBS + ['k:%s %s stop=%s,%s,preload_exe_new,preload_state_register_exe' % (f, f, UNREG, FREE) for f in sorted(set(jobs))])
    prog = c.prog

    class After(Client):
        """auto: ((kind, value), ...)"""
        def init(self):
            return ()

        def keep_atoms(self, S):
            return {a for e in S.auto for a in e[1].atoms}

        def dead(self, S, i):
            pass

        def gone(self, S, t):
            for e in S.auto:
                if e[0] == 'gone' and (t is e[1] or e[1] in through(t)):
                    return True
            return False

        def load(self, S, i, loc, v):
            self.use(S, i, loc)

        def store(self, S, i, loc, v):
            self.use(S, i, loc)

        def use(self, S, i, loc):
            x = loc
            while x.k in ('fld', 'idx'):
                if x.k == 'fld' and self.gone(S, x.a[0]):
                    return self.bad(S, i, 'after', 'a removed executable is used')
                x = x.a[0]
            if self.gone(S, x):
                self.bad(S, i, 'after', 'memory of a removed executable is used')

        def pre_call(self, S, i, name, args, label):
            for a in args:
                if isinstance(a, Term) and self.gone(S, uncast(a)) and not (name in REMALL):
                    self.bad(S, i, 'after', 'a removed executable, or something it owned, is passed to %s' % name)
            if name in (UNREG, FREE, 'preload_state_register_exe'):
                c.count('releases followed')
                x = uncast(args[0])
                reg = ('reg', x) in S.auto
                if name == FREE and self.judge and self.top != UNREG:
                    if not (x.k == 'c' and x.a[1] == 'preload_exe_new') or reg:
                        self.bad(S, i, 'owner', 'an executable that may be registered is released without being removed')
                S.auto = S.auto + (('gone' if name in (UNREG, FREE) else 'reg', x),)

    def through(t):
        """values t was loaded from"""
        out = []
        while True:
            l = unload(t)
            if l is None:
                return out
            x = l
            while x.k in ('fld', 'idx'):
                x = x.a[0]
            out.append(x)
            t = x
    for f in sorted(set(jobs)) + ['u']:
        a = After()
        a.top, a.judge = f, f != 'u'
        c.sim(unfold(c.flat('u' if f == 'u' else 'k:' + f), 2, 60000), a, live, cap=60000, depth=60)
    c.need('releases followed', 2)

    class Free(After):
        """preload_exe_free itself: nothing through the executable after its memory is gone"""
        def pre_call(self, S, i, name, args, label):
            if name in ('g_free', 'free'):
                x = uncast(args[-1])
                if self.gone(S, x):
                    self.bad(S, i, 'after', 'memory is released twice')
                if x is self.t:
                    S.auto = S.auto + (('gone', x),)
            else:
                After.pre_call(self, S, i, name, args, label)
    a = Free()
    a.top, a.judge, a.t = FREE, False, mk('arg', 0, c.flat('f').args[0][0])
    c.sim(unfold(c.flat('f'), 1, 60000), a, live, cap=60000, depth=60)
    c.ok('nothing is used after it was removed')

    # ------------------------------------------------------------------ teardown
    class Tear(Client):
        def init(self):
            return ()

        def pre_call(self, S, i, name, args, label):
            if name in ('g_hash_table_destroy', 'g_hash_table_unref', 'g_hash_table_remove_all') and ld(args[0], '_preload_state_t.exes'):
                S.auto = ('gone',)
                c.count('teardowns')
            elif S.auto and name in prog.fns and name not in ('vomm_cleanup',) and ('F', '_preload_exe_t') and touches(prog, name):
                self.bad(S, i, 'after', '%s uses executables after they were released' % name)

        def load(self, S, i, loc, v):
            if S.auto and loc.k == 'fld' and loc.a[1].startswith('_preload_exe_t.'):
                self.bad(S, i, 'after', 'an executable is used after the model was released')
    c.sim(unfold(c.flat('sf'), 1), Tear(), live)
    c.need('teardowns')
    if touches(prog, 'vomm_cleanup'):
        c.bad('after', 'vomm_cleanup', 'the sequence model uses executables after they were released')
    c.ok('teardown uses no executable after the index is gone')


def touches(prog, f):
    for g in prog.reachable([f]):
        if g in prog.fns and any(i.op == 'fld' and i.x[0] == EXE for i in prog.fns[g].instrs()):
            return True
    return False


def rootterm(S, sysf, ld):
    for f in S.facts:
        for x in subterms(f):
            if ld(x, sysf + '.root'):
                return x
    for v in S.mem.values():
        for x in subterms(v):
            if ld(x, sysf + '.root'):
                return x
    return ZERO


def recursive(prog, flat, node):
    """program functions still called in the flattened root that call themselves and walk the tree"""
    out = []
    for i in flat.calls():
        g = i.callee()
        if g in prog.fns and g != FREE and g in prog.reachable(prog.callgraph().get(g, [])) and g not in out:
            out.append(g)
    return out


def released(prog, k):
    """is container k destroyed somewhere and its place cleared?"""
    for fn in prog.fns.values():
        d = any(i.callee() in ('g_hash_table_destroy', 'g_hash_table_unref', 'g_ptr_array_free') and k in origin(prog, fn, i.ops[0]) for i in fn.calls())
        z = any(i.op == 'store' and i.ops[0][0] == 'n' and static_key(prog, fn, i.ops[1]) == k for i in fn.instrs())
        if d and z:
            return True
    return False


def names(prog):
    return sorted({prog.field(s, n) for s, d in prog.structs.items() for n in range(len(d['f']))})
