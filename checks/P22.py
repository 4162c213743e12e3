"""Chain structure analysis (flattened, unfolded). Registration: on every path that registers a program with chains, the walk over the known
programs is complete and exactly one chain is made with each other one. preload_markov_new: both ends are stored, differ, and list the
chain once each on every path that returns it. preload_markov_free: the chain is taken off the list of every end that survives, then
released once. preload_exe_free frees every chain of the program. preload_markov_foreach: every chain of every program, at exactly one
of its two ends. The reader makes a chain only after comparing it with every chain of one end. No other code touches chain lists or ends."""
from walk import *

SR = 'stop=preload_map_new,preload_map_free,preload_map_ref,preload_map_unref,preload_exe_new,preload_exe_free,preload_exemap_new_from_exe,preload_markov_new,preload_markov_free,preload_markov_foreach,preload_state_register_exe,vomm_import_node,vomm_import_done,vomm_init,preload_markov_state_changed'
JOBS = ['reg preload_state_register_exe stop=preload_markov_new', 'new preload_markov_new stop=preload_markov_state_changed,markov_compute_state,exe_is_running', 'free preload_markov_free',
        'exefree preload_exe_free stop=preload_markov_free,preload_exemap_free', 'each preload_markov_foreach', 'read preload_state_read_file ' + SR,
        'upd preload_spy_update_model ' + SR + ',vomm_update,proc_get_maps']
ADD = ('g_ptr_array_add', 'g_ptr_array_insert')
DEL = ('g_ptr_array_remove', 'g_ptr_array_remove_fast')
MUT = ADD + DEL + ('g_ptr_array_remove_index', 'g_ptr_array_remove_index_fast', 'g_ptr_array_set_size', 'g_ptr_array_remove_range', 'g_ptr_array_free', 'g_ptr_array_unref', 'g_ptr_array_steal', 'g_ptr_array_foreach_remove')
ENDS = {'_preload_markov_t.a', '_preload_markov_t.b'}


class P(Walk):
    def __init__(self, do, calls, **kw):
        self.do = do
        Walk.__init__(self, calls=set(calls), **kw)

    def ret(self, S, i, v):
        self.do(self, S, i, S.auto, v)


def calls(ev, *names):
    return [e for e in ev if e[0] == 'call' and e[1] in names]


def listof(t, x):
    """t is the chain list of program x"""
    return isload(t, 'exe.markovs') and same(unload(t).a[0], x)


def known_empty(S, exe):
    return any(t.k == 'ld' and t.a[1].k == 'fld' and t.a[1].a[1] == '_GPtrArray.len' and listof(t.a[1].a[0], exe) and S.rng(t)[1] == 0
               for f in list(S.facts) + list(S.mem.values()) for t in subterms(f)) or \
        any(isload(t, 'exe.markovs') and same(unload(t).a[0], exe) and S.isnull(t) for f in S.facts for t in subterms(f))


def run(c):
    # ---- registration
    def reg(cl, S, i, ev, v):
        exe, want = mk('arg', 0, cl.sim.fn.args[0][0]), mk('arg', 1, cl.sim.fn.args[1][0])
        ins = [e for e in calls(ev, 'g_hash_table_insert', 'g_hash_table_replace') if isload(e[2][0], 'state.exes') and e[2][2] is exe]
        made = calls(ev, 'preload_markov_new')
        if not ins:
            if made:
                cl.bad(S, i, 'register', 'chains are made for a program that is not registered')
            return
        w = True if S.nonnull(want) else False if S.isnull(want) else None
        c.count('registrations')
        if w is None:
            return cl.bad(S, i, 'register', 'a program is registered without asking whether it needs chains')
        if not w:
            if made:
                cl.bad(S, i, 'register', 'chains are made although none were asked for')
            return
        walks = [x for x in hashwalks(ev) if isload(x[0], 'state.exes') and x[2]]
        if not walks:
            return cl.bad(S, i, 'register', 'a new program is not linked with every known program')
        others = []
        for x in walks:
            others += [y for k, y in x[1] if not any(same(y, z) for z in others)]
        for y in others:
            c.count('partners of a new program')
            n = [e for e in made if {e[2][0], e[2][1]} == {y, exe}]
            me = S.truth(cmp_term('eq', y, exe))
            if me is True:
                continue
            if len(n) != 1:
                cl.bad(S, i, 'register', 'a new program gets %d chains with a known one' % len(n))
            elif S.isnull(n[0][2][2]):
                cl.bad(S, i, 'register', 'a chain with a new program is made without a state')
        for e in made:
            if not any({e[2][0], e[2][1]} == {y, exe} for y in others):
                cl.bad(S, i, 'register', 'a chain is made that does not link the new program with a known one')
    c.sim(unfold(c.flat('reg'), 2), P(reg, ('preload_markov_new', 'g_hash_table_insert', 'g_hash_table_replace')), cap=20000, depth=60)
    c.need('registrations')
    c.need('partners of a new program')
    c.ok('registration: one chain with every known program')

    # ---- who registers with chains
    def asked(root, val, text):
        class A(Client):
            def call(self, S, i, name, args, ret, label):
                if name == 'preload_state_register_exe':
                    c.count('registration requests')
                    if not val(S, args[1]):
                        self.bad(S, i, 'register', text)
        c.sim(root, A())
    asked('upd', lambda S, t: S.nonnull(t), 'a learned program is registered without chains')
    asked('read', lambda S, t: S.isnull(t), 'chains are invented for a program restored from the state file')
    c.need('registration requests', 2)

    # ---- creation
    def new(cl, S, i, ev, v):
        a, b = [mk('arg', n, cl.sim.fn.args[n][0]) for n in (0, 1)]
        adds = calls(ev, *ADD)
        if S.isnull(v):
            if adds:
                cl.bad(S, i, 'create', 'a chain is listed although none is returned')
            return
        c.count('creations')
        if S.truth(cmp_term('eq', a, b)) is not False:
            cl.bad(S, i, 'create', 'a program can be linked with itself')
        st = {e[1]: e for e in ev if e[0] == 'store'}
        for f, x in (('markov.a', a), ('markov.b', b)):
            if f not in st or st[f][3].a[0] is not v or st[f][2] is not x:
                cl.bad(S, i, 'create', 'an end of a new chain is not set to its program')
        for x in (a, b):
            if len([e for e in adds if listof(e[2][0], x) and e[2][-1] is v]) != 1:
                cl.bad(S, i, 'create', 'a new chain is not listed once by each of its ends')
        if len(adds) != 2:
            cl.bad(S, i, 'create', 'a new chain is listed %d times' % len(adds))
    c.sim(unfold(c.flat('new'), 1), P(new, ADD, stores={'markov.a', 'markov.b'}), cap=20000, depth=60)
    c.need('creations')
    c.ok('creation: listed by both ends')

    # ---- release
    def free(cl, S, i, ev, v):
        m, frm = [mk('arg', n, cl.sim.fn.args[n][0]) for n in (0, 1)]
        rel = [n for n, e in enumerate(ev) if e[0] == 'call' and e[1] in ('g_free', 'free') and e[2][0] is m]
        if S.isnull(m):
            return
        c.count('releases')
        if len(rel) != 1:
            return cl.bad(S, i, 'release', 'a chain is released %d times' % len(rel))
        dels = [e for e in ev[:rel[0]] if e[0] == 'call' and e[1] in DEL and e[2][1] is m]
        late = [e for e in ev[rel[0]:] if e[0] == 'call' and e[1] in DEL]
        if late:
            cl.bad(S, i, 'release', 'a chain is looked up after it was released')
        ends = set()
        for e in dels:
            t = e[2][0]
            x = unload(t).a[0] if isload(t, 'exe.markovs') else None
            if x is None:
                cl.bad(S, i, 'release', 'a chain is taken off an unknown list')
                continue
            for f in ('a', 'b'):
                if isload(x, 'markov.' + f, m):
                    ends.add(f)
                elif any(t2.k == 'cmp' and t2.a[0] == 'eq' and S.truth(t2) and {isload(t2.a[1], 'markov.' + f, m), isload(t2.a[2], 'markov.' + f, m)} == {True, False} and x in (t2.a[1], t2.a[2]) for t2 in S.facts):
                    ends.add(f)
        isend = {}
        for f in ('a', 'b'):
            for t in S.facts:
                if t.k == 'cmp' and t.a[0] == 'eq':
                    for p, q in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                        if isload(p, 'markov.' + f, m) and q is frm:
                            isend[f] = S.truth(t)
        if S.isnull(frm):
            need = {'a', 'b'}
        elif isend.get('a') is True or isend.get('b') is False:
            need = {'b'}
        elif isend.get('b') is True or isend.get('a') is False:
            need = {'a'}
        else:
            need = {'a', 'b'}
        if not need <= ends:
            cl.bad(S, i, 'release', 'a chain stays on the list of an end that survives it')
    c.sim(unfold(c.flat('free'), 1), P(free, DEL + ('g_free', 'free')), cap=20000, depth=60)
    c.need('releases', 2)
    c.ok('release: taken off every surviving list first')

    def exefree(cl, S, i, ev, v):
        exe = mk('arg', 0, cl.sim.fn.args[0][0])
        if S.isnull(exe):
            return
        c.count('programs released')
        arr = [(a, x) for a, x in arrwalks(S, ev).items() if listof(a, exe)]
        if not arr and not known_empty(S, exe):
            cl.bad(S, i, 'release', 'the chains of a removed program are not released')
        for a, (els, comp) in arr:
            if not comp:
                cl.bad(S, i, 'release', 'not all chains of a removed program are released')
            for k in els.values():
                n = [e for e in calls(ev, 'preload_markov_free') if e[2][0] is k]
                if len(n) != 1 or n[0][2][1] is not exe:
                    cl.bad(S, i, 'release', 'a chain of a removed program is released %d times or for another program' % len(n))
    c.sim(unfold(c.flat('exefree'), 2), P(exefree, ('preload_markov_free',)), cap=20000, depth=60)
    c.need('programs released')
    c.ok('removal of a program releases its chains')

    # ---- walking all chains
    roles = {}

    def each(cl, S, i, ev, v):
        c.count('walks')
        fn, data = [mk('arg', n, cl.sim.fn.args[n][0]) for n in (0, 1)]
        done = [e for e in ev if e[0] == 'call']
        walks = [w for w in hashwalks(ev) if isload(w[0], 'state.exes') and w[2]]
        if not walks:
            return cl.bad(S, i, 'walk', 'the walk over all chains does not go through every program')
        arr = arrwalks(S, ev)
        mine = []
        for key, exe in walks[0][1]:
            A = [(a, x) for a, x in arr.items() if listof(a, exe)]
            if not A and not known_empty(S, exe):
                cl.bad(S, i, 'walk', 'the chains of a program are passed over')
            for a, (els, comp) in A:
                if not comp:
                    cl.bad(S, i, 'walk', 'not all chains of a program are gone through')
                for k in els.values():
                    n = [e for e in done if e[2][0] is k]
                    mine += n
                    role = None
                    for t, (lo, hi, ne) in S.facts.items():
                        if t.k == 'cmp' and t.a[0] == 'eq' and lo == hi:
                            for p, q in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                                for r, o in (('a', 'b'), ('b', 'a')):
                                    if isload(p, 'markov.' + r) and same(unload(p).a[0], k) and same(q, exe):
                                        role = r if lo else o
                    roles.setdefault(role, set()).add(len(n))
                    if n and n[0][2][-1] is not data:
                        cl.bad(S, i, 'walk', 'a chain is visited without the data of the walk')
        if len(mine) != len(done):
            cl.bad(S, i, 'walk', 'something is visited that is not a chain of a known program')
    w = P(each, ())
    w.calls = lambda n: n.startswith('*')
    c.sim(unfold(c.flat('each'), 2), w, cap=20000, depth=60)
    c.need('walks')
    if sorted((str(k), sorted(x)) for k, x in roles.items()) not in ([('a', [0]), ('b', [1])], [('a', [1]), ('b', [0])]):
        c.bad('walk', 'preload_markov_foreach', 'a chain is not visited at exactly one of its two ends (%s)' % ', '.join('end %s: %s visits' % (k, '/'.join(map(str, sorted(x)))) for k, x in sorted(roles.items(), key=str)))
    c.ok('walk: every chain at exactly one end')

    # ---- reading
    f = c.flat('read')
    loops, k = {}, {}
    for h, body, _ in f.loops():
        loops[h] = loops.get(h, frozenset()) | body
    for h, body in loops.items():
        names = {x.callee() for b in body for x in f.blocks[b] if x.op == 'call'}
        k[h] = 2 if not names & {'sscanf', '__isoc99_sscanf', '__isoc23_sscanf', 'g_hash_table_iter_next'} else 0

    class R(Walk):
        def call(self, S, i, name, args, ret, label):
            if name != 'preload_markov_new':
                return Walk.call(self, S, i, name, args, ret, label)
            a, b = args[0], args[1]
            c.count('chains restored')
            if S.truth(cmp_term('eq', a, b)) is not False:
                self.bad(S, i, 'restore', 'a program can be linked with itself by the state file')
            if any(e[0] == 'made' for e in S.auto):
                return []
            S.auto = S.auto + (('made',),)
            if not S.isnull(args[2]):
                self.bad(S, i, 'restore', 'a chain restored from the state file is given statistics of its own')
            ok = False
            for x, y in ((a, b), (b, a)):
                arr = [v for A, v in arrwalks(S, S.auto).items() if listof(A, x)]
                if not arr and known_empty(S, x):
                    ok = True
                for els, comp in arr:
                    if comp and all(self.differs(S, m, y) for m in els.values()):
                        ok = True
            if not ok:
                self.bad(S, i, 'restore', 'a pair can get a second chain from the state file')
            return None

        def differs(self, S, m, y):
            n = 0
            for e in ('a', 'b'):
                for t in S.facts:
                    if t.k == 'cmp' and t.a[0] == 'eq' and S.truth(t) is False:
                        for p, q in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                            if isload(p, 'markov.' + e) and same(unload(p).a[0], m) and same(q, y):
                                n += 1
                                break
                        else:
                            continue
                        break
            return n >= 2

        def cut(self, S, i):
            pass
    c.sim(unfold(f, 0, loopk=k, maxblocks=60000), R(calls=()), [('F', '_preload_exe_t.markovs')], cap=20000, depth=60)
    c.need('chains restored')
    c.ok('reading: a pair gets one chain')

    # ---- nothing else
    cg = c.prog.callgraph()
    seen, w = set(), ['main']
    while w:
        x = w.pop()
        if x not in seen and x not in ('preload_markov_new', 'preload_markov_free', 'preload_exe_free', 'preload_exe_new'):
            seen.add(x)
            w.extend(cg.get(x, ()))
    for fn in c.prog.fns.values():
        for x in fn.instrs():
            if x.op == 'call' and x.callee() in MUT and x.ops and x.ops[0][0] == 'v':
                d = fn.ins[x.ops[0][1]]
                if d.op == 'load' and d.ops[0][0] == 'v' and fn.ins[d.ops[0][1]].op == 'fld' and c.prog.field(*fn.ins[d.ops[0][1]].x) == '_preload_exe_t.markovs':
                    c.count('changes of chain lists inspected')
                    if fn.name in seen:
                        c.bad('elsewhere', fn.name, 'a chain list is changed outside creation and release')
            if x.op == 'store' and x.ops[1][0] == 'v' and fn.ins[x.ops[1][1]].op == 'fld' and c.prog.field(*fn.ins[x.ops[1][1]].x) in ENDS and fn.name in seen:
                c.bad('elsewhere', fn.name, 'an end of a chain is changed after its creation')
    c.need('changes of chain lists inspected')
    c.ok('no other code changes chain lists')
