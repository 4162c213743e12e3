"""Reference-count and registration analysis. Taking and dropping a reference are simulated for every old count (flattened, loop-free):
the count moves by one, the map enters both indexes exactly at 0 -> 1 with a fresh number, leaves both before it is released at 1 -> 0.
Every function that takes, drops or stores a map reference is checked for balance on every path: references taken minus dropped equals
references handed to an owner (a use record, or a table that drops them) minus those whose owner was released. Maps made for a lookup are
released or used, exactly once. Numbers come only from the counters, which only grow; nothing else touches counts, indexes or numbers."""
from walk import *
from sim import static_key
import P21
from P21 import origin, MODS

STOPS = ['preload_map_ref', 'preload_map_unref', 'preload_map_new', 'preload_map_free', 'preload_exe_new', 'preload_exe_free', 'preload_exemap_new', 'preload_exemap_free', 'preload_exemap_new_from_exe',
         'preload_state_register_exe', 'preload_state_unregister_exe', 'preload_markov_new', 'preload_markov_free', 'preload_markov_foreach', 'vomm_import_node', 'vomm_import_done', 'vomm_update', 'vomm_init', 'proc_get_maps', 'preload_map_get_size',
         'preload_is_vomm_algorithm', 'preload_markov_state_changed', 'vomm_cleanup', 'vomm_forget_exe', 'preload_spy_forget_exe']
JOBS = ['ref preload_map_ref', 'unref preload_map_unref', 'uses preload_exemap_new', 'reg preload_state_register_exe stop=preload_markov_new', 'maps proc_get_maps stop=' + ','.join(STOPS),
        'exefree preload_exe_free stop=preload_markov_free,preload_exemap_free', 'sfree preload_state_free stop=preload_exe_free,vomm_cleanup', 'upd preload_spy_update_model stop=' + ','.join(STOPS),
        'from preload_exemap_new_from_exe stop=' + ','.join(s for s in STOPS if s != 'preload_exemap_new_from_exe')]
INS = ('g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_add')
REM = ('g_hash_table_remove', 'g_hash_table_steal')
AADD = ('g_ptr_array_add',)
AREM = ('g_ptr_array_remove', 'g_ptr_array_remove_fast')
WARN = ('g_return_if_fail_warning',)


class P(Walk):
    def __init__(self, do, calls, **kw):
        self.do = do
        Walk.__init__(self, calls=set(calls) | set(WARN), **kw)

    def ret(self, S, i, v):
        self.sites = getattr(self, 'sites', set())
        self.do(self, S, i, S.auto, v)


def calls(ev, *names):
    return [e for e in ev if e[0] == 'call' and e[1] in names]


def kept(t, name):
    t = uncast(t)
    if t.k == 'sl':
        return isfld(t.a[0], name)
    return isload(t, name)


def run(c):
    prog = c.prog
    judged = set()      # sites of the simulated reference and registration operations

    def sim(root, cl, **kw):
        f = c.flat(root)
        s = c.sim(unfold(f, 2, 30000), cl, [('F', '_preload_map_t.refcount')], cap=20000, depth=60, **kw)
        judged.update(i.where() for i in f.instrs())
        return s

    def refcell(m):
        return mk('fld', m, '_preload_map_t.refcount')

    # ---------------------------------------------------------------- taking and dropping a reference
    def counted(S, m):
        """(old count atom or None, final value)"""
        v = S.mem.get(refcell(m))
        old = [x for t in list(S.facts) + ([v] if v is not None else []) for x in subterms(t) if x.k == 'ld' and x.a[1] is refcell(m)]
        return (old[0] if old else None), v

    def step(cl, S, i, m, d):
        """the count moves by d on this path; returns possible old values (lo, hi)"""
        old, new = counted(S, m)
        if old is None or new is None:
            cl.bad(S, i, 'count', 'the count of a map is not changed by %+d' % d)
            return None
        lo, hi, ne = S.rng(old)
        lo = max(lo, 0)     # never negative: that is what is being shown
        for n in (0, 1, 2, 5):
            if lo <= n <= hi and n not in ne:
                try:
                    r = evali(new, lambda t: n if t is old else None)
                except ValueError:
                    r = None
                if r != n + d:
                    cl.bad(S, i, 'count', 'the count of a map goes from %d to %s' % (n, r))
                    return None
        while lo in ne:
            lo += 1
        return lo, hi

    def index(ev, m):
        ins = [e for e in calls(ev, *INS) if kept(e[2][0], 'state.maps')]
        add = [e for e in calls(ev, *AADD) if kept(e[2][0], 'state.maps_arr')]
        rem = [e for e in calls(ev, *REM) if kept(e[2][0], 'state.maps')]
        arem = [e for e in calls(ev, *AREM) if kept(e[2][0], 'state.maps_arr')]
        return ins, add, rem, arem

    ALL = INS + REM + AADD + AREM + ('g_free', 'free', 'g_ptr_array_remove_index', 'g_ptr_array_remove_index_fast', 'g_ptr_array_set_size', 'g_hash_table_remove_all', 'g_hash_table_destroy', 'g_slice_free1')

    def seqs(cl, S, i, ev, obj, field, counter, what):
        """obj.field is the counter, advanced by one, on this path"""
        cell, ctr = [e for e in ev if e[0] == 'store' and e[1] == field and e[3].a[0] is obj], [e for e in ev if e[0] == 'store' and e[1] == counter]
        if len(cell) != 1 or len(ctr) != 1:
            cl.bad(S, i, 'number', 'a new %s gets %d numbers, the counter advances %d times' % (what, len(cell), len(ctr)))
            return
        v, w = cell[0][2], ctr[0][2]
        old = [x for t in (w,) for x in subterms(t) if unload(x) is not None and fname(unload(x)) == counter or x.k == 'sl' and fname(x.a[0]) == counter]
        try:
            okc = bool(old) and all(evali(w, lambda t: n if t is old[0] else None) == n + 1 for n in (0, 1, 7, 2 ** 33))
            vals = [evali(v, lambda t: n if old and t is old[0] else None) - n for n in (0, 1, 7, 2 ** 33)]
        except ValueError:
            okc, vals = False, []
        if not okc:
            cl.bad(S, i, 'number', 'the counter of %ss does not advance by one' % what)
        elif vals and vals[0] not in (0, 1) or len(set(vals)) != 1:
            cl.bad(S, i, 'number', 'the number of a new %s is not taken from the counter' % what)
        elif vals[0] != 1:
            cl.bad(S, i, 'number', 'the number of a new %s can be one used before or 0' % what)
        else:
            c.count('numbers assigned')

    def refused(cl, S, i, ev, m):
        """the operation stopped at an internal assertion: only because of a missing map, a count that is none, or an index that disagrees"""
        if not calls(ev, *WARN):
            return False
        old, new = counted(S, m)
        fs = [(t, f) for t, f in S.facts.items()]
        if not (S.isnull(m) or old is not None and S.rng(old)[1] <= 0 or any(uncast(t).k == 'c' and uncast(t).a[1] in ('g_hash_table_lookup', 'g_hash_table_contains') for t, f in fs) and not index(ev, m)[2]
                or any(isload(t, 'map.path', m) and S.isnull(t) for t, f in fs)):
            cl.bad(S, i, 'release', 'the operation on a map is given up halfway by an internal assertion')
        return True

    def ref(cl, S, i, ev, v):
        m = mk('arg', 0, cl.sim.fn.args[0][0])
        if refused(cl, S, i, ev, m):
            return
        ins, add, rem, arem = index(ev, m)
        if S.isnull(m):
            if ins or add:
                cl.bad(S, i, 'index', 'nothing is entered as a map')
            return
        r = step(cl, S, i, m, 1)
        if r is None:
            return
        c.count('reference paths')
        if rem or arem:
            cl.bad(S, i, 'index', 'a map leaves an index when a reference is taken')
        if r[0] == r[1] == 0:
            if len(ins) != 1 or len(add) != 1 or ins[0][2][1] is not m or add[0][2][1] is not m:
                cl.bad(S, i, 'index', 'the first use enters a map %d times into the table and %d times into the list' % (len(ins), len(add)))
            else:
                if ins[0][1] != 'g_hash_table_add' and S.isnull(ins[0][2][2]):
                    cl.bad(S, i, 'index', 'a map is entered with an empty value: it is never found')
                seqs(cl, S, i, ev, m, 'map.seq', 'state.map_seq', 'map')
                c.count('first uses')
        elif r[0] > 0:
            if ins or add:
                cl.bad(S, i, 'index', 'a further use enters a map into an index again')
            if [e for e in ev if e[0] == 'store' and e[1] == 'map.seq']:
                cl.bad(S, i, 'number', 'a further use renumbers a map')
            c.count('further uses')
        else:
            cl.bad(S, i, 'index', 'a reference is taken without asking whether it is the first')
    sim('ref', P(ref, ALL, stores=('map.seq', 'state.map_seq')))
    c.need('first uses')
    c.need('further uses')
    c.ok('reference: count + 1; both indexes and a fresh number exactly at the first')

    def unref(cl, S, i, ev, v):
        m = mk('arg', 0, cl.sim.fn.args[0][0])
        if refused(cl, S, i, ev, m):
            return
        ins, add, rem, arem = index(ev, m)
        if ins or add:
            cl.bad(S, i, 'index', 'a map enters an index when a reference is dropped')
        if S.isnull(m):
            return
        fr = [e for e in calls(ev, 'g_free', 'free', 'g_slice_free1')]
        mine = [e for e in fr if e[2][0] is m]
        path = [e for e in fr if isload(e[2][0], 'map.path', m)]
        old, new = counted(S, m)
        r = None
        if old is not None and new is None and mine:
            # the count goes with the map
            lo, hi, ne = S.rng(old)
            r = (max(lo, 0), hi)
        else:
            r = step(cl, S, i, m, -1)
        if r is None:
            return
        if r[0] == r[1] == 1:
            if len(rem) != 1 or len(arem) != 1 or rem[0][2][1] is not m or arem[0][2][1] is not m:
                cl.bad(S, i, 'index', 'the last use takes a map %d times from the table and %d times from the list' % (len(rem), len(arem)))
            elif len(mine) != 1 or len(path) != 1:
                cl.bad(S, i, 'release', 'a map without uses is released %d times, its path %d times' % (len(mine), len(path)))
            else:
                n = lambda e: ev.index(e)
                if n(path[0]) < n(rem[0]) or n(mine[0]) < max(n(rem[0]), n(arem[0]), n(path[0])):
                    cl.bad(S, i, 'release', 'a map is released before it has left the indexes')
                c.count('last uses')
        elif r[0] > 1:
            if rem or arem or mine or path:
                cl.bad(S, i, 'index', 'a map that is still used is taken from an index or released')
            c.count('other uses dropped')
        elif r[1] >= 1:
            cl.bad(S, i, 'index', 'a reference is dropped without asking whether it is the last')
    sim('unref', P(unref, ALL))
    c.need('last uses')
    c.need('other uses dropped')
    c.ok('release: count - 1; out of both indexes, then freed, exactly at the last')

    # ---------------------------------------------------------------- balance of every other holder
    rel, eff = {}, P21.Effects(prog)
    for k, fs in eff.destroy.items():
        if 'preload_map_unref' in fs:
            rel[k] = True
    reach = {f for f in prog.reachable(['main']) if f in prog.fns}

    def touches(f):
        fn = prog.fns[f]
        if any(True for _ in fn.calls('preload_map_ref', 'preload_map_unref')):
            return True
        return any(i.op == 'store' and static_key(prog, fn, i.ops[1]) == ('F', '_preload_exemap_t.map') for i in fn.instrs())

    callers = {}
    for f in reach:
        for i in prog.fns[f].calls():
            callers.setdefault(i.callee(), set()).add(f)
    taken = {o[1] for f in prog.fns.values() for i in f.instrs() for o in i.ops if isinstance(o, list) and o and o[0] == 'fn'}
    todo = [f for f in sorted(reach) if touches(f) and f not in ('preload_map_ref', 'preload_map_unref')]
    todo += [f for f in ('preload_exemap_new', 'preload_exemap_free', 'preload_exemap_new_from_exe') if f in prog.fns and f not in todo]

    class Bal(P):
        MAXEV = 4000

        def __init__(self):
            P.__init__(self, None, ('preload_map_ref', 'preload_map_unref', 'g_free', 'free', 'preload_map_free') + INS, stores=('exemap.map',))
            self.found = []

        def cname(self, S, m):
            return show(m)

        def ret(self, S, i, v):
            ev = S.auto
            if calls(ev, *WARN):
                return
            bal = {}

            def add(m, d):
                m = uncast(m)
                for x in bal:
                    if x is m or same(x, m):
                        m = x
                bal[m] = bal.get(m, 0) + d
            for e in ev:
                if e[0] == 'store':
                    if e[2] is not ZERO:
                        add(e[2], -1)
                elif e[1] == 'preload_map_ref':
                    if not S.isnull(e[2][0]):
                        add(e[2][0], 1)
                elif e[1] == 'preload_map_unref':
                    if not S.isnull(e[2][0]):
                        add(e[2][0], -1)
                elif e[1] in ('g_free', 'free'):
                    x = uncast(e[2][0])
                    # a use record that is released gives its reference back
                    for t in list(S.facts) + [y for z in ev if z[0] == 'call' for y in z[2]]:
                        for y in subterms(t):
                            if y.k == 'ld' and y.a[1].k == 'fld' and tag(y.a[1].a[1]) == 'exemap.map' and y.a[1].a[0] is x and S.nonnull(y):
                                bal.setdefault(next((z for z in bal if same(z, y)), y), 0)
                                if ('w', x, y) not in bal:
                                    k = next(z for z in bal if isinstance(z, Term) and same(z, y))
                                    bal[k] += 1
                                    bal['w', x, y] = 0
                elif e[1] in INS:
                    l = unload(e[2][0])
                    t = uncast(e[2][0])
                    own = t.k == 'c' and t.a[1] == 'g_hash_table_new_full' and t.a[5].k == 'fn' and t.a[5].a[0] == 'preload_map_unref'
                    if (own or l is not None and rel.get(key_of(l))) and len(e[2]) > 2:
                        add(e[2][2], -1)
            for m, n in bal.items():
                if n:
                    self.found.append((S, i, 'a use of a map %s' % ('keeps a reference nothing will drop' if n > 0 else 'holds no reference of its own')))
            self.ctx.count('balanced paths')

    done, guard = set(), 0
    while todo and guard < 40:
        guard += 1
        f = todo.pop(0)
        if f in done:
            continue
        done.add(f)
        stop = [s for s in STOPS if s != f] + [g for g in prog.fns if g not in done and prog.fns[g].internal and touches(g) and g != f]
        inl = [g for g in done if g != f]
        stop = [s for s in stop if s not in inl or s in ('preload_exemap_new', 'preload_exemap_free')]
        c.load(['b:%s %s stop=%s' % (f, f, ','.join(stop))])
        cl = Bal()
        try:
            u = unfold(c.flat('b:' + f), 1, 30000)
        except ValueError:
            raise Broken('%s is too large for the balance analysis' % f)
        c.sim(u, cl, [('F', '_preload_exemap_t.map')], depth=60)
        if cl.found:
            up = callers.get(f, set()) & reach
            if prog.fns[f].internal and up and f not in taken:
                todo += sorted(up)
                for g in up:
                    done.discard(g)
            else:
                for S, i, msg in cl.found:
                    cl.bad(S, i, 'balance', msg)
                for v in cl.sim.viol.values():
                    c.bad(v.rule, v.ins.where(), v.msg, v.path)
        c.count('reference holders checked for balance')
    c.need('reference holders checked for balance', 3)
    c.load(JOBS)
    c.ok('every reference taken is owned, every owner released drops exactly one')

    # ---------------------------------------------------------------- maps made while a process is looked at
    def maps(cl, S, i, ev, v):
        made = calls(ev, 'preload_map_new')
        for e in made:
            m = e[3]
            fr = [x for x in calls(ev, 'preload_map_free') if x[2][0] is m]
            use = [x for x in calls(ev, 'preload_exemap_new') if x[2][0] is m]
            c.count('maps made for a lookup')
            if len(fr) + len(use) != 1:
                cl.bad(S, i, 'made', 'a map made for a process is released %d times and used %d times' % (len(fr), len(use)))
        for e in calls(ev, 'preload_exemap_new'):
            if len([x for x in calls(ev, 'g_ptr_array_add') if x[2][1] is e[3]]) != 1:
                cl.bad(S, i, 'made', 'a use of a map is not handed to the program')
        for e in calls(ev, 'preload_map_free'):
            if not any(e[2][0] is x[3] for x in made):
                cl.bad(S, i, 'made', 'a map that was not made here is released')
        look = calls(ev, 'g_hash_table_lookup_extended', 'g_hash_table_lookup')
        for e in calls(ev, 'preload_exemap_new'):
            m = e[2][0]
            x = [l for l in look if l[2][1] is m]
            if x and x[-1][1] == 'g_hash_table_lookup_extended' and x[-1][4] == 'found':
                cl.bad(S, i, 'made', 'a second map is used although an equal one is known')
            if not x and any(m is y[3] for y in made) and S.nonnull(mk('arg', 1, cl.sim.fn.args[1][0])):
                cl.bad(S, i, 'made', 'a map is used without asking for an equal known one')
    sim_maps = P(maps, ('preload_map_new', 'preload_map_free', 'preload_exemap_new', 'g_ptr_array_add', 'g_hash_table_lookup_extended', 'g_hash_table_lookup'))
    c.sim(unfold(c.flat('maps'), 1, 30000), sim_maps, cap=20000, depth=60)
    c.need('maps made for a lookup')
    c.ok('maps made for a lookup: known one preferred; released or used once')

    # ---------------------------------------------------------------- dropping the uses of a program
    def walked(ev, S, arrname):
        return [(a, x) for a, x in arrwalks(S, ev).items() if isload(a, arrname)]

    def exefree(cl, S, i, ev, v):
        exe = mk('arg', 0, cl.sim.fn.args[0][0])
        if S.isnull(exe) or calls(ev, *WARN):
            return
        c.count('programs released')
        arr = [(a, x) for a, x in arrwalks(S, ev).items() if isload(a, 'exe.exemaps') and same(unload(a).a[0], exe)]
        empty = any(t.k == 'ld' and t.a[1].k == 'fld' and t.a[1].a[1] == '_GPtrArray.len' and isload(t.a[1].a[0], 'exe.exemaps') and S.rng(t)[1] == 0
                    for f in list(S.facts) + list(S.mem.values()) for t in subterms(f)) or any(isload(t, 'exe.exemaps') and S.isnull(t) for f in S.facts for t in subterms(f))
        if not arr and not empty:
            cl.bad(S, i, 'drop', 'the uses of a removed program are not dropped')
        for a, (els, comp) in arr:
            if not comp:
                cl.bad(S, i, 'drop', 'not every use of a removed program is dropped')
            for k in els.values():
                n = [e for e in calls(ev, 'preload_exemap_free') if e[2][0] is k]
                if len(n) != 1:
                    cl.bad(S, i, 'drop', 'a use of a removed program is dropped %d times' % len(n))
    c.sim(unfold(c.flat('exefree'), 2), P(exefree, ('preload_exemap_free',)), cap=20000, depth=60)
    c.need('programs released')

    def from_(cl, S, i, ev, v):
        if calls(ev, *WARN):
            return
        exe, m = [mk('arg', n, cl.sim.fn.args[n][0]) for n in (0, 1)]
        n = calls(ev, 'preload_exemap_new')
        a = [e for e in calls(ev, 'g_ptr_array_add') if isload(e[2][0], 'exe.exemaps') and same(unload(e[2][0]).a[0], exe)]
        c.count('uses recorded')
        if len(n) != 1 or n[0][2][0] is not m or len(a) != 1 or a[0][2][1] is not n[0][3] or v is not n[0][3]:
            cl.bad(S, i, 'made', 'a use restored for a program is not listed with it exactly once')
    c.sim(unfold(c.flat('from'), 1), P(from_, ('preload_exemap_new', 'g_ptr_array_add')), cap=20000, depth=60)
    c.need('uses recorded')

    class Learn(Client):
        """uses collected for a process go to the new program, or are dropped one by one with their array"""

        def init(self):
            return ()

        def keep_atoms(self, S):
            return {a for e in S.auto for x in e if isinstance(x, Term) for a in x.atoms}

        def call(self, S, i, name, args, ret, label):
            if name == 'proc_get_maps' and args[2] is not ZERO:
                v = S.mem.get(self.sim.addr_leaf(args[2]))
                S.auto = S.auto + (('open', self.sim.addr_leaf(args[2])),)
            elif name in ('preload_exe_new',):
                l = unload(args[2]) if args[2] is not ZERO else None
                S.auto = tuple(e for e in S.auto if e[0] != 'open')
                if l is None or root(l).k != 'A':
                    self.bad(S, i, 'made', 'a program is made without the uses collected for it')
                c.count('programs learned')
            elif name in ('g_ptr_array_free', 'g_ptr_array_unref'):
                if not any(e[0] == 'open' for e in S.auto):
                    return
                w = [e for e in S.auto if e[0] == 'walk']
                if name == 'g_ptr_array_free' and not w:
                    self.bad(S, i, 'drop', 'the uses collected for a process that ended are not dropped')
                S.auto = ()
                c.count('collections dropped')
            elif name == 'preload_exemap_free':
                S.auto = tuple(e for e in S.auto if e[0] != 'walk') + (('walk',),)

        def load(self, S, i, loc, v):
            # an empty collection needs no walk
            if loc.k == 'fld' and loc.a[1] == '_GPtrArray.len' and any(e[0] == 'open' for e in S.auto) and ('walk',) not in S.auto:
                l = unload(loc.a[0])
                if l is not None and l is S.auto[0][1]:
                    S.auto = S.auto + (('walk',),)

        def ret(self, S, i, v):
            if any(e[0] == 'open' for e in S.auto):
                self.bad(S, i, 'drop', 'the uses collected for a process are lost')
    c.sim(unfold(c.flat('upd'), 1, 40000), Learn(), depth=60)
    c.need('programs learned')
    c.ok('uses of programs: handed over or dropped one by one')

    # ---------------------------------------------------------------- registration of programs
    def reg(cl, S, i, ev, v):
        if calls(ev, *WARN):
            return
        exe = mk('arg', 0, cl.sim.fn.args[0][0])
        ins = [e for e in calls(ev, *INS) if kept(e[2][0], 'state.exes')]
        c.count('program registrations')
        if len(ins) != 1 or ins[0][2][2] is not exe or not isload(ins[0][2][1], 'exe.path', exe):
            cl.bad(S, i, 'index', 'a program is not entered into the table exactly once under its path')
        seqs(cl, S, i, ev, exe, 'exe.seq', 'state.exe_seq', 'program')
    sim('reg', P(reg, ALL, stores=('exe.seq', 'state.exe_seq')))
    c.need('program registrations')

    # ---------------------------------------------------------------- teardown
    def sfree(cl, S, i, ev, v):
        d = lambda n: [k for k, e in enumerate(ev) if e[0] == 'call' and kept(e[2][0], n)]
        ex, ma, ar = d('state.exes'), d('state.maps'), d('state.maps_arr')
        c.count('teardowns')
        if len(ex) != 1 or len(ma) != 1 or len(ar) != 1:
            cl.bad(S, i, 'teardown', 'the indexes are not released exactly once')
        elif ex[0] > min(ma[0], ar[0]):
            cl.bad(S, i, 'teardown', 'the map indexes are released before the programs that use the maps')
    c.sim(unfold(c.flat('sfree'), 1), P(sfree, ('g_hash_table_destroy', 'g_hash_table_unref', 'g_ptr_array_free', 'g_ptr_array_unref')), cap=20000, depth=60)
    c.need('teardowns')
    if not any('preload_exe_free' in fs for k, fs in eff.destroy.items() if k == ('F', '_preload_state_t.exes')):
        c.bad('teardown', 'preload_state_load', 'releasing the table of programs does not release the programs')

    # ---------------------------------------------------------------- nothing else
    keys = {('F', '_preload_map_t.refcount'): 'the count of a map', ('F', '_preload_map_t.seq'): 'the number of a map', ('F', '_preload_exe_t.seq'): 'the number of a program',
            ('F', '_preload_state_t.map_seq'): 'the counter of maps', ('F', '_preload_state_t.exe_seq'): 'the counter of programs', ('F', '_preload_exemap_t.map'): 'the map of a use'}
    idx = {('F', '_preload_state_t.maps'), ('F', '_preload_state_t.maps_arr')}
    for f in sorted(reach):
        fn = prog.fns[f]
        for i in fn.instrs():
            if i.op == 'store':
                k = static_key(prog, fn, i.ops[1])
                if k in keys:
                    c.count('stores to counts and numbers')
                    if i.where() in judged:
                        continue
                    base = fn.ins[i.ops[1][1]].ops[0] if i.ops[1][0] == 'v' and fn.ins[i.ops[1][1]].op == 'fld' else None
                    if base and base[0] == 'v' and fn.ins[base[1]].op == 'call' and fn.ins[base[1]].callee() in ('g_malloc', 'g_malloc0', 'malloc', 'g_malloc_n', 'g_malloc0_n') and (i.ops[0] == ['i', 0, 32] or i.ops[0][0] == 'i' and i.ops[0][1] == 0 or k[1].endswith('exemap_t.map')):
                        continue
                    c.bad('elsewhere', i.where(), '%s is changed outside the reference and registration operations' % keys[k])
                elif k in idx and i.ops[0][0] == 'v' and fn.ins[i.ops[0][1]].op == 'call' and fn.ins[i.ops[0][1]].callee() in P21.NEWTAB:
                    c.count('indexes created')
            elif i.op == 'call' and i.callee() in MODS and i.ops:
                if MODS[i.callee()] != 'reorders' and origin(prog, fn, i.ops[0]) & idx:
                    c.count('index modifications')
                    if i.where() not in judged and not (MODS[i.callee()] == 'frees'):
                        c.bad('elsewhere', i.where(), 'a map index is changed outside the reference operations')
                    elif MODS[i.callee()] == 'frees' and f not in {x.srcfn() for x in c.flat('sfree').instrs()}:
                        c.bad('elsewhere', i.where(), 'a map index is released outside the teardown')
    c.need('stores to counts and numbers', 4)
    c.need('index modifications', 4)
    c.ok('no other code changes counts, numbers or indexes')
