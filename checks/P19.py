"""Index-key analysis over the whole program. Every hash table is found with its hash, equality and release functions and every insertion
into it. Rules: hash and equality form a consistent pair; the program's own equality returns true exactly when all identity attributes
agree (path-enumerated), and its hash reads nothing but those attributes, the path by content only; the identity attributes are stored only
into objects just allocated and not yet handed out, or on the way to their release, and their text is never edited in place; an owned
key is a fresh allocation, a borrowed key belongs to the entry's value and the entry is known to be new; an entry leaves the index before
its key's memory is released."""
from walk import *
from sim import static_key
from P21 import origin, NEWTAB
from P18 import names

PAIRS = {('g_str_hash', 'g_str_equal'): 'string', ('g_direct_hash', 'g_direct_equal'): 'direct', (None, None): 'direct', ('g_direct_hash', None): 'direct', (None, 'g_direct_equal'): 'direct',
         ('g_int_hash', 'g_int_equal'): 'int', ('g_int64_hash', 'g_int64_equal'): 'int'}
ALLOC = {'g_strdup', 'g_strdup_printf', 'g_strndup', 'g_strconcat', 'g_filename_from_uri', 'g_filename_to_uri', 'g_malloc', 'g_malloc0', 'malloc', 'calloc', 'strdup', 'g_memdup2', 'g_build_filename', 'g_path_get_basename'}
EDIT = {'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'sprintf': 0, 'snprintf': 0, 'g_snprintf': 0, 'g_strlcpy': 0, 'g_strlcat': 0, 'g_strchug': 0, 'g_strchomp': 0,
        'g_strdelimit': 0, 'g_strcanon': 0, 'g_strreverse': 0, 'strtok': 0, 'strsep': 0, 'g_ascii_strdown': -1}
WANT = {('F', '_preload_state_t.exes'): 'string', ('F', '_preload_state_t.bad_exes'): 'string', ('F', '_preload_state_t.maps'): 'own'}
JOBS = ['eq preload_map_equal', 'hash preload_map_hash', 'unref preload_map_unref', 'unreg preload_state_unregister_exe stop=preload_exe_free']
LIVE = [('F', '_preload_exe_t.path'), ('F', '_preload_map_t.path')]
IDMAP = ('map.path', 'map.offset', 'map.length')
INS = {'g_hash_table_insert': (1, 2), 'g_hash_table_replace': (1, 2), 'g_hash_table_add': (1, 1)}


def run(c):
    prog = c.prog
    reach = [f for f in sorted(prog.reachable(['main'])) if f in prog.fns]

    # ------------------------------------------------------------------ tables
    tables = {}
    for f in reach:
        fn = prog.fns[f]
        for i in fn.calls('g_hash_table_new', 'g_hash_table_new_full'):
            nm = lambda o: None if o[0] == 'n' else o[1] if o[0] == 'fn' else '?'
            h, e = nm(i.ops[0]), nm(i.ops[1])
            kd = nm(i.ops[2]) if i.callee() == 'g_hash_table_new_full' else None
            kind = PAIRS.get((h, e))
            if kind is None and h in prog.fns and e in prog.fns:
                kind = 'own'
            c.count('tables')
            if kind is None:
                c.bad('pair', i.where(), 'a table hashes with %s and compares with %s: equal keys need not have equal hashes' % (h, e))
                continue
            if kind == 'own' and (h, e) != ('preload_map_hash', 'preload_map_equal'):
                c.bad('pair', i.where(), 'a table is indexed by functions that are not analysed (%s, %s)' % (h, e))
            ks = {static_key(prog, fn, s.ops[1]) for s in fn.instrs() if s.op == 'store' and s.ops[0] == ['v', i.id]}
            for k in ks or {('A*', f)}:
                if k[0] == 'A*':
                    k = ('A*', f)
                o = tables.get(k)
                if o and o[:2] != (kind, kd):
                    c.bad('pair', i.where(), '%s is created with different functions in different places' % (k[1],))
                tables[k] = (kind, kd, i.where())
    c.need('tables', 6)
    for k, w in WANT.items():
        if k not in tables:
            raise Broken('the table %s is not found' % k[1])
        if tables[k][0] != w:
            c.bad('pair', tables[k][2], '%s does not compare its keys by their content' % k[1].split('.')[-1])
    c.ok('hash and equality functions of every table agree')

    # ------------------------------------------------------------------ equality
    class Eq(Client):
        def keep_atoms(self, S):
            return {a for f in S.facts for a in f.atoms}

        def ret(self, S, i, v):
            a, b = [mk('arg', n, x[0]) for n, x in enumerate(self.sim.fn.args)]
            v = uncast(v)
            for want in (0, 1):
                T = S.copy()
                if v.k == 'i':
                    if bool(v.a[0]) != bool(want):
                        continue
                elif T.assume(v, bool(want)) is False or T.truth(v) is (not want):
                    continue
                if v.k != 'i' and T.truth(cmp_term('eq', v, ZERO)) is bool(want):
                    continue
                c.count('equality outcomes')
                same_ = T.truth(cmp_term('eq', a, b))
                nul = [T.isnull(x) for x in (a, b)]
                f = {n: self.rel(T, v, want, n, a, b) for n in IDMAP}
                pn = [any(isload(x, 'map.path', o) and T.isnull(x) for y in T.facts for x in subterms(y)) for o in (a, b)]
                if want:
                    if same_ is True or all(nul):
                        continue
                    miss = [n.split('.')[1] for n in IDMAP if f[n] is not True]
                    if miss:
                        self.bad(S, i, 'equal', 'two maps are equal although %s may differ' % ' and '.join(miss))
                else:
                    if same_ is True:
                        self.bad(S, i, 'equal', 'a map does not equal itself')
                    elif not any(nul) and not any(x is False for x in f.values()) and not any(pn):
                        self.bad(S, i, 'equal', 'two maps with the same attributes may be unequal')

        def rel(self, S, v, want, n, a, b):
            """do a and b agree in attribute n?"""
            r = None
            facts = list(S.facts.items())
            if v.k != 'i':
                facts.append((v, (want, want, ())))
            for t, (lo, hi, ne) in facts:
                # comparisons of the two loads, or of a string comparison with zero
                neg = False
                t = uncast(t)
                while t.k == 'not':
                    t, neg = t.a[0], not neg
                if t.k == 'cmp' and t.a[0] == 'eq' and lo == hi:
                    x, y = ext(t.a[1]), ext(t.a[2])
                    val = bool(lo) != neg
                    if {self.who(x, n, a, b), self.who(y, n, a, b)} == {'a', 'b'}:
                        if n == 'map.path' and not val:
                            continue            # different pointers say nothing
                        r = val
                    for p, q in ((x, y), (y, x)):
                        s = self.strcmp(p, a, b) if n == 'map.path' else None
                        if s and q is ZERO:
                            r = val if s == 'cmp' else not val
                s = self.strcmp(t, a, b) if n == 'map.path' else None
                if s:
                    if lo == hi == 0:
                        r = (s == 'cmp') != neg
                    elif lo > 0 or hi < 0 or 0 in ne:
                        r = (s != 'cmp') != neg
            return r

        def who(self, t, n, a, b):
            return None if t.k == 'cast' else 'a' if isload(t, n, a) else 'b' if isload(t, n, b) else None

        def strcmp(self, t, a, b):
            t = uncast(t)
            nm = t.a[1] if t.k == 'c' else t.a[0] if t.k == 'pure' else None
            if nm in ('strcmp', 'g_strcmp0', 'g_str_equal'):
                xs = [x for x in t.a if isinstance(x, Term)][-2:]
                if len(xs) == 2 and {self.who(x, 'map.path', a, b) for x in xs} == {'a', 'b'}:
                    return 'eq' if nm == 'g_str_equal' else 'cmp'
            return None
    c.sim('eq', Eq(), cap=20000)
    c.need('equality outcomes', 4)
    for i in c.flat('eq').instrs():
        if i.op == 'load':
            k = static_key(prog, c.flat('eq'), i.ops[0])
            if k[0] == 'F' and tag(k[1]) not in IDMAP:
                c.bad('equal', i.where(), 'equality depends on %s' % tag(k[1]))
    c.ok('maps are equal exactly when path, offset and length are')

    # ------------------------------------------------------------------ hash
    fh = c.flat('hash')
    tainted = {('a', 0)}
    paths = set()
    for i in fh.instrs():
        if i.op == 'load':
            k = static_key(prog, fh, i.ops[0])
            c.count('attributes read by the hash')
            if k[0] == 'F' and tag(k[1]) not in IDMAP or k[0] == 'G':
                c.bad('hash', i.where(), 'the hash of a map depends on %s' % (tag(k[1]) if k[0] == 'F' else k[1]))
            if k[0] == 'F' and tag(k[1]) == 'map.path':
                paths.add(('v', i.id))
    ptrs = {('a', 0)} | paths
    ch = True
    while ch:
        n0 = len(ptrs)
        for i in fh.instrs():
            if i.op in ('phi', 'select', 'gep') and any(tuple(o[:2]) in ptrs for o in (i.ops[1:] if i.op == 'select' else i.ops[:1] if i.op == 'gep' else i.ops)):
                ptrs.add(('v', i.id))
        ch = len(ptrs) != n0
    for i in fh.instrs():
        use = [o for o in i.ops if tuple(o[:2]) in ptrs]
        if not use:
            continue
        if i.op == 'call' and i.callee() not in ('g_str_hash', 'strlen', 'g_return_if_fail_warning', 'g_log') or i.op in ('ptrtoint', 'store', 'sub') or i.op == 'cast' and not str(i.ty).startswith('p'):
            c.bad('hash', i.where(), 'the hash of a map depends on an address, not on its attributes')
    for i in fh.calls():
        n = i.callee()
        if n and n not in api.PURE and n not in ('g_str_hash', 'g_direct_hash', 'g_int_hash', 'g_int64_hash', 'strlen', 'g_return_if_fail_warning', 'g_log') and not n.startswith('llvm.'):
            c.bad('hash', i.where(), 'the hash of a map depends on %s' % n)
    c.need('attributes read by the hash')
    c.ok('the hash of a map depends on its attributes alone')

    # ------------------------------------------------------------------ stores to the identity
    KEYS = {('F', '_preload_map_t.path'), ('F', '_preload_map_t.offset'), ('F', '_preload_map_t.length'), ('F', '_preload_exe_t.path')}
    STR = {('F', '_preload_map_t.path'), ('F', '_preload_exe_t.path')}
    IDS = {'struct._preload_map_t', 'struct._preload_exe_t'}
    roots = set()
    callers = {}
    for f in reach:
        for i in prog.fns[f].calls():
            if i.callee() in prog.fns:
                callers.setdefault(i.callee(), set()).add(f)
            for o in i.ops:
                if o[0] == 'fn' and o[1] in prog.fns:
                    callers.setdefault(o[1], set()).add(f)

    up = roots.add
    sites = set()
    for f in reach:
        fn = prog.fns[f]
        frees = set()
        for i in fn.instrs():
            hit = False
            if i.op == 'store' and static_key(prog, fn, i.ops[1]) in KEYS:
                hit = True
            elif i.op == 'call' and (i.callee() or '').startswith(('llvm.mem', 'mem')) and i.ops and i.ops[0][0] in ('v', 'a'):
                if any(j.op == 'fld' and j.x[0] in IDS and j.ops[0][:2] == i.ops[0][:2] for j in fn.instrs()):
                    hit = True
            elif i.op == 'call' and i.callee() in ('g_free', 'free', 'g_realloc') and pathload(prog, fn, i.ops[0], STR):
                hit = True
            if hit:
                c.count('stores to identities')
                sites.add(i.where())
                up(f)
            # text edited in place
            t = None
            if i.op == 'store':
                t = textof(prog, fn, i.ops[1], STR)
            elif i.op == 'call' and i.callee() in EDIT and EDIT[i.callee()] >= 0 and i.ops:
                t = textof(prog, fn, i.ops[0], STR) or pathload(prog, fn, i.ops[0], STR)
            if t:
                c.bad('changed', i.where(), 'the text of the path of a tracked object is changed in place')
    c.need('stores to identities', 4)
    rs = sorted(roots)

    class Fresh(Client):
        """auto: (('new', x) | ('freed text', x)...)"""
        def init(self):
            return ()

        def keep_atoms(self, S):
            return {a for e in S.auto for a in e[1].atoms}

        def idstore(self, S, i, x, what, v=None):
            c.count('identity stores judged')
            x = uncast(x)
            if ('out', x) in S.auto or not (x.k == 'c' and x.a[1] in ('g_malloc', 'g_malloc0', 'g_slice_alloc', 'g_slice_alloc0', 'malloc', 'calloc', 'g_malloc_n', 'g_malloc0_n') or x.k == 'A'):
                if v is ZERO:
                    S.auto = S.auto + (('cleared', x),)
                    return
                self.bad(S, i, 'changed', '%s of an object that may be indexed is changed' % what)

        def store(self, S, i, loc, v):
            if loc.k == 'fld' and ('F', loc.a[1]) in KEYS:
                self.reached.add(i.where())
                self.idstore(S, i, loc.a[0], tag(loc.a[1]), v)
                v = uncast(v)
                if ('F', loc.a[1]) in STR and v is not ZERO and not owned(self.sim.fn, v):
                    self.bad(S, i, 'key', 'an object is given a path it does not own')

        def pre_call(self, S, i, name, args, label):
            if name.startswith(('llvm.mem', 'mem')) and i.where() in sites:
                self.reached.add(i.where())
                self.idstore(S, i, args[0], 'the identity')
                return
            if name in ('g_free', 'free'):
                self.reached.add(i.where())
                x = uncast(args[0])
                l = unload(x)
                if l is not None and l.k == 'fld' and ('F', l.a[1]) in STR:
                    S.auto = S.auto + (('cleared', l.a[0]),)
                    return
                S.auto = tuple(e for e in S.auto if e[1] is not x)
                return
            for a in args:
                if isinstance(a, Term):
                    a = uncast(a)
                    if ('cleared', a) in S.auto and name not in ('g_log',):
                        self.bad(S, i, 'changed', 'an object whose path was released is passed to %s' % name)
                    if a.k == 'c' and (name in INS or name == 'g_ptr_array_add' or name in prog.fns):
                        S.auto = S.auto + (('out', a),)

        def ret(self, S, i, v):
            for e in S.auto:
                if e[0] == 'cleared':
                    self.bad(S, i, 'changed', 'the path of an object that is not released is gone')
    judged = upwards(c, Fresh, rs, 's:', callers)
    for w in sorted(sites - judged):
        c.bad('changed', w, 'the identity of an object is changed outside the analysed functions')
    c.need('identity stores judged', 2)
    c.ok('identities are written before an object is handed out, or on its release')

    # ------------------------------------------------------------------ keys
    c.load(JOBS)
    prog = c.prog
    roots.clear()
    want = set()
    for f in reach:
        fn = prog.fns[f]
        for i in fn.calls(*INS):
            c.count('insertions')
            want.add(i.where())
            up(f)
    c.need('insertions', 6)
    rs = sorted(roots)
    seen = set()

    def kindof(t):
        """(table key, properties) of a table term"""
        t = uncast(t)
        l = unload(t) if t.k != 'sl' else t.a[0]
        if l is not None:
            k = key_of(l)
            if k in tables:
                return k, tables[k]
        if t.k == 'c' and t.a[1] in ('g_hash_table_new', 'g_hash_table_new_full'):
            fs = [x.a[0] if x.k == 'fn' else None for x in t.a[2:]]
            return ('new', t), (PAIRS.get(tuple(fs[:2]), 'own'), fs[2] if len(fs) > 2 else None, '')
        return None, None

    class Keys(Client):
        def init(self):
            return ()

        def keep_atoms(self, S):
            return {a for e in S.auto for x in e[1:] for a in x.atoms} | {a for f in S.facts for a in f.atoms}

        def call(self, S, i, name, args, ret, label):
            if name in ('g_hash_table_lookup', 'g_hash_table_contains', 'g_hash_table_lookup_extended'):
                if S.isnull(ret) or label == 'absent' or True:
                    S.auto = S.auto + (('look', args[0], args[1], ret),)
            if name in ('g_free', 'free'):
                for e in S.auto:
                    if e[0] == 'key' and e[1] is uncast(args[0]):
                        self.bad(S, i, 'key', 'the key of an entry is released while the entry exists')
            if name not in INS:
                return
            self.reached.add(i.where())
            kn, vn = INS[name]
            k, info = kindof(args[0])
            key, val = uncast(args[kn]), uncast(args[vn])
            c.count('insertions judged')
            if info is None:
                return unknown.add(i.where())
            if info[0] == 'direct':
                return
            if info[1]:
                ok = owned(self.sim.fn, key)
                if not ok:
                    self.bad(S, i, 'key', 'a table that releases its keys is given one it does not own')
                elif any(e[0] == 'key' and e[1] is key for e in S.auto):
                    self.bad(S, i, 'key', 'one key is given to two entries')
                S.auto = S.auto + (('key', key),)
                return
            # borrowed keys belong to the value
            own = key is val or (unload(key) is not None and unload(key).k == 'fld' and unload(key).a[0] is val and ('F', unload(key).a[1]) in STR) or any(S.mem.get(mk('fld', val, n)) is key for _, n in STR) or info[0] == 'own' and name != 'g_hash_table_replace'
            if not own:
                self.bad(S, i, 'key', 'the key of an entry does not belong to the object that is entered')
            if name == 'g_hash_table_insert':
                new = any(e[0] == 'look' and same(e[1], args[0]) and (e[2] is args[kn] or same(e[2], args[kn])) and (S.isnull(e[3]) or S.truth(e[3]) is False) for e in S.auto)
                if not new:
                    self.bad(S, i, 'key', 'an entry may keep the key of the object it replaces')
    unknown = set()
    judged2 = upwards(c, Keys, rs, 'i:', callers)
    for w in sorted(want - judged2):
        c.bad('key', w, 'an insertion is not reached by the analysis')
    c.need('insertions judged', 6)
    c.ok('keys live as long as their entries')

    # ------------------------------------------------------------------ removal before release
    class Order(Client):
        def init(self):
            return ()

        def keep_atoms(self, S):
            return {a for e in S.auto for a in e[1].atoms}

        def call(self, S, i, name, args, ret, label):
            t = mk('arg', 0, self.sim.fn.args[0][0])
            if name in ('g_hash_table_lookup', 'g_hash_table_contains') and (uncast(args[1]) is t or unload(args[1]) is not None and unload(args[1]).k == 'fld' and unload(args[1]).a[0] is t):
                S.auto = S.auto + (('look', ret),)

        def pre_call(self, S, i, name, args, label):
            t = mk('arg', 0, self.sim.fn.args[0][0])
            if name in ('g_hash_table_remove', 'g_hash_table_steal', 'g_hash_table_steal_extended'):
                x = uncast(args[1])
                if x is t or unload(x) is not None and unload(x).k == 'fld' and unload(x).a[0] is t:
                    S.auto = S.auto + (('removed', t),)
            elif name in ('g_free', 'free', 'preload_exe_free'):
                x = uncast(args[0])
                if x is t or unload(x) is not None and unload(x).k == 'fld' and unload(x).a[0] is t:
                    c.count('releases judged')
                    if ('removed', t) not in S.auto and not any(e[0] == 'look' and S.isnull(e[1]) for e in S.auto):
                        self.bad(S, i, 'key', 'the memory of a key is released while the index holds it')
    for r in ('unref', 'unreg'):
        c.sim(unfold(c.flat(r), 1, 60000), Order(), [], cap=60000, depth=60)
    c.need('releases judged', 1)
    c.ok('entries leave the index before their keys are released')


def owned(fn, t):
    """memory that the caller was given"""
    return t.k == 'c' and t.a[1] in ALLOC or t.k == 'out' and t.a[0] in fn.ins and fn.ins[t.a[0]].callee() not in ('g_hash_table_iter_next', 'g_hash_table_lookup_extended')


def ext(t):
    while t.k == 'cast' and t.a[0] != 'trunc':
        t = t.a[3]
    return t


def upwards(c, cls, fs, pre, callers):
    """judge each function by itself, and one that is not clear by itself, and private, within those that call it"""
    fns = sorted(c.prog.fns)

    def job(f, open_):
        return pre + '+'.join((f,) + open_) + ' %s stop=%s' % (f, ','.join(g for g in fns if g != f and g not in open_))

    def judge(f, open_):
        a = cls()
        a.held, a.reached = [], set()
        a.bad = lambda S, i, r, m: a.held.append((r, i.where(), m))
        root = pre + '+'.join((f,) + open_)
        if root not in c.prog.flat:
            c.load(JOBS + [job(f, open_)])
        c.sim(unfold(c.flat(root), 1, 100000), a, LIVE, cap=30000, depth=60)
        every.update(a.reached)
        return a.held, a.reached
    every = set()
    c.load(JOBS + [job(f, ()) for f in fs])
    for f in fs:
        held = judge(f, ())[0]
        todo = [(f, ())] if held else []
        while todo:
            g, open_ = todo.pop()
            if c.prog.fns[g].internal and callers.get(g) and len(open_) < 4:
                for h in sorted(callers[g]):
                    try:
                        x, r = judge(h, (g,) + open_)
                    except Broken:
                        x = None
                    if x is None:
                        break
                    if not x and not {w for _, w, _ in held} <= r:
                        break
                    if x:
                        held = x
                        todo.append((h, (g,) + open_))
                else:
                    continue
            for r, w, m in held:
                c.bad(r, w, m)
            break
    return every


def pathload(prog, fn, o, STR):
    for _ in range(6):
        if o[0] != 'v':
            return False
        j = fn.ins[o[1]]
        if j.op == 'load':
            return static_key(prog, fn, j.ops[0]) in STR
        if j.op in ('cast',):
            o = j.ops[0]
            continue
        return False
    return False


def textof(prog, fn, o, STR):
    """does address o lie inside the text of an identity?"""
    for _ in range(8):
        if o[0] != 'v':
            return False
        j = fn.ins[o[1]]
        if j.op == 'gep' or j.op == 'cast':
            o = j.ops[0]
            continue
        if j.op == 'call' and j.callee() in ('strchr', 'strrchr', 'strstr', 'g_strrstr', 'g_strstr_len', 'memchr'):
            o = j.ops[0]
            continue
        if j.op == 'phi':
            return any(x != ['v', j.id] and x[0] == 'v' and fn.ins[x[1]].op != 'phi' and textof(prog, fn, x, STR) for x in j.ops)
        return j.op == 'load' and static_key(prog, fn, j.ops[0]) in STR
    return False
