"""Accounting analysis of preload_spy_update_model (flattened, unfolded): on every path, every program of the model known to be running
gets its time raised once by exactly the model time minus the previous accounting mark, one known not to run gets nothing; likewise every
chain, at exactly one of its two ends, exactly when both its programs run (state 3); afterwards the mark is the model time. Learning and
state changes come first. Running times are stored nowhere else except at creation (zero) and by the reader of the state file, which
sets the mark to the restored clock."""
from walk import *

STOP = 'stop=vomm_update,preload_is_vomm_algorithm,proc_get_maps,preload_exe_new,preload_state_register_exe,preload_markov_state_changed,preload_exemap_free,preload_exe_free,preload_map_free'
JOBS = ['upd preload_spy_update_model ' + STOP, 'read preload_state_read_file stop=preload_map_new,preload_exe_new,preload_exemap_new_from_exe,preload_markov_new,preload_state_register_exe,vomm_import_node,vomm_import_done,vomm_init']
TIMES = ('exe.time', 'markov.time')
MARK = 'state.last_accounting_timestamp'
KEYS = [('F', '_preload_exe_t.time'), ('F', '_preload_markov_t.time'), ('F', '_preload_state_t.last_accounting_timestamp')]


def lin(t, k=1, out=None):
    """linear combination {location or term: coefficient}; None when a narrow truncation intervenes"""
    if out is None:
        out = {}
    if t.k == 'cast':
        if t.a[0] == 'trunc' and t.a[2] in ('i1', 'i8', 'i16'):
            out[t] = out.get(t, 0) + k
            return out
        return lin(t.a[3], k, out)
    if t.k == 'i':
        out[None] = out.get(None, 0) + k * t.a[0]
    elif t.k == 'op' and t.a[0] in ('add', 'sub'):
        lin(t.a[1], k, out)
        lin(t.a[2], k if t.a[0] == 'add' else -k, out)
    elif t.k == 'op' and t.a[0] == 'mul' and (t.a[1].k == 'i' or t.a[2].k == 'i'):
        a, b = (t.a[1], t.a[2]) if t.a[1].k == 'i' else (t.a[2], t.a[1])
        lin(b, k * a.a[0], out)
    else:
        l = unload(t)
        key = fname(l) if l is not None and fname(l) in ('state.time', MARK) else t
        out[key] = out.get(key, 0) + k
    return out


def clean(d):
    return {k: v for k, v in d.items() if v}


class Upd(Walk):
    def __init__(self, do):
        self.do = do
        Walk.__init__(self, stores=set(TIMES) | {MARK, 'state.time'})

    def store(self, S, i, loc, v):
        f = self.field(loc)
        if f == MARK and not (isload(uncast(v), 'state.time') or isload(v, 'state.time')):
            self.bad(S, i, 'mark', 'the accounting mark is set to something else than the model time')
        if f in TIMES and any(e[0] == 'store' and e[1] == MARK for e in S.auto):
            self.bad(S, i, 'amount', 'time is added after the accounting mark was moved')
        return Walk.store(self, S, i, loc, v)

    def ret(self, S, i, v):
        self.do(self, S, i, S.auto)


def run(c):
    f = c.flat('upd')
    loops = {}
    for h, body, _ in f.loops():
        loops[h] = loops.get(h, frozenset()) | body

    def stores(body, names):
        return any(x.op == 'store' and key_of_store(c.prog, f, x) in names for b in body for x in f.blocks[b])

    def key_of_store(prog, fn, x):
        from sim import static_key
        k = static_key(prog, fn, x.ops[1])
        return tag(k[1]) if k[0] == 'F' else None

    def only(names):
        k = {h: 2 if stores(b, names) else 0 for h, b in loops.items()}
        if not any(k.values()):
            c.bad('programs' if names[0] == 'exe.time' else 'chains', 'preload_spy_update_model', 'no walk adds to %s' % ', '.join(names))
        return unfold(f, 2, loopk=k, maxblocks=60000)

    # ---- programs
    def amount(cl, S, i, e, what):
        d = clean(lin(e[2]))
        base = [k for k in d if isinstance(k, Term) and isload(k, what, e[3].a[0])]
        if len(base) != 1 or d.pop(base[0]) != 1 or d != {'state.time': 1, MARK: -1}:
            cl.bad(S, i, 'amount', 'the time added is not exactly the model time since the last accounting')

    def mark(cl, S, i, ev):
        m = [e for e in ev if e[0] == 'store' and e[1] == MARK]
        if not m:
            cl.bad(S, i, 'mark', 'the accounting mark is not moved')
        if any(e[0] == 'store' and e[1] == 'state.time' for e in ev):
            cl.bad(S, i, 'mark', 'the model time changes during the accounting')

    def exes(cl, S, i, ev):
        c.count('update paths')
        mark(cl, S, i, ev)
        walks = [w for w in hashwalks(ev) if isload(w[0], 'state.exes') and w[2]]
        st = [e for e in ev if e[0] == 'store' and e[1] == 'exe.time']
        if not walks:
            return cl.bad(S, i, 'programs', 'not every program is considered')
        seen = []
        for w in walks:
            seen += [x for k, x in w[1] if not any(same(x, y) for y in seen)]
        for x in seen:
            n = [e for e in st if same(e[3].a[0], x)]
            r = running(S, x)
            if r is None:
                if n:
                    cl.bad(S, i, 'programs', 'a program is charged time without asking whether it runs')
                elif any(w[2] and any(same(x, y) for k, y in w[1]) for w in walks) and len(walks) == 1:
                    cl.bad(S, i, 'programs', 'a program is passed over without asking whether it runs')
            elif r:
                c.count('running programs charged')
                if len(n) != 1:
                    cl.bad(S, i, 'programs', 'a running program is charged %d times' % len(n))
            elif n:
                cl.bad(S, i, 'programs', 'a program that does not run is charged time')
            for e in n:
                amount(cl, S, i, e, 'exe.time')
        for e in st:
            if not any(same(e[3].a[0], x) for x in seen):
                cl.bad(S, i, 'programs', 'time is charged to a program outside the walk over the model')
    c.sim(only(('exe.time',)), Upd(exes), KEYS, cap=20000, depth=60)
    c.viols or c.need('running programs charged')

    # ---- chains: exactly one end of every chain charges it
    roles = {}

    def chains(cl, S, i, ev):
        c.count('update paths')
        mark(cl, S, i, ev)
        st = [e for e in ev if e[0] == 'store' and e[1] == 'markov.time']
        walks = [w for w in hashwalks(ev) if isload(w[0], 'state.exes') and w[2]]
        if not walks:
            return cl.bad(S, i, 'chains', 'the chains are not gone through')
        arr = arrwalks(S, ev)
        charged = []
        for w in walks:
            for key, exe in w[1]:
                A = [(a, x) for a, x in arr.items() if isload(a, 'exe.markovs') and same(unload(a).a[0], exe)]
                for a, (els, comp) in A:
                    if not comp:
                        cl.bad(S, i, 'chains', 'not all chains of a program are gone through')
                    for k in els.values():
                        n = [e for e in st if same(e[3].a[0], k)]
                        charged += n
                        role = None
                        for t, (lo, hi, ne) in S.facts.items():
                            if t.k == 'cmp' and t.a[0] == 'eq' and lo == hi:
                                for p, q in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                                    for r, o in (('a', 'b'), ('b', 'a')):
                                        if isload(p, 'markov.' + r) and same(unload(p).a[0], k) and same(q, exe):
                                            role = r if lo else o
                        both = chainstate(S, k)
                        if both is None and n:
                            cl.bad(S, i, 'chains', 'a chain is charged time without asking whether both its programs run')
                        if both is False and n:
                            cl.bad(S, i, 'chains', 'a chain is charged although not both its programs run')
                        if len(n) > 1:
                            cl.bad(S, i, 'chains', 'a chain is charged %d times' % len(n))
                        for e in n:
                            amount(cl, S, i, e, 'markov.time')
                        if both:
                            c.count('running chains judged')
                            roles.setdefault(role, set()).add(len(n))
                        elif both is None:
                            roles.setdefault(role, set()).add(0)
                if not A and not any(t.k == 'ld' and t.a[1].k == 'fld' and t.a[1].a[1] == '_GPtrArray.len' and isload(t.a[1].a[0], 'exe.markovs') and same(unload(t.a[1].a[0]).a[0], exe) and S.rng(t)[1] == 0
                                     for g in list(S.facts) + list(S.mem.values()) for t in subterms(g)):
                    cl.bad(S, i, 'chains', 'the chains of a program are not gone through')
        for e in st:
            if not any(e is x for x in charged):
                cl.bad(S, i, 'chains', 'time is charged to a chain outside the walk over all chains')

    def chainstate(S, k):
        for t in list(S.facts):
            for x in subterms(t):
                if isload(x, 'markov.state') and x.k != 'cast' and same(unload(x).a[0], k):
                    lo, hi, ne = S.rng(x)
                    if lo == hi == 3:
                        return True
                    if 3 in ne or lo > 3 or hi < 3:
                        return False
        r = []
        for e in ('a', 'b'):
            v = None
            for t in list(S.facts):
                for x in subterms(t):
                    if isload(x, 'markov.' + e) and x.k != 'cast' and same(unload(x).a[0], k):
                        q = running(S, x)
                        v = q if q is not None else v
            r.append(v)
        return True if r == [True, True] else False if False in r else None
    c.sim(only(('markov.time',)), Upd(chains), KEYS, cap=20000, depth=60)
    c.viols or c.need('running chains judged')
    got = sorted((str(k), sorted(v)) for k, v in roles.items())
    if got not in ([('a', [1]), ('b', [0])], [('a', [0]), ('b', [1])]):
        c.bad('chains', 'preload_spy_update_model', 'a chain whose programs both run is not charged at exactly one of its ends (%s)' % ', '.join('%s: %s' % (k, '/'.join(map(str, v))) for k, v in got))
    c.ok('every running program and chain is charged the elapsed time once')

    # ---- order: learning, then state changes, then accounting
    class Order(Client):
        def init(self):
            return 0

        def step(self, S, i, n, what):
            if n < S.auto:
                self.bad(S, i, 'order', what)
            S.auto = max(n, S.auto)

        def call(self, S, i, name, args, ret, label):
            if name == 'preload_state_register_exe':
                self.ctx.count('registrations ordered')
                self.step(S, i, 1, 'a program is registered after chain states were updated or time was added')
            elif name == 'preload_markov_state_changed':
                self.ctx.count('state changes ordered')
                self.step(S, i, 2, 'a chain state is updated after time was added')

        def store(self, S, i, loc, v):
            if loc.k == 'fld' and tag(loc.a[1]) in TIMES:
                self.step(S, i, 3, '')
    c.sim('upd', Order())
    for n in ('registrations ordered', 'state changes ordered'):
        c.need(n)
    c.ok('registration < state changes < accounting')

    # ---- nothing else adds running time
    cg = c.prog.callgraph()

    def reach(cut):
        seen, w = set(), ['main'] + [g for g in STOP[5:].split(',') if g in c.prog.fns]
        while w:
            x = w.pop()
            if x not in seen and x not in cut:
                seen.add(x)
                w.extend(cg.get(x, ()))
        return seen
    rest = reach({'preload_spy_update_model', 'preload_state_read_file'})
    n = 0
    for fn in c.prog.fns.values():
        for x in fn.instrs():
            if x.op != 'store':
                continue
            from sim import static_key
            k = static_key(c.prog, fn, x.ops[1])
            if k[0] != 'F' or tag(k[1]) not in TIMES + (MARK,):
                continue
            n += 1
            zero = x.ops[0][0] in ('i', 'n') and (x.ops[0][0] == 'n' or x.ops[0][1] == 0)
            if not zero and fn.name in rest:
                c.bad('elsewhere', fn.name, '%s is changed outside the accounting and the reading of the state file' % tag(k[1]))
    c.count('stores of running times inspected', n)
    c.need('stores of running times inspected', 3)
    c.ok('no other code adds running time')

    # ---- reading: the mark is the restored clock
    class Read(Client):
        def init(self):
            return ()

        def keep_atoms(self, S):
            return {a for x in S.auto for a in x[1].atoms}

        def store(self, S, i, loc, v):
            for n in ('state.time', MARK):
                if isfld(loc, n):
                    S.auto = tuple(x for x in S.auto if x[0] != n) + ((n, uncast(v)),)

        def ret(self, S, i, v):
            m = dict(S.auto)
            if 'state.time' in m:
                self.ctx.count('restored clocks')
                if MARK not in m:
                    self.bad(S, i, 'restored', 'the clock is restored without the accounting mark')
                elif not same(m[MARK], m['state.time']) and not isload(m[MARK], 'state.time'):
                    self.bad(S, i, 'restored', 'the accounting mark is not the restored clock')
            elif MARK in m:
                self.bad(S, i, 'restored', 'the accounting mark is restored without the clock')
    c.sim('read', Read())
    c.need('restored clocks')
    c.ok('the accounting mark is restored with the clock')
