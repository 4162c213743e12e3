"""Classification analysis of a scan (flattened, unfolded, list contents followed node by node). preload_spy_scan: the lists the scan
callback adds to start empty, the known programs of the running list are divided into still running and stopped after the seen mark is
set, and the new running list is exactly the started plus the still running ones. The callback given to proc_foreach (found, not
named): a known program gets the current time as its stamp, and is queued as started and changed, once, and reported to the sequence
model, once, exactly when it was not running; an unknown one is queued for learning exactly when it is not known as uninteresting.
preload_spy_update_model: a learned program is registered as running, listed and reported once; every changed program is brought up to
date once. preload_state_load: a program is listed and reported once, however many processes it has."""
from walk import *

VS = 'vomm_update,preload_is_vomm_algorithm'
LISTS = [('F', '_GSList.data'), ('F', '_GSList.next'), ('F', '_GList.data'), ('F', '_GList.next'), ('F', '_preload_state_t.running_exes'), ('F', '_preload_exe_t.running_timestamp')]
BASE = ['scan preload_spy_scan stop=proc_foreach', 'load preload_state_load stop=preload_state_read_file,proc_foreach,proc_get_memstat,preload_markov_foreach',
        'upd preload_spy_update_model stop=' + VS + ',proc_get_maps,preload_exe_new,preload_state_register_exe,preload_markov_state_changed,preload_markov_foreach,preload_exemap_free,preload_exe_free,preload_map_free']
JOBS = BASE


def chain(S, v):
    """(data added in front, what the list was before); None when the list cannot be followed"""
    out = []
    while True:
        if v.k == 'c' and v.a[1] == 'g_malloc':
            d = n = None
            for k, x in S.mem.items():
                if k.k == 'fld' and k.a[0] is v and k.a[1] in ('_GSList.data', '_GList.data'):
                    d = x
                if k.k == 'fld' and k.a[0] is v and k.a[1] in ('_GSList.next', '_GList.next'):
                    n = x
            if d is None or n is None:
                return None
            out.append(d)
            v = n
        elif v.k == 'c' and v.a[1] in ('g_slist_append', 'g_list_append', 'g_slist_insert_sorted'):
            out.append(v.a[3])
            v = v.a[2]
        elif v.k == 'c' and v.a[1] in ('g_slist_reverse', 'g_list_reverse'):
            v = v.a[2]
        elif v.k == 'c' and v.a[1] in ('g_slist_concat', 'g_list_concat'):
            x = chain(S, v.a[2])
            if x is None or x[1] is not ZERO and not S.isnull(x[1]):
                y = chain(S, v.a[3])
                if x is None or y is None or not S.isnull(y[1]):
                    return None
                return out + x[0] + y[0], x[1]
            out += x[0]
            v = v.a[3]
        elif v.k == 'cast':
            v = v.a[3]
        else:
            return out, v


def stamp(t):
    """t is the current model time"""
    return isload(uncast(t), 'state.time') or isload(t, 'state.time')


class Paths(Walk):
    def __init__(self, do, **kw):
        self.do = do
        Walk.__init__(self, calls=lambda n: n not in api.PURE and n not in ('g_log', 'g_malloc'), **kw)

    def ret(self, S, i, v):
        self.do(self, S, i, S.auto)


def lists(S):
    """every location that holds a list this path extended: {location: (added, base)}"""
    out = {}
    for k, v in S.mem.items():
        if root(k).k in ('g', 'c', 'ld') and k.k in ('g', 'fld') and not (k.k == 'fld' and k.a[1].split('.')[0] in ('_GSList', '_GList')):
            x = chain(S, v)
            if x is None:
                out[k] = None
            elif x[0]:
                out[k] = x
    return out


def walkedlist(S, ev, base):
    """(data of the nodes gone through, complete?) for the list that starts at node `base`"""
    els, n, guard = [], base, 0
    while guard < 20:
        guard += 1
        if S.isnull(n):
            return els, True
        d = [e[2] for e in ev if e[0] == 'node' and e[1] is n]
        if not d:
            return els, False
        els.append(d[0])
        nx = [x for k, x in S.mem.items() if k.k == 'fld' and k.a[0] is n and k.a[1] in ('_GSList.next', '_GList.next')]
        if not nx:
            nx = [x for f in S.facts for x in subterms(f) if x.k == 'ld' and x.a[1].k == 'fld' and x.a[1].a[0] is n and x.a[1].a[1] in ('_GSList.next', '_GList.next')]
        if not nx:
            return els, False
        n = nx[0]
    return els, False


def seenmark(S, x, mark):
    """is the stamp of x known to be at least / below the new mark?"""
    for f, (lo, hi, ne) in S.facts.items():
        if f.k == 'cmp' and f.a[0] == 'slt' and lo == hi:
            a, b = f.a[1], f.a[2]
            ism = lambda t: t is mark or uncast(t) is uncast(mark) or isload(t, 'state.last_running_timestamp') or stamp(t)
            if isload(a, 'exe.running_timestamp', x) and ism(b):
                return not lo
            if isload(b, 'exe.running_timestamp', x) and ism(a) and lo:
                return True
        if f.k == 'cmp' and f.a[0] == 'eq' and lo == hi == 1:
            for a, b in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if isload(a, 'exe.running_timestamp', x) and (b is mark or stamp(b)):
                    return True
    return None


def run(c):
    info = {}

    # ------------------------------------------------------------------ the scan
    def scan(cl, S, i, ev):
        c.count('scan paths')
        pf = [n for n, e in enumerate(ev) if e[0] == 'call' and e[1] == 'proc_foreach']
        if len(pf) != 1:
            return cl.bad(S, i, 'scan', 'a scan goes through the processes %d times' % len(pf))
        cb = ev[pf[0]][2][0]
        if cb.k != 'fn':
            return cl.bad(S, i, 'scan', 'the callback of the scan is not known')
        info['cb'] = cb.a[0]
        marks = [(n, e) for n, e in enumerate(ev) if e[0] == 'store' and e[1] == 'state.last_running_timestamp']
        if len(marks) != 1 or marks[0][0] < pf[0] or not stamp(marks[0][1][2]):
            return cl.bad(S, i, 'mark', 'the seen mark is not moved to the current time once after the processes were gone through')
        mark = marks[0][1][2]
        st = [e for e in ev if e[0] == 'store' and e[1] == 'state.running_exes']
        if not st:
            return cl.bad(S, i, 'running', 'a scan does not replace the running list')
        old = [e[1] for e in ev if e[0] == 'node' and isload(e[1], 'state.running_exes')]
        heads = [x for f in list(S.facts) + [e[1] for e in ev if e[0] == 'node'] for x in subterms(f) if isload(x, 'state.running_exes') and x.k != 'cast']
        if not heads:
            return cl.bad(S, i, 'running', 'the programs running before are not gone through')
        els, complete = walkedlist(S, ev, heads[0])
        if not complete:
            return cl.bad(S, i, 'running', 'not all programs running before are gone through')
        if any(e[0] == 'node' and n < marks[0][0] for n, e in enumerate(ev)):
            return cl.bad(S, i, 'mark', 'the programs running before are judged before the seen mark is moved')
        final = chain(S, st[-1][2])
        if final is None:
            return cl.bad(S, i, 'running', 'the new running list cannot be followed')
        info.setdefault('rlist', set()).add(final[1])
        added = lists(S)
        runs = final[0]
        stops = [d for k, x in added.items() if x and not isfld(k, 'state.running_exes') for d in x[0] if k is not None and x[1] is not final[1]]
        for k, x in added.items():
            if x is not None and not isfld(k, 'state.running_exes') and x[1] is not final[1]:
                info.setdefault('clist', set()).add(unload(x[1]) if unload(x[1]) is not None else k)
        for d in els:
            c.count('programs judged after the scan')
            r = seenmark(S, d, mark)
            a, b = len([x for x in runs if same(x, d)]), len([x for x in stops if same(x, d)])
            if r is None:
                cl.bad(S, i, 'running', 'a program is classified without asking whether it was seen')
            elif r and (a, b) != (1, 0):
                cl.bad(S, i, 'running', 'a program that is still running is listed %d times as running and %d times as changed' % (a, b))
            elif not r and (a, b) != (0, 1):
                cl.bad(S, i, 'stopped', 'a program that has stopped is listed %d times as running and %d times as changed' % (a, b))
        for x in runs + stops:
            if not any(same(x, d) for d in els):
                cl.bad(S, i, 'running', 'a program is listed that is neither seen nor known')
        # no second owner of the new running list
        if st[-1][2] is not ZERO and not S.isnull(st[-1][2]):
            for k, v in S.mem.items():
                if v is st[-1][2] and not isfld(k, 'state.running_exes') and not (k.k == 'fld' and k.a[1].split('.')[0] in ('_GSList', '_GList')) and root(k).k == 'g':
                    cl.bad(S, i, 'alias', 'the running list is still held by %s, which the next scan releases' % show(k))

    class Scan(Paths):
        def pre_call(self, S, i, name, args, label):
            if name == 'proc_foreach':
                S.auto = S.auto + (('lists', tuple((k, v) for k, v in S.mem.items() if k.k == 'g' or root(k).k == 'g')),)
    sl = [('G', g) for g in c.prog.globals if not c.prog.globals[g].get('const')]
    STORES = {'exe.running_timestamp', 'state.last_running_timestamp', 'state.running_exes'}
    c.sim(unfold(c.flat('scan'), 2), Scan(scan, stores=STORES), LISTS + sl, cap=20000, depth=60)
    c.need('scan paths')
    c.need('programs judged after the scan')
    c.ok('preload_spy_scan: still running, started and stopped are told apart for every program')
    R = {unload(x) for x in info.get('rlist', ()) if unload(x) is not None}
    if len(R) != 1:
        return c.bad('running', 'preload_spy_scan', 'the new running list does not start from the programs the scan found started')
    R = R.pop()

    # the lists the callback extends are empty when it starts
    def fresh(cl, S, i, ev):
        for e in ev:
            if e[0] == 'lists':
                m = dict(e[1])
                c.count('scans with known initial lists')
                for loc in [R] + list(info.get('clist', ())):
                    if m.get(loc) is None or not S.isnull(m[loc]):
                        cl.bad(S, i, 'fresh', '%s is not empty when a scan starts' % show(loc))
    c.sim(unfold(c.flat('scan'), 1), Scan(fresh, stores=STORES), LISTS + sl, cap=20000, depth=60)

    # ------------------------------------------------------------------ the callback
    c.load(BASE + ['cb %s stop=%s' % (info['cb'], VS)])

    def cb(cl, S, i, ev):
        path = mk('arg', 1, cl.sim.fn.args[1][0])
        if S.isnull(path):
            if any(e[0] == 'store' for e in ev) or lists(S):
                cl.bad(S, i, 'callback', 'something is recorded for a process without a program')
            return
        c.count('callback paths')
        look = lambda f: [e for e in ev if e[0] == 'call' and e[1] in ('g_hash_table_lookup', 'g_hash_table_lookup_extended', 'g_hash_table_contains') and isload(e[2][0], f) and uncast(e[2][1]) is path]
        ex = look('state.exes')
        if not ex or ex[0][1] != 'g_hash_table_lookup':
            return cl.bad(S, i, 'callback', 'a process is classified without looking its program up')
        x = ex[0][3]
        added = lists(S)
        if None in added.values():
            return cl.bad(S, i, 'callback', 'a list cannot be followed')
        stamps = [e for e in ev if e[0] == 'store' and e[1] == 'exe.running_timestamp']
        vomm = [e for e in ev if e[0] == 'call' and e[1] == 'vomm_update']
        ins = [e for e in ev if e[0] == 'call' and e[1] in ('g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_add')]
        if S.isnull(x):
            bad = look('state.bad_exes')
            known = None
            for e in bad:
                if e[1] == 'g_hash_table_lookup_extended':
                    known = e[4] == 'found'
                elif S.isnull(e[3]):
                    known = False
                elif S.nonnull(e[3]):
                    known = True
            if stamps or vomm or added:
                cl.bad(S, i, 'unknown', 'an unknown program is treated as a known one')
            if known is None:
                cl.bad(S, i, 'unknown', 'an unknown program is queued or dropped without asking whether it is uninteresting')
            elif known and ins:
                cl.bad(S, i, 'unknown', 'an uninteresting program is queued for learning again')
            elif not known:
                c.count('unknown programs')
                key = lambda t: t.k == 'c' and t.a[1] in ('g_strdup',) and t.a[2] is path
                pid = mk('arg', 0, cl.sim.fn.args[0][0])
                if len(ins) != 1 or not key(ins[0][2][1]) or uncast(ins[0][2][2]) is not pid or isload(ins[0][2][0], 'state.exes') or isload(ins[0][2][0], 'state.bad_exes'):
                    cl.bad(S, i, 'unknown', 'an unknown program is not queued for learning with its own name and process')
                else:
                    info.setdefault('queue', set()).add(unload(ins[0][2][0]))
            return
        if not S.nonnull(x):
            return cl.bad(S, i, 'callback', 'a program is used without knowing that it was found')
        c.count('known programs')
        if ins:
            cl.bad(S, i, 'known', 'a known program is queued for learning')
        if len(stamps) < 1 or any(s[3].a[0] is not x for s in stamps) or not stamp(stamps[-1][2]):
            cl.bad(S, i, 'stamp', 'the stamp of a running program is not set to the current time')
        r = running(S, x)
        per = {k: v[0] for k, v in added.items()}
        if r is None:
            if added or vomm:
                cl.bad(S, i, 'started', 'a program is queued as started without asking whether it was running')
            else:
                cl.bad(S, i, 'started', 'a program is taken as running without asking')
        elif r:
            if added or vomm:
                cl.bad(S, i, 'started', 'a program that was running already is queued or reported as started')
        else:
            c.count('starts')
            if per.get(R) != [x]:
                cl.bad(S, i, 'started', 'a started program is not put on the running list once')
            other = [k for k in per if k is not R]
            if len(other) != 1 or per[other[0]] != [x]:
                cl.bad(S, i, 'started', 'a started program is not put on the list of changed programs once')
            else:
                info.setdefault('changed', set()).add(other[0])
            al = [e[3] for e in ev if e[0] == 'call' and e[1] == 'preload_is_vomm_algorithm']
            want = None if not al else False if S.isnull(al[0]) else True if S.nonnull(al[0]) else None
            if want is None and len(vomm) == 1 and vomm[0][2][0] is x:
                want = True         # told unconditionally: the model itself ignores it when not in use
            if want is None or want and [v[2][0] for v in vomm] != [x] or not want and vomm:
                cl.bad(S, i, 'report', 'a start is reported %d times to the sequence model' % len(vomm))
    c.sim('cb', Paths(cb, stores=STORES), LISTS + sl, cap=20000, depth=60)
    for n in ('callback paths', 'known programs', 'starts', 'unknown programs'):
        c.need(n)
    if info.get('changed') != info.get('clist') and info.get('clist'):
        c.bad('changed', info['cb'], 'started and stopped programs are queued in different lists')
    c.ok('%s: every process is classified once' % info['cb'])

    # ------------------------------------------------------------------ learning and changes
    C = next(iter(info.get('changed', {None})))
    Q = next(iter(info.get('queue', {None})))

    def upd(cl, S, i, ev):
        c.count('update paths')
        walks = [w for w in hashwalks(ev) if unload(w[0]) is Q]
        if not any(w[2] for w in walks):
            return cl.bad(S, i, 'learn', 'not every queued program is considered for learning')
        news = [e[3] for e in ev if e[0] == 'call' and e[1] == 'preload_exe_new']
        rn = [e for e in ev if e[0] == 'store' and e[1] == 'state.running_exes']
        ch = chain(S, rn[-1][2]) if rn else ([], None)
        if ch is None:
            return cl.bad(S, i, 'learn', 'the running list cannot be followed')
        for e in [e for e in ev if e[0] == 'call' and e[1] == 'preload_exe_new']:
            x = e[3]
            c.count('programs learned')
            keys = [k for w in walks for k, v in w[1]]
            if not any(uncast(e[2][0]) is k for k in keys):
                cl.bad(S, i, 'learn', 'a program is learned under another name than it was seen with')
            if not S.nonnull(e[2][1]):
                cl.bad(S, i, 'learn', 'a program learned from a running process does not start as running')
            if len([1 for d in ch[0] if d is x]) != 1:
                cl.bad(S, i, 'learn', 'a learned program is not put on the running list once')
            reg = [f for f in ev if f[0] == 'call' and f[1] == 'preload_state_register_exe' and f[2][0] is x]
            if len(reg) != 1 or not S.nonnull(reg[0][2][1]):
                cl.bad(S, i, 'learn', 'a learned program is not registered once with its chains')
            al = [f[3] for n, f in enumerate(ev) if f[0] == 'call' and f[1] == 'preload_is_vomm_algorithm' and n > ev.index(e)]
            vomm = [f for f in ev if f[0] == 'call' and f[1] == 'vomm_update' and f[2][0] is x]
            want = None if not al else False if S.isnull(al[0]) else True if S.nonnull(al[0]) else None
            if want is None and len(vomm) == 1:
                want = True
            if want is None or len(vomm) != int(want):
                cl.bad(S, i, 'report', 'the start of a learned program is reported %d times to the sequence model' % len(vomm))
        for d in ch[0]:
            if not any(d is x for x in news):
                cl.bad(S, i, 'running', 'a program is put on the running list without having been learned')
        if rn and not (ch[1] is not None and isload(ch[1], 'state.running_exes')):
            cl.bad(S, i, 'running', 'the running list is replaced by an update')
        for f in ev:
            if f[0] == 'call' and f[1] == 'vomm_update' and not any(f[2][0] is x for x in news):
                cl.bad(S, i, 'report', 'a start is reported to the sequence model that was not seen')
            if f[0] == 'store' and f[1] == 'exe.running_timestamp':
                cl.bad(S, i, 'stamp', 'the stamp of a program is changed outside a scan')
        # the queue is emptied
        q = S.mem.get(Q)
        if q is None or not S.isnull(q) and not (q.k == 'c' and q.a[1].startswith('g_hash_table_new')):
            cl.bad(S, i, 'learn', 'the queue of programs to learn is not emptied')

    def chg(cl, S, i, ev):
        heads = [e[1] for e in ev if e[0] == 'node' and unload(e[1]) is C] + [x for f in S.facts for x in subterms(f) if unload(x) is C and x.k != 'cast']
        if not heads:
            return cl.bad(S, i, 'changes', 'changed programs are not gone through')
        els, complete = walkedlist(S, ev, heads[0])
        if not complete:
            return cl.bad(S, i, 'changes', 'not every changed program is gone through')
        c.count('update paths with changes', len(els))
        q = S.mem.get(C)
        if q is None or not S.isnull(q):
            cl.bad(S, i, 'changes', 'the list of changed programs is not emptied')
        for d in els:
            st = [e for e in ev if e[0] == 'store' and e[1] == 'exe.change_timestamp' and same(e[3].a[0], d)]
            if len(st) != 1 or not stamp(st[0][2]):
                cl.bad(S, i, 'changes', 'the change stamp of a changed program is not set to the current time')
            arr = [(a, x) for a, x in arrwalks(S, ev).items() if isload(a, 'exe.markovs') and same(unload(a).a[0], d)]
            for a, (els2, comp) in arr:
                if not comp:
                    cl.bad(S, i, 'changes', 'not every chain of a changed program is brought up to date')
                for k in els2.values():
                    if len([1 for e in ev if e[0] == 'call' and e[1] == 'preload_markov_state_changed' and e[2][0] is k]) != 1:
                        cl.bad(S, i, 'changes', 'a chain of a changed program is not brought up to date once')
            if not arr and not any(t.k == 'ld' and t.a[1].k == 'fld' and t.a[1].a[1] == '_GPtrArray.len' and isload(t.a[1].a[0], 'exe.markovs') and same(unload(t.a[1].a[0]).a[0], d) and S.rng(t)[1] == 0
                                   for f in list(S.facts) + list(S.mem.values()) for t in subterms(f)):
                cl.bad(S, i, 'changes', 'the chains of a changed program are not gone through')
    f = c.flat('upd')

    def shape(pred):
        loops, k = {}, {}
        for h, body, _ in f.loops():
            loops[h] = loops.get(h, frozenset()) | body
        for h, body in loops.items():
            k[h] = 2 if pred(body) else 0
        return unfold(f, 2, loopk=k, maxblocks=60000)
    calls = lambda body: {x.callee() for b in body for x in f.blocks[b] if x.op == 'call'}
    learn = shape(lambda b: calls(b) & {'preload_exe_new'})
    c.sim(learn, Paths(upd, stores=STORES), LISTS + sl, cap=20000, depth=60)
    change = shape(lambda b: calls(b) & {'preload_markov_state_changed'})
    c.sim(change, Paths(chg, stores=STORES | {'exe.change_timestamp'}), LISTS + sl + [('F', '_preload_exe_t.change_timestamp')], cap=20000, depth=60)
    for n in ('update paths', 'programs learned', 'update paths with changes'):
        c.need(n)
    c.ok('preload_spy_update_model: learned programs and changes')

    # ------------------------------------------------------------------ start-up
    ld = []

    class L(Trace):
        def call(self, S, i, name, args, ret, label):
            if name == 'proc_foreach':
                ld.append(args[0])
    c.sim('load', L())
    fns = {t.a[0] for t in ld if t.k == 'fn'}
    if len(fns) != 1:
        return c.bad('start-up', 'preload_state_load', 'the running processes are not gone through at start-up')
    sc = fns.pop()
    c.load(BASE + ['cb0 %s stop=%s' % (sc, VS)])

    def cb0(cl, S, i, ev):
        c.count('start-up paths')
        path = mk('arg', 1, cl.sim.fn.args[1][0])
        ex = [e for e in ev if e[0] == 'call' and e[1] == 'g_hash_table_lookup' and isload(e[2][0], 'state.exes') and uncast(e[2][1]) is path]
        stamps = [e for e in ev if e[0] == 'store' and e[1] == 'exe.running_timestamp']
        vomm = [e for e in ev if e[0] == 'call' and e[1] == 'vomm_update']
        added = lists(S)
        if None in added.values():
            return cl.bad(S, i, 'start-up', 'a list cannot be followed')
        per = {k: v[0] for k, v in added.items()}
        if not ex or S.isnull(ex[0][3]):
            if stamps or vomm or added:
                cl.bad(S, i, 'start-up', 'an unknown program is treated as a known one')
            if not ex and not S.isnull(path):
                cl.bad(S, i, 'start-up', 'a process is not looked up')
            return
        x = ex[0][3]
        r = running(S, x)
        if r is None:
            return cl.bad(S, i, 'start-up', 'a program with several processes is listed and reported once for each')
        if r:
            if added or vomm:
                cl.bad(S, i, 'start-up', 'a program with several processes is listed and reported once for each')
            return
        c.count('programs found running at start-up')
        if len(stamps) < 1 or any(s[3].a[0] is not x for s in stamps) or not (stamp(stamps[-1][2]) or uncast(stamps[-1][2]).k == 'arg' and uncast(stamps[-1][2]).a[0] == 2):
            cl.bad(S, i, 'start-up', 'the stamp of a running program is not set to the current time')
        if len(per) != 1 or list(per.values())[0] != [x] or not isfld(list(per)[0], 'state.running_exes'):
            cl.bad(S, i, 'start-up', 'a running program is not put on the running list once')
        if len(vomm) > 1 or any(v[2][0] is not x for v in vomm):
            cl.bad(S, i, 'start-up', 'a start is reported more than once')
    c.sim('cb0', Paths(cb0, stores=STORES), LISTS + sl, cap=20000, depth=60)
    c.need('programs found running at start-up')
    c.ok('start-up: a running program is listed and reported once')
