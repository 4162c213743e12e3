"""Error-path analysis of loading the state file.  The whole load operation is flattened (readers and everything they call inlined) and
propagated path-sensitively; an automaton follows, for the record at hand, the tag it was recognised by, the conversions and look-ups that
are still undecided and whether the record is known to be unacceptable.  A record with a failed conversion, a foreign or missing tag,
an unknown reference or a reused identity may not be followed by reading another line and must make the load return an error; nothing absent
is dereferenced or handed on; tables are inserted into only after a failed look-up of the same key; no internal assertion is
reachable.  The automaton counts the first lines: nothing is taken over, and loading goes on, only after a header of the same major version
in the first line and nowhere else; a foreign header makes the load return success; the number in the error is that of the line."""
from lib import *
from unfold import unfold

ROOT = 'preload_state_read_file'
STOP = ['vomm_import_node', 'vomm_import_done', 'preload_markov_foreach']
JOBS = ['read %s stop=%s' % (ROOT, ','.join(STOP)), 'load preload_state_load stop=' + ROOT]
NEW, REF, SKIP = {'MAP', 'EXE'}, {'EXEMAP', 'MARKOV'}, {'VOMMNODE'}
HEADER, MANY = 'PRELOAD', 4
PRINTF = {'g_strdup_printf': 0, 'g_string_printf': 1, 'g_string_append_printf': 1, 'snprintf': 2, 'sprintf': 1}
ASSERT = {'g_return_if_fail_warning', 'g_assertion_message_expr', 'g_assertion_message', 'g_assert_warning', '__assert_fail', 'abort', 'g_warn_message'}
MAYBE = {'g_hash_table_lookup', 'g_filename_from_uri', 'g_io_channel_new_file', 'fopen', 'g_strsplit', 'strchr', 'strstr'}
LINE = {'g_io_channel_read_line_string', 'g_io_channel_read_line', 'fgets', 'getline', 'g_data_input_stream_read_line'}


def conversions(fmt):
    n = 0
    for m in re.finditer(r'%(\*?)(\d*)(?:hh|h|ll|l|q|L|z|j|t)*(\[\^?\]?[^\]]*\]|.)', fmt):
        if m.group(3) not in ('%', 'n') and not m.group(1):
            n += 1
    return n


def tagtest(name, args):
    """(tested text term, constant, value meaning equality) of a comparison with a constant"""
    if name in ('strcmp', 'g_str_equal', 'strncmp', 'g_ascii_strcasecmp'):
        a, b = args[0], args[1]
        if a.k == 's':
            a, b = b, a
        if b.k == 's' and a.k != 's' and (name != 'strncmp' or args[2].k == 'i' and args[2].a[0] > len(b.a[0])) and name != 'g_ascii_strcasecmp':
            return a, b.a[0], name == 'g_str_equal'
    return None


def stale(t):
    return any(x.k == 'old' for x in subterms(t))


def both(a, b):
    return 'gele' if a and a != b else b


def holding(tab):
    return tab.k == 'c' and tab.a[1] == 'g_hash_table_new_full' and tab.a[5].k == 'fn' and tab.a[5].a[0] == 'preload_map_unref'


TABLES = set()


class Rec(Client):
    track = True

    # auto: (tag, undecided comparisons, undecided conversions, look-ups (result, table, key, state), must fail, inserted (table, key),
    #        lines read (up to MANY), what is known of the version ('ge', 'le'), line number reported, no chain between the two yet)
    def init(self):
        return (None, (), (), (), None, (), 0, '', False, False)

    def keep_atoms(self, S):
        a = set()
        tag, cmps, conv, look, must, ins, n, ver, msg, chk = S.auto
        for t, _, _ in cmps:
            a |= t.atoms
        for t, _ in conv:
            a |= t.atoms
        for t, tab, key, st in look:
            a |= t.atoms | tab.atoms | key.atoms
        for tab, key in ins:
            a |= tab.atoms | key.atoms
        return a

    def settle(self, S):
        tag, cmps, conv, look, must, ins, n, ver, msg, chk = S.auto
        c2 = []
        for t, s, eq in cmps:
            if S.isnull(t) != eq and (S.isnull(t) or S.nonnull(t)):
                tag = tag or s
                self.ctx.count('records told by their tag')
            elif s == '#' and S.rng(t)[:2] == (35, 35):
                tag = tag or s
            elif not (S.isnull(t) or S.nonnull(t)):
                c2.append((t, s, eq))
        v2 = []
        for t, k in conv:
            lo, hi, _ = S.rng(t)
            if hi < k:
                must = must or 'a record with missing or malformed fields'
            elif lo < k:
                v2.append((t, k))
        l2 = []
        for t, tab, key, st in look:
            if st is None and S.isnull(t):
                st = 'absent'
                if tag in REF and unload(tab) is None and tab.k != 'fld':
                    must = must or 'a record referring to something unknown'
            elif st is None and S.nonnull(t):
                st = 'found'
                if tag in NEW:
                    must = must or 'a record defining something twice'
            if st is None or not (stale(tab) or stale(key)):
                l2 = [l for l in l2 if not (l[1] is tab and l[2] is key)] + [(t, tab, key, st)]
        if tag == 'MARKOV' and self.exact and not must:
            chk, dup = self.chained(S, look, chk or ()) if chk is not True else (chk, False)
            if dup:
                must = 'a chain defined twice'
        if tag == HEADER and n > 1:
            must = must or 'a header after the first line'
        if tag == HEADER and ver != 'gele':
            for f, (lo, hi, _) in S.facts.items():
                if f.k == 'cmp' and lo == hi and f.a[0] in ('slt', 'eq'):
                    a, b = self.major(f.a[1]), self.major(f.a[2])
                    if {a, b} == {'read', 'run'}:
                        ver = 'gele' if f.a[0] == 'eq' and lo else ver if f.a[0] == 'eq' or lo else both(ver, 'ge' if a == 'read' else 'le')
                elif lo == hi and self.major(f) == 'read':
                    ver = 'gele'
        S.auto = (tag, tuple(c2), tuple(v2), tuple(l2), must, ins, n, ver, msg, chk)

    def branch(self, S, i, cond, taken):
        self.settle(S)

    def edge(self, S, frm, to):
        self.settle(S)

    def missing(self, S, i, t, what):
        t0 = uncast(t)
        while t0.k == 'old':
            t0 = t0.a[1]
        if t0.k == 'c' and t0.a[1] in MAYBE and not S.nonnull(t):
            self.bad(S, i, 'missing', 'the result of %s may be absent when it is %s' % (t0.a[1], what))

    def load(self, S, i, loc, v):
        self.settle(S)
        if loc.k == 'fld' and root(loc).k == 'g' and tag(loc.a[1]) in TABLES:
            S.refine(v, -INF, INF, (0,))
        if isfld(loc, 'map.refcount') and loc.a[0].k == 'c' and loc.a[0].a[1] == 'g_hash_table_lookup' and holding(self.table(loc.a[0].a[2])):
            S.refine(v, 1, INF, ())
        if not S.auto[0] and loc.k != 'fld' and S.auto[5]:
            p = loc.a[0] if loc.k == 'idx' else loc
            if isload(p, 'GString.str'):
                S.auto = (S.auto[0], S.auto[1] + ((v, '#', False),)) + S.auto[2:]
        if loc.k in ('fld', 'idx', 'c'):
            self.missing(S, i, root(loc), 'read through')

    def store(self, S, i, loc, v):
        self.settle(S)
        if loc.k == 'fld' and root(loc).k == 'g':
            self.change(S, i)
        if loc.k in ('fld', 'idx', 'c'):
            self.missing(S, i, root(loc), 'written through')

    def known(self, S, tab, key):
        """'absent'/'found'/None"""
        tag, cmps, conv, look, must, ins, n, ver, msg, chk = S.auto
        for t, tb, k, st in reversed(look):
            if tb is tab and k is key:
                return st
        return None

    def pre_call(self, S, i, name, args, label):
        self.kept = {}
        if name.startswith('g_ptr_array') and args and args[0].k == 'c':
            self.kept = {k: v for k, v in S.mem.items() if v is ZERO and k.k == 'fld' and k.a[1] == '_GPtrArray.len' and k.a[0].k == 'c' and k.a[0] is not args[0]}
        self.settle(S)
        t = tagtest(name, args)
        if t and S.auto[0] is not None:
            same = t[1] == S.auto[0]
            if not S.refine(S.env[i.id], *((0, 0, ()) if same != t[2] else (-INF, INF, (0,)))):
                return False
        if name in ('g_hash_table_lookup', 'g_hash_table_contains'):
            st = self.known(S, self.table(args[0]), args[1])
            r = S.env[i.id]
            if (self.table(args[0]), args[1]) in S.auto[5]:
                st = 'found'
            if st == 'absent':
                S.refine(r, 0, 0, ())
            elif st == 'found':
                S.refine(r, -INF, INF, (0,))

    def table(self, t):
        return unload(t) or uncast(t)

    def call(self, S, i, name, args, ret, label):
        S.mem.update(self.kept)
        self.settle(S)
        c = self.ctx
        tag, cmps, conv, look, must, ins, n, ver, msg, chk = S.auto
        if name in ('g_ptr_array_new', 'g_ptr_array_sized_new', 'g_ptr_array_new_with_free_func'):
            S.mem[mk('fld', ret, '_GPtrArray.len')] = ZERO
            return
        if name in LINE:
            c.count('line reads')
            if must:
                self.bad(S, i, 'accepted', '%s does not stop loading%s' % (must, ' (record %s)' % tag if tag else ''))
            if conv:
                self.bad(S, i, 'accepted', 'a record%s whose fields were not all converted does not stop loading' % (' ' + tag if tag else ''))
            if self.line(S) and tag is None:
                self.bad(S, i, 'tag', 'a line without a known tag does not stop loading')
            if n == 1 and self.line(S) and not (tag == HEADER and ver == 'gele') and not must:
                self.bad(S, i, 'header', 'loading goes on after a first line that is not a header of the same major version')
            S.auto = (None, (), (), (), 'a read error' if label == 'err' else None, ((mk('s', 'line'), ZERO),) if label == 'ok' else (), min(n + (label == 'ok'), MANY) if self.exact else 0, '', False, False)
            return
        if name in ('sscanf', 'fscanf') and len(args) > 1:
            if args[1].k != 's':
                return self.bad(S, i, 'conversion', 'the format of a conversion is not constant')
            k = conversions(args[1].a[0])
            c.count('conversions')
            if tag == HEADER:
                self.hdr.add(args[2])
            if k:
                S.auto = (tag, cmps, conv + ((ret, k),), look, must, ins, n, ver, msg, chk)
                self.settle(S)
            return
        t = tagtest(name, args)
        if t:
            S.auto = (tag, cmps + ((ret, t[1], t[2]),), conv, look, must, ins, n, ver, msg, chk)
            return self.settle(S)
        if name == 'g_filename_from_uri' and label == 'err':
            S.auto = (tag, cmps, conv, look, must or 'a record whose path cannot be decoded', ins, n, ver, msg, chk)
            return
        if name in ('g_hash_table_lookup', 'g_hash_table_contains'):
            c.count('look-ups')
            S.auto = (tag, cmps, conv, look + ((ret, self.table(args[0]), args[1], None),), must, ins, n, ver, msg, chk)
            return self.settle(S)
        if name in ('g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_add'):
            c.count('insertions')
            self.change(S, i)
            if self.known(S, self.table(args[0]), args[1]) != 'absent' or (self.table(args[0]), args[1]) in ins:
                self.bad(S, i, 'twice', 'an entry is put into %s without its key being known to be new' % show(self.table(args[0])))
            if holding(self.table(args[0])):
                c.count('references kept while loading')
                rc = S.mem.get(mk('fld', uncast(args[-1]), '_preload_map_t.refcount'))
                if rc is None or S.rng(rc)[0] < 1:
                    self.bad(S, i, 'held', 'a map is kept for later records without holding a reference')
            S.auto = (tag, cmps, conv, tuple(l for l in look if l[1] is not self.table(args[0])), must, ins + ((self.table(args[0]), args[1]),), n, ver, msg, chk)
            return
        if name in ASSERT:
            return self.bad(S, i, 'assertion', 'an internal check can fail while loading')
        if api.noreturn(name, args):
            return self.bad(S, i, 'assertion', 'loading can end the process')
        if tag == 'MARKOV' and self.exact and name == 'g_ptr_array_add' and isload(args[0], 'exe.markovs'):
            c.count('chains judged')
            if chk is not True:
                self.bad(S, i, 'twice', 'a chain is created without the two executables being known to have none')
        if name in PRINTF and len(args) > PRINTF[name]:
            k = PRINTF[name]
            if args[k].k == 's' and 'line %' in args[k].a[0]:
                c.count('line numbers judged')
                pos = len(re.findall('%[^%]', args[k].a[0].split('line %')[0]))
                no = args[k + 1 + pos]
                if n and n < MANY and no is not I(n):
                    self.bad(S, i, 'number', 'the error for line %d names line %s' % (n, show(no)))
                S.auto = S.auto[:8] + (True, chk)
        if name in self.prog.fns:
            for a in args:
                self.missing(S, i, a, 'handed to ' + name)

    def change(self, S, i):
        tag, cmps, conv, look, must, ins, n, ver, msg, chk = S.auto
        if n == 1 and not (tag == HEADER and ver == 'gele'):
            self.bad(S, i, 'header', 'the model is changed before a header of the same major version was seen')
        if conv and tag == HEADER:
            self.bad(S, i, 'header', 'a header whose fields were not all converted changes the model')

    def chained(self, S, look, out):
        """(no chain joins the two executables looked up (or those known not to), one is known to)"""
        ex = []
        for t, tab, key, st in look:
            if unload(tab) is None and t not in ex:
                ex.append(t)
        if len(ex) != 2:
            return False, False
        out = set(out)
        done = dup = False
        for own, oth in (ex, ex[::-1]):
            arr = [f for f in S.facts if f.k == 'ld' and isfld(f.a[1], 'GPtrArray.len') and isload(f.a[1].a[0], 'exe.markovs', own)]
            for L in arr:
                ms = {}
                for f, (lo, hi, _) in S.facts.items():
                    if lo == hi and f.k in ('cmp', 'not'):
                        for x in subterms(f):
                            l = unload(x) if x.k == 'ld' else None
                            if l is not None and l.k == 'fld' and tag(l.a[1]) in ('markov.a', 'markov.b'):
                                ms.setdefault(l.a[0], set()).add((f, lo))
                for m, fs in ms.items():
                    poss = []
                    for va, vb in ((1, 2), (2, 1), (1, 3), (3, 1)):
                        def atom(t):
                            return 1 if t is own else 2 if t is oth else va if t.k == 'ld' and isload(t, 'markov.a', m) else vb if t.k == 'ld' and isload(t, 'markov.b', m) else None
                        try:
                            if all(evali(f, atom) == v for f, v in fs):
                                poss.append(2 in (va, vb))
                        except ValueError:
                            poss = [True, False]
                            break
                    if poss and not any(poss):
                        out.add((own, m))
                    dup = dup or poss and all(poss)
                done = done or S.rng(L)[1] <= sum(o is own for o, m in out)
        return done or tuple(sorted(out, key=lambda e: (e[0].n, e[1].n))), bool(dup)

    def major(self, t):
        u = t
        while u.k == 'cast':
            u = u.a[3]
        if u.k == 'pure' and u.a[0] in ('strtod', 'strtol', 'atoi') and u.a[1].k == 's':
            return 'run'
        if u.k == 'sl' and u.a[0] in self.hdr or unload(t) in self.hdr:
            return 'read'
        return None

    def line(self, S):
        return any(a.k == 's' for a, _ in S.auto[5])

    def ret(self, S, i, v):
        self.settle(S)
        tag, cmps, conv, look, must, ins, n, ver, msg, chk = S.auto
        self.ctx.count('returns judged')
        if (must or conv) and not (v is not None and S.nonnull(v)):
            self.bad(S, i, 'silent', '%s does not make loading fail%s' % (must or 'a failed conversion', ' (record %s)' % tag if tag else ''))
        elif must and n and not msg:
            self.bad(S, i, 'number', 'the error does not name the line')
        if n == 1 and not must and not conv and not (v is not None and S.isnull(v)):
            self.bad(S, i, 'foreign', 'a state file of another kind or version makes loading fail')


class Made(Client):
    def call(self, S, i, name, args, ret, label):
        if name == ROOT:
            self.ctx.count('loads')
            st = {tag(k.a[1]) for k, v in S.mem.items() if k.k == 'fld' and root(k).k == 'g' and S.nonnull(v)}
            TABLES.intersection_update(st) if TABLES else TABLES.update(st)


def run(c):
    c.sim('load', Made(), [('F', '_preload_state_t.' + f) for f in ('exes', 'maps', 'bad_exes', 'maps_arr')])
    c.need('loads')
    def rec(exact):
        r = Rec()
        r.prog, r.hdr, r.exact = c.prog, set(), exact
        return r
    live = [('F', '_GPtrArray.len'), ('F', '_preload_map_t.refcount')]
    c.sim('read', rec(False), live)
    c.need('line reads')
    c.need('conversions', 5)
    c.need('look-ups', 4)
    c.need('insertions', 2)
    c.need('returns judged')
    c.need('records told by their tag', 7)
    # the first lines, one by one
    fn = c.flat('read')
    heads = [h for h, body, _ in fn.loops() if any(i.op == 'call' and api.ALIAS.get(i.callee(), i.callee()) in LINE for b in body for i in fn.blocks[b])]
    if not heads:
        raise Broken('no loop reads the lines of the state file')
    u = unfold(fn, 2, 60000, loopk={h: 2 for h in heads})
    c.sim(u, rec(True), live, depth=60)
    c.need('line numbers judged', 2)
    c.need('chains judged')
