"""Ownership analysis of the whole program. Every function that acquires or releases something (descriptors, streams, directories, mappings,
channels, errors, strings and other memory, lists, arrays, tables) is analysed with its private helpers inlined, on every path, under every
outcome of every acquisition. At each return whatever was acquired must have been released, returned, or handed to an owner (an object, a
container, a global); nothing is released twice, by the wrong function, or used after it was released; an owning place is not overwritten while
what it holds is neither released nor moved, and an object is not released while it still owns something. Functions that return or take
ownership are summarised, and the summaries used at their calls, until nothing changes."""
from walk import *
from sim import static_key, rebase
from P21 import origin

ACQ = {'open': 'fd', 'openat': 'fd', 'creat': 'fd', 'dup': 'fd', 'socket': 'fd', 'eventfd': 'fd', 'mkstemp': 'fd', 'g_mkstemp': 'fd', 'inotify_init': 'fd', 'inotify_init1': 'fd',
       'fopen': 'stream', 'fdopen': 'stream', 'popen': 'stream', 'tmpfile': 'stream', 'opendir': 'directory', 'fdopendir': 'directory', 'g_dir_open': 'gdir', 'mmap': 'mapping',
       'g_io_channel_unix_new': 'channel', 'g_io_channel_new_file': 'channel', 'g_string_new': 'gstring', 'g_string_sized_new': 'gstring', 'g_key_file_new': 'keyfile',
       'g_ptr_array_new': 'array', 'g_ptr_array_sized_new': 'array', 'g_ptr_array_new_with_free_func': 'array', 'g_ptr_array_new_full': 'array', 'g_array_new': 'array', 'g_array_sized_new': 'array',
       'g_hash_table_new': 'table', 'g_hash_table_new_full': 'table', 'g_timer_new': 'timer', 'g_error_new': 'error', 'g_error_new_literal': 'error', 'g_error_copy': 'error'}
for _n in ('g_malloc g_malloc0 malloc calloc g_strdup g_strndup strdup strndup g_strdup_printf g_strdup_vprintf g_strconcat g_build_filename g_build_path g_filename_to_uri g_filename_from_uri g_memdup2 g_path_get_basename '
           'g_path_get_dirname g_get_current_dir g_strsplit g_strdupv g_strjoin g_strjoinv g_key_file_get_string g_key_file_get_string_list g_key_file_get_value realpath g_utf8_strdown g_ascii_strdown g_ascii_strup '
           'g_strescape g_strcompress g_locale_to_utf8 g_filename_to_utf8 g_uri_escape_string g_uri_unescape_string g_shell_quote').split():
    ACQ[_n] = 'memory'
LISTS = ('g_slist_prepend', 'g_slist_append', 'g_slist_copy', 'g_list_prepend', 'g_list_append', 'g_list_copy', 'g_hash_table_get_keys', 'g_hash_table_get_values', 'g_slist_insert_sorted', 'g_list_insert_sorted')
for _n in LISTS:
    ACQ[_n] = 'memory'
OUTACQ = {'g_file_get_contents': (1,), 'asprintf': (0,), 'getline': (0,), 'g_io_channel_read_line': (1,), 'g_io_channel_read_to_end': (1,)}
ERRARG = {'g_io_channel_write_chars': 4, 'g_io_channel_flush': 1, 'g_io_channel_shutdown': 2, 'g_io_channel_read_line_string': 3, 'g_filename_to_uri': 2, 'g_filename_from_uri': 2, 'g_file_get_contents': 3,
          'g_file_set_contents': 3, 'g_key_file_load_from_file': 3, 'g_key_file_get_integer': 3, 'g_key_file_get_boolean': 3, 'g_key_file_get_string': 3, 'g_key_file_get_string_list': 4, 'g_key_file_get_double': 3,
          'g_io_channel_set_encoding': 2, 'g_io_channel_new_file': 2}
REL = {'close': (0, {'fd'}), 'fclose': (0, {'stream'}), 'pclose': (0, {'stream'}), 'closedir': (0, {'directory'}), 'g_dir_close': (0, {'gdir'}), 'munmap': (0, {'mapping'}), 'g_io_channel_unref': (0, {'channel'}),
       'g_free': (0, {'memory'}), 'free': (0, {'memory'}), 'g_strfreev': (0, {'memory'}), 'g_error_free': (0, {'error'}), 'g_string_free': (0, {'gstring'}), 'g_key_file_free': (0, {'keyfile'}), 'g_key_file_unref': (0, {'keyfile'}),
       'g_ptr_array_free': (0, {'array'}), 'g_ptr_array_unref': (0, {'array'}), 'g_array_free': (0, {'array'}), 'g_array_unref': (0, {'array'}), 'g_hash_table_destroy': (0, {'table'}), 'g_hash_table_unref': (0, {'table'}),
       'g_slist_free': (0, {'memory'}), 'g_list_free': (0, {'memory'}), 'g_slist_free_1': (0, {'memory'}), 'g_list_free_1': (0, {'memory'}), 'g_slist_free_full': (0, {'memory'}), 'g_list_free_full': (0, {'memory'}),
       'g_timer_destroy': (0, {'timer'}), 'g_slice_free1': (1, {'memory'})}
HAND = {'g_hash_table_insert': (1, 2), 'g_hash_table_replace': (1, 2), 'g_hash_table_add': (1,), 'g_ptr_array_add': (1,), 'g_ptr_array_insert': (2,), 'g_slist_prepend': (1,), 'g_slist_append': (1,), 'g_list_prepend': (1,),
        'g_list_append': (1,), 'g_propagate_error': (1,), 'g_timeout_add': (2,), 'g_timeout_add_seconds': (2,), 'g_idle_add': (1,), 'g_queue_push_tail': (1,), 'g_queue_push_head': (1,), 'setenv': (), 'putenv': (0,),
        'g_timeout_add_full': (3,), 'g_timeout_add_seconds_full': (3,), 'g_ptr_array_set_free_func': ()}
MOVE = {'g_slist_remove', 'g_slist_remove_all', 'g_slist_reverse', 'g_slist_delete_link', 'g_slist_append', 'g_slist_prepend', 'g_slist_concat', 'g_slist_sort', 'g_list_remove', 'g_list_remove_all', 'g_list_reverse', 'g_list_delete_link',
        'g_list_append', 'g_list_prepend', 'g_list_concat', 'g_list_sort', 'g_slist_sort_with_data', 'g_slist_remove_link', 'g_list_remove_link', 'g_slist_insert_sorted', 'g_list_insert_sorted', 'realloc', 'g_realloc'}
SAME = {'g_strchug', 'g_strchomp', 'g_strstrip', 'g_strdelimit', 'g_strcanon', 'g_strreverse'}
NODE = ('_GSList.next', '_GList.next', '_GList.prev')
JOBS = []
STARTUP = {'main', 'preload_log_init', 'preload_cmdline_parse', 'daemonize', 'preload_context_new'}


def timers(prog, reach):
    """functions given by address to something outside the program that keeps it"""
    out = set()
    for f in reach:
        for i in prog.fns[f].calls():
            n = i.callee()
            if n and n not in prog.fns and not any(x in n for x in ('foreach', 'sort', 'hash_table', '_array_', 'find', 'free_full', 'qsort', 'bsearch', 'insert', 'copy')):
                out |= {o[1] for o in i.ops if o[0] == 'fn' and o[1] in prog.fns}
    return out


def run(c):
    c.load(['w preload_state_write_file'])
    prog = c.prog
    reach = sorted(f for f in prog.reachable(['main']) if f in prog.fns)
    tm = timers(prog, reach)
    pub = [f for f in reach if not prog.fns[f].internal or f in tm]
    sites = {}
    for f in reach:
        for i in prog.fns[f].calls():
            if i.callee() in ACQ or i.callee() in REL or i.callee() in OUTACQ:
                sites[i.where()] = f
    c.count('acquisition and release sites', len(sites))
    c.need('acquisition and release sites', 60)
    # taken by address and given to public functions: analysed by themselves
    roots = [f for f in pub if f not in STARTUP]
    for f in reach:
        for i in prog.fns[f].calls():
            if i.callee() in prog.fns and not prog.fns[i.callee()].internal:
                roots += [o[1] for o in i.ops if o[0] == 'fn' and o[1] in prog.fns and o[1] not in roots]
        for i in prog.fns[f].calls('g_hash_table_new_full', 'g_ptr_array_new_with_free_func'):
            roots += [o[1] for o in i.ops if o[0] == 'fn' and o[1] in prog.fns and o[1] not in roots]
    cut = set(pub) | set(roots)
    mine = {}
    for f in roots:
        mine[f] = inner(prog, f, cut - {f})
    roots = [f for f in roots if any(s in mine[f] for s in sites.values()) or True]
    c.load(['r:%s %s stop=%s' % (f, f, ','.join(sorted(cut - {f}))) for f in roots])
    prog = c.prog
    sm = Summaries(prog)
    later = prog.reachable(sorted(tm))
    sm.destroy = {(f, 0) for f in pub if f.endswith('_free') and prog.fns[f].args}
    sm.once = {f for f in pub if f not in later}
    order = bottomup(prog, roots, mine)
    for rnd in range(6):
        before = sm.key()
        for f in order:
            if rnd and f not in sm.retyped and not (sm.changed & {g for h in mine[f] for g in names(prog, h)}):
                continue
            cl = Own(sm, f, rnd)
            cl.argname = (c.flat('r:' + f).args or [('',)])[0][0]
            cl.ctx = c
            judge(c, f, cl)
            sm.viol[f] = cl.held
            sm.seen |= cl.reached
        sm.changed = sm.diff(before)
        if not sm.changed and not sm.retyped:
            break
    else:
        raise Broken('the summaries do not settle')
    for f in order:
        for r, w, m in sm.viol[f]:
            c.bad(r, w, m)
    c.counts['acquisitions judged'] = len(sm.acq)
    c.counts['returns judged'] = sm.rets
    miss = sorted(w for w, f in sites.items() if w not in sm.seen and f not in STARTUP and f not in startup_only(prog, STARTUP))
    for w in miss:
        c.count('unreached sites')
        c.items.append('not reached: ' + w)
    c.need('acquisitions judged', 30)
    c.need('returns judged', 40)
    c.ok('released, returned or handed over on every path')


def startup_only(prog, st):
    return {f for f in prog.fns if prog.fns[f].internal and f not in prog.reachable(['preload_state_run', 'preload_state_load', 'preload_state_save', 'preload_state_free', 'preload_conf_load', 'preload_log_reopen'])}


def inner(prog, f, cut):
    seen, w = set(), [f]
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        for g in names(prog, x):
            if g in prog.fns and g not in cut:
                w.append(g)
    return seen


def names(prog, f):
    out = set()
    for i in prog.fns[f].calls():
        if i.callee():
            out.add(i.callee())
        out |= {o[1] for o in i.ops if o[0] == 'fn'}
    return out


def bottomup(prog, roots, mine):
    done, out = set(), []

    def go(f):
        if f in done:
            return
        done.add(f)
        for h in sorted(mine[f]):
            for g in sorted(names(prog, h)):
                if g in mine:
                    go(g)
        out.append(f)
    for f in roots:
        go(f)
    return out


class Summaries(object):
    def __init__(self, prog):
        self.prog = prog
        self.returns = {}       # f -> kind
        self.outs = {}          # (f, n) -> kind
        self.takes = set()      # (f, n)
        self.frees = set()      # (f, n) released on every path
        self.owners = {}        # static key -> kinds
        self.viol, self.seen, self.acq, self.rets = {}, set(), set(), 0
        self.changed = set()
        self.once = set()
        self.destroy = set()
        self.ptype = {}         # owning place -> structures put there
        self.argtypes = {}      # (f, n) -> structures

    def key(self):
        return dict(self.returns), dict(self.outs), set(self.takes), set(self.frees), set(self.owners), {k: frozenset(v) for k, v in self.argtypes.items()}

    def diff(self, b):
        r, o, t, f, w, at = b
        x = {n for n in self.returns if self.returns[n] != r.get(n)} | {n for n, _ in set(self.outs) - set(o)} | {n for n, _ in (self.takes ^ t) | (self.frees ^ f)}
        self.retyped = {n for (n, _), v in self.argtypes.items() if at.get((n, _)) != frozenset(v)}
        if set(self.owners) - w:
            x |= {g for f in self.prog.fns for g in names(self.prog, f)}
        return x


def judge(c, f, cl):
    fn = c.flat('r:' + f)
    cl.bad = lambda S, i, r, m: cl.held.append((r, i.where(), m)) if (r, i.where(), m) not in cl.held else None
    c.sim(fn, cl, sorted(k for k in cl.sm.owners if k[0] in 'FG'))
    for n in cl.argfree or ():
        pass
    a = cl.allret
    if a is not None:
        for n in a:
            cl.sm.frees.add((f, n))


class Own(Client):
    """auto: (owned ((term, kind)...), gone ((term, how)...), args released, warned)"""
    track = True

    def __init__(self, sm, f, rnd):
        self.sm, self.f, self.rnd = sm, f, rnd
        self.held, self.reached = [], set()
        self.allret = None
        self.argfree = None
        self.types = {}

    def init(self):
        for t in self.sm.argtypes.get((self.f, 0), ()):
            self.types.setdefault(mk('arg', 0, self.argname), set()).add(t)
        return (), (), 0, 0

    def keep_atoms(self, S):
        a = set()
        for t, _ in S.auto[0] + S.auto[1]:
            a |= t.atoms
        if (self.f, 0) in self.sm.destroy:
            a.add(('arg', 0))
        return a

    # ---- primitives
    def own(self, S, i, t, kind):
        t = uncast(t)
        if t.k in ('i', 's', 'fn', 'g', 'A') or S.isnull(t):
            return
        self.sm.acq.add(i.where())
        o = tuple(e for e in S.auto[0] if e[0] is not t and not opaque(e[0]))
        g = tuple(e for e in S.auto[1] if e[0] is not t and not opaque(e[0]))
        S.auto = (o + ((t, kind),), g) + S.auto[2:]

    def owned(self, S, t):
        return next((k for x, k in S.auto[0] if x is t), None)

    def drop(self, S, t, how):
        own = tuple(e for e in S.auto[0] if e[0] is not t)
        g = S.auto[1]
        if (t, how) not in g:
            g = tuple(e for e in g if not opaque(e[0]))[-24:] + ((t, how),)
        S.auto = (own, g) + S.auto[2:]

    def release(self, S, i, t, kinds, name):
        t = uncast(t)
        if t is ZERO or S.isnull(t) or t.k in ('i', 'A', 'g'):
            return
        if any(x is t and h == 'released' for x, h in S.auto[1]):
            self.bad(S, i, 'twice', '%s is released twice' % show(t))
        k = self.owned(S, t)
        if k and kinds and k not in kinds:
            self.bad(S, i, 'wrong', 'a %s is released by %s' % (k, name))
        if k is None and any(x is t and h == 'handed' for x, h in S.auto[1]) and t.k != 'arg':
            l = [1 for x in S.mem.items()]
        n = argno(t)
        if n is not None:
            self.sm.takes.add((self.f, n))
            S.auto = S.auto[:2] + (S.auto[2] | 1 << n, S.auto[3])
        self.drop(S, t, 'released')

    def hand(self, S, i, t, to=None):
        t = uncast(t)
        n = argno(t)
        if n is not None:
            self.sm.takes.add((self.f, n))
        k = self.owned(S, t)
        if k:
            if to is not None and len(to) < 2:
                to = None           # somewhere behind a pointer
            if to is not None and to not in self.sm.owners:
                self.sm.owners[to] = k
            if to is not None:
                self.sm.ptype.setdefault(to, set()).update(self.types.get(t, ()))
            self.drop(S, t, 'handed')

    def edge(self, S, frm, to):
        own, gone, rel, warn = S.auto
        for k, v in S.mem.items():
            if v is not ZERO and place(k) in self.sm.owners and S.isnull(v):
                S.mem[k] = ZERO
        if not own and not gone:
            return
        lv = self.sim.live[to]
        held = set()
        for k, v in S.env.items():
            if k in lv:
                held |= v.atoms
        dead = {t for t, h in gone}
        for k, v in S.mem.items():
            if root(k) not in dead:
                held |= v.atoms
        n = []
        for t, h in gone:
            if opaque(t):
                continue
            l = unload(t)
            if l is not None and place(l) in self.sm.owners:
                n.append((t, h))
            elif t.k in ('ld', 'c', 'o', 'out', 'old'):
                if (t.k, t.a[0]) in held:
                    n.append((t, h))
            elif t.k == 'arg' and h == 'released':
                n.append((t, h))
        o = [(t, k) for t, k in own if not opaque(t) and not S.isnull(t) and not (k in ('fd', 'mapping') and S.rng(t)[1] < 0)]
        S.auto = (tuple(sorted(o, key=lambda e: e[0].n)), tuple(sorted(set(n), key=lambda e: (e[0].n, e[1]))), rel, warn)

    # ---- events
    def pre_call(self, S, i, name, args, label):
        self.reached.add(i.where())
        if name == 'g_return_if_fail_warning':
            S.auto = S.auto[:3] + (1,)
        if name == 'g_clear_error' and args[0] is not ZERO:
            v = S.mem.get(self.sim.addr_leaf(args[0]))
            if v is not None:
                self.release(S, i, v, {'error'}, name)
        e = ERRARG.get(name)
        self.before = None
        if e is not None and e < len(args) and args[e] is not ZERO and label == 'err':
            v = S.mem.get(self.sim.addr_leaf(args[e]))
            if v is not None and self.owned(S, v) == 'error':
                self.before = v         # the first error stays, GLib drops the second
        self.saved = ()
        if name in self.sm.prog.fns:
            self.saved = [(k, v) for k, v in S.mem.items() if k.k == 'fld' and root(k).k == 'A']
        # used after release
        for n, a in enumerate(args):
            if not isinstance(a, Term):
                continue
            a = uncast(a)
            if name not in REL and any(x is a and h == 'released' for x, h in S.auto[1]) and a.k != 'i' and not S.isnull(a) and not (name in MOVE):
                self.bad(S, i, 'after', '%s is used by %s after it was released' % (show(a), name))
        if name in ('g_free', 'free', 'g_slice_free1'):
            self.whole(S, i, uncast(args[REL[name][0]]))

    def whole(self, S, i, obj):
        """an object is not released while it owns something"""
        for st in self.types.get(obj, ()):
            for (kind, fld), k in sorted(self.sm.owners.items()):
                if kind != 'F' or not fld.startswith(st + '.') or fld in NODE:
                    continue
                loc = mk('fld', obj, fld)
                v = S.mem.get(loc)
                if v is not None and (S.isnull(v) or self.isgone(S, v) and not self.owned(S, v)):
                    continue
                if any(unload(x) is loc for x, h in S.auto[1]) or any(unload(x) is loc and S.isnull(x) for x in S.facts):
                    continue
                self.bad(S, i, 'lost', 'an object is released while it still holds its %s' % tag(fld))

    def isgone(self, S, v):
        v = uncast(v)
        return any(x is v for x, h in S.auto[1])

    def call(self, S, i, name, args, ret, label):
        e = ERRARG.get(name)
        if label == 'err' and e is not None and e < len(args) and args[e] is not ZERO:
            loc = self.sim.addr_leaf(args[e])
            v = S.mem.get(loc)
            if self.before is not None:
                S.mem[loc] = self.before
            elif v is not None:
                if root(loc).k == 'A':
                    self.own(S, i, v, 'error')
                elif root(loc).k == 'arg':
                    pass
        if name in REL:
            n, kinds = REL[name]
            if name == 'g_string_free' and args[1] is ZERO:
                self.release(S, i, args[0], kinds, name)
                self.own(S, i, ret, 'memory')
                return
            if name in ('g_ptr_array_free', 'g_array_free') and args[1] is ZERO:
                self.release(S, i, args[0], kinds, name)
                self.own(S, i, ret, 'memory')
                return
            self.release(S, i, args[n], kinds, name)
            return
        if name == 'g_io_channel_shutdown' or name == 'fdopen' and label != 'err':
            t = uncast(args[0])
            x = t.a[2] if name != 'fdopen' and t.k == 'c' and t.a[1] == 'g_io_channel_unix_new' else t if name == 'fdopen' else None
            if x is not None:
                self.drop(S, uncast(x), 'released')
        if name == 'g_io_channel_set_close_on_unref' and args[1] is not ZERO:
            t = uncast(args[0])
            if t.k == 'c' and t.a[1] == 'g_io_channel_unix_new':
                self.drop(S, uncast(t.a[2]), 'handed')
        if name == 'memcpy' and root(args[0]).k != 'A':
            for k, v in list(S.mem.items()):
                if self.sim.within(k, args[1]):
                    self.store(S, i, rebase(k, args[1], args[0]), v)
            return
        if name in SAME:
            S.env[i.id] = args[0]
            return
        if name in MOVE:
            t = uncast(args[0])
            k = self.owned(S, t)
            if name in HAND:
                for n in HAND[name]:
                    self.hand(S, i, args[n])
            if not S.isnull(t):
                self.drop(S, t, 'moved')
            if k or name in LISTS or name in ('realloc', 'g_realloc'):
                self.own(S, i, ret, k or 'memory')
            return
        if name in HAND:
            for n in HAND[name]:
                if n < len(args):
                    self.hand(S, i, args[n])
        if name in OUTACQ and label != 'err':
            for n in OUTACQ[name]:
                v = S.mem.get(self.sim.addr_leaf(args[n]))
                if v is not None:
                    self.own(S, i, v, 'memory')
        if name in ACQ and label != 'err':
            if name == 'mmap' and ret.k == 'i':
                return
            self.own(S, i, ret, ACQ[name])
        elif name in self.sm.prog.fns:
            # members of local objects that the callee (and what it calls back) never writes
            mods = set(self.sim.modset(name))
            for a in args:
                if a.k == 'fn' and a.a[0] in self.sm.prog.fns:
                    mods |= self.sim.modset(a.a[0])
            for k, v in self.saved:
                if k not in S.mem and key_of(k) not in mods and not any(a is k for a in args):
                    S.mem[k] = v
            for n, a in enumerate(args):
                l = unload(a)
                if l is not None and place(l) in self.sm.ptype:
                    self.sm.argtypes.setdefault((name, n), set()).update(self.sm.ptype[place(l)])
                if (name, n) in self.sm.frees:
                    self.release(S, i, a, None, name)
                elif (name, n) in self.sm.takes:
                    self.hand(S, i, a)
                k = self.sm.outs.get((name, n))
                if k and a is not ZERO:
                    loc = self.sim.addr_leaf(a)
                    if root(loc).k == 'A':
                        t = mk('out', i.id, n)
                        S.mem[loc] = t
                        self.own(S, i, t, k)
            k = self.sm.returns.get(name)
            if k:
                self.own(S, i, ret, k)

    def load(self, S, i, loc, v):
        self.type(loc)

    def type(self, loc):
        if loc.k == 'fld':
            self.types.setdefault(uncast(loc.a[0]), set()).add(loc.a[1].split('.')[0])

    def store(self, S, i, loc, v):
        self.reached.add(i.where())
        self.type(loc)
        v = uncast(v)
        r = root(loc)
        k = place(loc)
        if r.k == 'arg' and loc is r or loc.k == 'arg':
            kk = self.owned(S, v)
            if kk:
                self.sm.outs[(self.f, argno(loc))] = kk
                self.drop(S, v, 'handed')
            return
        self.over(S, i, loc, v)
        if r.k != 'A':
            self.hand(S, i, v, k)
            if any(x is v and h == 'released' for x, h in S.auto[1]) and v is not ZERO and not S.isnull(v):
                self.bad(S, i, 'after', '%s is stored after it was released' % show(v))

    def over(self, S, i, loc, v):
        """an owning place is overwritten"""
        r, k = root(loc), place(loc)
        if k in self.sm.owners and k[1:] and k[1] not in NODE and r.k != 'A' and not (self.f in self.sm.once and r.k == 'g'):
            old = S.mem.get(loc)
            new = obj(loc)
            if new is None or self.owned(S, new) is None:
                ok = old is not None and (S.isnull(old) or self.isgone(S, old))
                ok = ok or old is v or any(unload(x) is loc for x, h in S.auto[1]) or any(unload(x) is loc and S.isnull(x) for x in S.facts) or unload(v) is loc or loc in subterms(v)
                ok = ok or old is not None and any(m is old and kk is not loc for kk, m in S.mem.items())
                ok = ok or r.k == 'g' and any(S.isnull(x) for kk, x in list(S.mem.items()) + [(unload(y), y) for y in S.facts] if kk is not None and kk is not loc and kk.k == 'fld' and place(kk) in self.sm.owners and obj(kk) is new)      # never set up
                if not ok and old is not None and any(x is old for x in S.env.values()):
                    self.own(S, i, old, self.sm.owners[k])      # taken out of its place: now this function's own
                    ok = True
                if not ok:
                    self.bad(S, i, 'lost', '%s is overwritten while what it holds was neither released nor moved' % show(loc))

    def ret(self, S, i, v):
        self.sm.rets += 1
        rv = uncast(v) if v is not None else None
        if rv is not None and rv.k != 'i' and any(x is rv and h == 'released' for x, h in S.auto[1]) and not S.isnull(rv):
            self.bad(S, i, 'after', '%s is returned after it was released' % show(rv))
        if self.f not in self.sm.once:
            vals = {}
            for k, v in S.mem.items():
                if root(k).k == 'g' and place(k) in self.sm.owners and v is not ZERO and not S.isnull(v):
                    if any(x is v and h == 'released' for x, h in S.auto[1]):
                        self.bad(S, i, 'twice', '%s still holds what was released' % show(k))
                    if vals.setdefault(v, k) is not k:
                        self.bad(S, i, 'twice', '%s and %s both hold one object' % (show(vals[v]), show(k)))
        for t, k in S.auto[0]:
            if t is rv:
                if self.sm.returns.get(self.f) is None:
                    self.sm.returns[self.f] = k
                continue
            if opaque(t) or S.isnull(t) or k == 'fd' and S.rng(t)[1] < 0 or k == 'mapping' and S.rng(t)[:2] == (-1, -1):
                continue
            self.bad(S, i, 'leak', 'a %s acquired by %s is not released on a path to the return' % (k, how(t)))
        rel = S.auto[2]
        a = {n for n in range(16) if rel >> n & 1} | {n for n, x in enumerate(self.sim.fn.args) if S.isnull(mk('arg', n, x[0]))}
        if (self.f, 0) in self.sm.destroy and 0 not in a and not S.auto[3]:
            self.bad(S, i, 'leak', 'the object is not released by the function that is to free it')
        self.allret = a if self.allret is None else self.allret & a

    def dead(self, S, i):
        pass


def how(t):
    while t.k == 'old':
        t = t.a[1]
    return t.a[1] if t.k == 'c' else show(t)


def opaque(t):
    return t.k == 'o' and isinstance(t.a[0], tuple)


def argno(t):
    return t.a[0] if t.k == 'arg' and isinstance(t.a[0], int) else None


def obj(loc):
    while loc.k == 'idx':
        loc = loc.a[0]
    return uncast(loc.a[0]) if loc.k == 'fld' else None


def place(loc):
    while loc.k == 'idx':
        loc = loc.a[0]
    if loc.k == 'fld':
        return ('F', loc.a[1])
    if loc.k == 'g':
        return ('G', loc.a[0])
    return ('D',)
