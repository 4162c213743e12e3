"""Interval analysis of every access to a fixed-size array. Every operation of the daemon is flattened (calls inlined) and the ranges of its
integers are computed as a fixpoint over the SSA form, refined at each point by the branch conditions that dominate it; functions no operation
reaches are analysed on their own. At each call that fills a buffer (read, readlink, fgets, snprintf, memcpy, sscanf texts, ...) the limit it
is given, terminator included, is compared with the room behind the pointer handed over (stack, static and structure members, offset
included); numbers scanned by sscanf are compared with the width of their destination; each access through an index into an array of known
size must have the index within it, results of calls following their limits (read and readlink return at most what was asked for). Structure
members used as indexes are invariants, proved over every store to them. A buffer filled by a call that adds no terminator is followed by a
typestate to each use as a text: a terminator must have been stored, or the buffer cleared and a byte kept free."""
BOUNDS = '''Arrays on the heap (GPtrArray contents) are not given a size here; their walks are bounded by the array length in P22-P24 and P35. A pointer moved
along a text (p++) is not followed. memcpy and memset over whole structures are compared with the structure.'''
import re
from lib import *
from rng import Ranges, INF, bits
ROOTS = ['preload_state_load', 'preload_state_save', 'preload_state_read_file', 'preload_state_write_file', 'preload_state_dump_log', 'proc_get_memstat', 'proc_get_maps', 'proc_foreach',
         'preload_on_battery', 'preload_readahead', 'preload_markov_state_changed', 'preload_markov_correlation', 'preload_markov_new', 'preload_prophet_predict', 'preload_conf_load',
         'preload_cmdline_parse', 'preload_spy_scan', 'preload_spy_update_model', 'vomm_hydrate_from_state', 'vomm_update', 'vomm_predict', 'markov_compute_state', 'main']
HEAVY = {'preload_state_load': 'preload_state_read_file', 'preload_state_save': 'preload_state_write_file', 'preload_spy_scan': 'proc_foreach', 'preload_spy_update_model': 'proc_get_maps',
         'main': 'preload_conf_load,preload_cmdline_parse,preload_state_load,preload_state_run,preload_state_free,preload_state_save,vomm_cleanup,preload_log_init',
         'preload_prophet_predict': 'preload_readahead,proc_get_memstat,vomm_predict'}
JOBS = ['%s %s%s' % (r, r, ' stop=' + HEAVY[r] if r in HEAVY else '') for r in ROOTS]
# name: (buffer argument, limit argument, limit counts bytes, terminates)
FILL = {'read': (1, 2, False), 'readlink': (1, 2, False), 'pread': (1, 2, False), 'recv': (1, 2, False), 'fgets': (0, 1, True), 'snprintf': (0, 1, True), 'vsnprintf': (0, 1, True),
        'g_strlcpy': (0, 2, True), 'g_strlcat': (0, 2, True), 'strncpy': (0, 2, False), 'memcpy': (0, 2, False), 'memset': (0, 2, None), 'getcwd': (0, 1, True), 'gethostname': (0, 1, False),
        'strftime': (0, 1, True), 'bcopy': (1, 2, False), 'strerror_r': (1, 2, True), '__memcpy_chk': (0, 2, False), 'mempcpy': (0, 2, False), 'readlinkat': (2, 3, False)}
OPEN = {'strcpy': 1, 'strcat': 1, 'stpcpy': 1, 'gets': None, 'sprintf': 1, 'vsprintf': None, 'strncat': None}
TEXT = {'strlen', 'strcmp', 'strncmp', 'strstr', 'strchr', 'strrchr', 'sscanf', 'g_strdup', 'g_str_has_prefix', 'g_str_has_suffix', 'g_str_equal', 'atoi', 'strtol', 'strtod', 'fopen', 'open',
        'g_strstrip', 'g_strchug', 'g_strchomp', 'g_hash_table_lookup', 'g_strsplit', 'g_str_hash', 'stat', 'lstat', 'access', 'unlink', 'strtok', 'g_path_get_basename', 'g_file_test', 'g_strconcat',
        'g_ascii_strcasecmp', 'strcasecmp', 'readlink', 'preload_map_new', 'preload_exe_new', 'strdup'}
BITS = {'': 32, 'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'q': 64, 'L': 128, 'z': 64, 'j': 64, 't': 64}
DIR = re.compile(r'%(\*?)(\d*)(hh|h|ll|l|q|L|z|j|t)?(\[\^?\]?[^\]]*\]|.)')


def maxprint(R, f, args, b):
    """most characters a formatted text can have, or None"""
    n, k, pos = 0, 0, 0
    for m in re.finditer(r'%[-+ #0]*(\d*)(?:\.(\d+))?(hh|h|ll|l|q|z|j|t)?([a-zA-Z%])', f):
        n += m.start() - pos
        pos = m.end()
        w, p, mod, cv = m.groups()
        if cv == '%':
            n += 1
            continue
        if k >= len(args):
            return None
        a = args[k]
        k += 1
        w = int(w or 0)
        if cv in 'diuxXo':
            lo, hi = R.range(a, b)
            d = 22 if mod and 'h' not in mod else 11
            if cv in 'di' and lo > -INF and hi < INF:
                d = min(d, max(len(str(int(lo))), len(str(int(hi)))))
            n += max(w, d)
        elif cv == 'c':
            n += max(w, 1)
        elif cv == 's' and a[0] == 's':
            n += max(w, len(a[1]))
        elif cv == 's' and p is not None:
            n += max(w, int(p))
        else:
            return None
    return n + len(f) - pos


class F(object):
    """one function, flattened or not"""

    def __init__(self, c, fn):
        self.c, self.fn, self.prog = c, fn, c.prog
        self.R = Ranges(fn, self.known)
        self.reach = self.R.reach

    def bad(self, i, rule, msg):
        self.c.bad(rule, i.where(), msg)

    def seen(self, i):
        self.c.sites.add(i.where())

    def name(self, i):
        n = i.callee()
        return api.ALIAS.get(n, n) if n else None

    def known(self, R, i, b, edge):
        if i.op == 'load':
            t = self.loc(i.ops[0])
            if t[0] == 'fld' and t[1] in self.c.inv:
                return (0, self.c.inv[t[1]] - 1)
            return None
        n = self.name(i)
        if n in ('read', 'readlink', 'pread', 'recv', 'readlinkat'):
            k = FILL[n][1]
            hi = R.at(i.ops[k], i.b)[1]
            return (-1, max(hi, 0))
        if n in ('strlen', 'strnlen'):
            t = self.type(i.ops[0])
            return (0, t[1] - 1) if isinstance(t, list) and t[0] == 'arr' else (0, INF)
        return api.RET.get(n)

    # ---- locations
    def ins(self, o):
        return self.fn.ins.get(o[1]) if o[0] == 'v' else None

    def loc(self, o):
        """('alloca'|'global'|'fld'|'elem'|'?', ...)"""
        if o[0] == 'g':
            return ('global', o[1])
        if o[0] == 'cc':
            return self.loc(o[2])
        i = self.ins(o)
        if i is None:
            return ('?',)
        if i.op == 'alloca':
            return ('alloca', i.id)
        if i.op == 'fld':
            return ('fld', self.prog.field(*i.x))
        if i.op == 'gep':
            return ('elem', i.id)
        if i.op in ('bitcast', 'freeze'):
            return self.loc(i.ops[0])
        return ('?',)

    def type(self, o):
        t = self.loc(o)
        if t[0] == 'alloca':
            return self.fn.ins[t[1]].x[0]
        if t[0] == 'global':
            return self.prog.globals.get(t[1], {}).get('ty')
        if t[0] == 'fld':
            return self.prog.field_type(t[1])
        if t[0] == 'elem':
            i = self.fn.ins[t[1]]
            ty = i.x
            for x in i.ops[2:]:
                if isinstance(ty, list) and ty[0] == 'arr':
                    ty = ty[2]
                elif isinstance(ty, str) and ty in self.prog.structs and x[0] == 'i':
                    ty = self.prog.structs[ty]['f'][x[1]][1]
                else:
                    return None
            return ty
        return None

    def size(self, ty):
        try:
            return self.prog.sizeof(ty)
        except Exception:
            return None

    def base(self, o):
        for _ in range(20):
            i = self.ins(o)
            if i is None or i.op not in ('gep', 'bitcast', 'freeze'):
                return o
            o = i.ops[0]
        return o

    def title(self, o):
        o = self.base(o)
        t = self.loc(o)
        if t[0] == 'alloca':
            return self.fn.ins[t[1]].x[1] or 'a local'
        if t[0] == 'fld':
            return tag(t[1])
        return t[1] if t[0] == 'global' else 'a buffer'

    def room(self, o, b, depth=0):
        """(bytes left at least, first offset at least) behind a pointer, or None: owner unknown"""
        if depth > 12:
            return None
        i = self.ins(o)
        t = self.loc(o)
        if t[0] in ('alloca', 'global') or t[0] == 'fld':
            ty = self.type(o)
            if ty is None or t[0] == 'alloca' and self.fn.ins[t[1]].ops and self.fn.ins[t[1]].ops[0] != ['i', 1, 32]:
                return None
            n = self.size(ty)
            if t[0] == 'alloca' and n is not None and len(self.fn.ins[t[1]].ops) and self.fn.ins[t[1]].ops[0][0] == 'i':
                n *= self.fn.ins[t[1]].ops[0][1]
            if n is None:
                return None
            # a first scalar member stands for its structure as well
            return n, 0
        if i is None:
            return None
        if i.op == 'gep':
            r = self.room(i.ops[0], b, depth + 1)
            if r is None:
                return None
            n, off = r
            ty = i.x
            for k, x in enumerate(i.ops[1:]):
                lo, hi = self.R.range(x, b)
                if k == 0:
                    es = self.size(ty)
                elif isinstance(ty, list) and ty[0] == 'arr':
                    ty = ty[2]
                    es = self.size(ty)
                elif isinstance(ty, str) and ty in self.prog.structs and x[0] == 'i':
                    o0 = self.prog.structs[ty]['f'][x[1]][0]
                    ty = self.prog.structs[ty]['f'][x[1]][1]
                    n, off = n - o0, off + o0
                    continue
                else:
                    return None
                if es is None:
                    return None
                n, off = n - hi * es, off + lo * es
            return n, off
        if i.op in ('bitcast', 'freeze'):
            return self.room(i.ops[0], b, depth + 1)
        if i.op == 'select':
            rs = [self.room(x, b, depth + 1) for x in i.ops[1:]]
            return None if None in rs else (min(r[0] for r in rs), min(r[1] for r in rs))
        if i.op == 'phi':
            rs = [self.room(x, p, depth + 4) for x, p in zip(i.ops, i.x) if x != ['n']]
            return None if None in rs or not rs else (min(r[0] for r in rs), min(r[1] for r in rs))
        if i.op == 'call' and self.name(i) in ('g_malloc', 'malloc', 'g_malloc0', 'calloc', 'g_malloc_n', 'g_malloc0_n'):
            lo = 1
            for x in i.ops:
                lo *= self.R.range(x, i.b)[0]
            if all(x[0] == 'i' for x in i.ops):
                return lo, 0
        return None

    # ---- calls
    def call(self, i):
        c, name, args = self.c, self.name(i), i.ops
        if name in FILL:
            b, n, term = FILL[name]
            if len(args) <= n:
                return
            self.seen(i)
            r = self.room(args[b], i.b)
            lo, hi = self.R.range(args[n], i.b)
            if r is None:
                c.count('buffers of a size only their owner knows')
                return
            c.count('bounded fills judged')
            if self.ty(args[n]) == 'i32' and lo < 0:
                hi = INF
            if r[1] < 0:
                self.bad(i, 'room', '%s fills %s from before its start' % (name, self.title(args[b])))
            elif hi > r[0] or lo < 0:
                self.bad(i, 'room', '%s may put %s bytes into %s, which has room for %s' % (name, 'any number of' if hi >= 2 ** 31 or lo < 0 else int(hi), self.title(args[b]), int(r[0]) if r[0] > -INF else '?'))
            return
        if name in OPEN:
            self.seen(i)
            r = self.room(args[0], i.b)
            n = None
            if name in ('strcpy', 'stpcpy') and args[1][0] == 's':
                n = len(args[1][1])
            elif name in ('strcpy', 'stpcpy') and isinstance(self.type(args[1]), list):
                n = self.type(args[1])[1] - 1
            elif name == 'sprintf' and args[1][0] == 's':
                n = maxprint(self.R, args[1][1], args[2:], i.b)
            c.count('unbounded fills judged')
            if r is None:
                return
            if n is None or n + 1 > r[0]:
                self.bad(i, 'room', '%s puts a text of any length into %s' % (name, self.title(args[0])) if n is None else '%s may put %d bytes into %s, which has room for %d' % (name, n + 1, self.title(args[0]), int(r[0])))
            return
        if name in ('sscanf', 'fscanf') and len(args) > 1:
            self.seen(i)
            if args[1][0] != 's':
                return c.count('scans with a format that varies')
            k = 2
            for m in DIR.finditer(args[1][1]):
                star, w, mod, cv = m.groups()
                if cv == '%' or star:
                    continue
                if k >= len(args):
                    return self.bad(i, 'room', 'a scan has more conversions than destinations')
                a = args[k]
                k += 1
                r = self.room(a, i.b)
                c.count('scan conversions judged')
                if cv in 'sc' or cv[0] == '[':
                    if mod in ('l', 'm'):
                        continue
                    need = (int(w) if w else INF if cv != 'c' else 1) + (cv != 'c')
                    if r is None:
                        if need == INF:
                            self.bad(i, 'room', 'a scan stores a text of any length')
                        else:
                            c.count('buffers of a size only their owner knows')
                    elif need > r[0]:
                        self.bad(i, 'room', 'a scan may store %s bytes into %s, which has room for %d' % ('any number of' if need == INF else need, self.title(a), r[0]))
                else:
                    n = BITS.get(mod or '', 64) if cv in 'diuoxXn' else {'': 32, 'l': 64, 'L': 128}.get(mod or '', 64)
                    if r is not None and r[0] * 8 < n:
                        self.bad(i, 'room', 'a scan stores %d bits into %s, which has %d' % (n, self.title(a), r[0] * 8))

    def ty(self, o):
        return self.R.ty(o)

    # ---- indexes
    def accessed(self, g):
        """uses of the element an index selects: True if it is read or written, not only pointed at"""
        for j in self.users.get(g.id, ()):
            if j.op == 'load' or j.op == 'store' and j.ops[1] == ['v', g.id]:
                return True
            if j.op in ('gep', 'fld') and j.ops[0] == ['v', g.id] and self.accessed(j):
                return True
        return False

    def index(self, g):
        ty = g.x
        dims = []           # (index operand, number of elements)
        for k, x in enumerate(g.ops[1:]):
            if k == 0:
                bt = self.type(g.ops[0])
                # a pointer to the first element of an array
                if isinstance(bt, list) and bt[0] == 'arr' and bt != ty and self.size(bt[2]) == self.size(ty):
                    dims.append((x, bt[1]))
                elif bt == ty and isinstance(bt, list):
                    if x[0] != 'i' or x[1]:
                        dims.append((x, 1))
            elif isinstance(ty, list) and ty[0] == 'arr':
                dims.append((x, ty[1]))
                ty = ty[2]
            elif isinstance(ty, str) and ty in self.prog.structs and x[0] == 'i':
                ty = self.prog.structs[ty]['f'][x[1]][1]
            else:
                return
        for x, n in dims:
            if not n:
                continue
            lo, hi = self.R.range(x, g.b)
            if x[0] != 'i':
                self.c.count('indexes judged')
            self.seen(g)
            if lo >= 0 and hi < n:
                continue
            acc = self.accessed(g)
            if not acc and lo >= 0 and hi <= n:
                continue
            if not acc and not self.users.get(g.id):
                continue
            if not acc and all(j.op in ('call', 'phi', 'icmp', 'ptrtoint') for j in self.users.get(g.id, ())) and self.room(['v', g.id], g.b) is not None and any(self.name(j) in FILL for j in self.users[g.id] if j.op == 'call'):
                continue            # judged at the call
            k = self.member(x)
            if k:
                if self.c.inv.get(k, INF) > n:
                    self.c.inv[k] = n
                    self.c.again = True
                continue
            self.bad(g, 'index', 'an array of %d is indexed by what may be %s' % (n, 'negative' if lo < 0 else int(hi) if hi < 2 ** 31 - 1 else 'anything'))

    def member(self, o):
        """the structure member a value was loaded from, widened at most"""
        o = self.R.canon(o)
        i = self.ins(o)
        while i is not None and i.op in ('sext', 'zext', 'trunc', 'freeze'):
            o = self.R.canon(i.ops[0])
            i = self.ins(o)
        if i is not None and i.op == 'load':
            t = self.loc(i.ops[0])
            if t[0] == 'fld' and not isinstance(self.prog.field_type(t[1]), list):
                return t[1]
        return None

    def store(self, i):
        t = self.loc(i.ops[1])
        if t[0] == 'fld' and t[1] in self.c.inv:
            n = self.c.inv[t[1]]
            lo, hi = self.R.range(i.ops[0], i.b)
            self.c.count('stores of index members judged')
            if lo < 0 or hi >= n:
                k = self.member(i.ops[0])
                if not (k and self.c.inv.get(k, INF) <= n):
                    self.bad(i, 'index', '%s, which is an index into an array of %d, may become %s' % (tag(t[1]), n, 'negative' if lo < 0 else int(hi) if hi < INF else 'anything'))

    # ---- terminators
    def buf(self, o):
        o = self.base(o)
        t = self.loc(o)
        if t[0] == 'alloca':
            return ('A', t[1])
        if t[0] == 'global':
            return ('g', t[1])
        if t[0] == 'fld':
            return ('f', t[1])
        return None

    def chars(self, o):
        t = self.type(self.base(o))
        return isinstance(t, list) and t[0] == 'arr' and t[2] == 'i8'

    def texts(self):
        fn = self.fn
        fills = [i for i in fn.instrs() if i.op == 'call' and i.b in self.reach and self.name(i) in FILL and FILL[self.name(i)][2] is False
                 and self.name(i) not in ('memcpy', '__memcpy_chk', 'mempcpy', 'bcopy') and len(i.ops) > FILL[self.name(i)][1] and self.buf(i.ops[FILL[self.name(i)][0]]) and self.chars(i.ops[FILL[self.name(i)][0]])]
        if not fills:
            return
        clear = [i for i in fn.instrs() if i.op == 'call' and self.name(i) in ('memset', 'llvm.memset.p0.i64', 'bzero') and i.ops[1] == ['i', 0] + i.ops[1][2:]]
        tainted = {}
        for i in fills:
            b, n, _ = FILL[self.name(i)]
            self.c.count('fills without a terminator followed')
            r = self.room(i.ops[b], i.b)
            hi = self.R.range(i.ops[n], i.b)[1]
            if r is not None and hi < r[0] and any(self.buf(k.ops[0]) == self.buf(i.ops[b]) and fn.dominates(k, i) for k in clear):
                continue
            tainted[i.id] = self.buf(i.ops[b])
        # states: (buffers without a terminator, flags: constants merged by phis that later branches test)
        flags = {i.id for i in fn.instrs() if i.op == 'phi' and bits(i.ty) and any(o[0] == 'i' for o in i.ops)}
        live = fn.livein()
        state = {b: set() for b in self.reach}
        state[0].add((frozenset(), ()))

        def step(i, s, judge):
            if i.id in tainted:
                return s | {tainted[i.id]}
            if i.op == 'store' and i.ops[0][0] == 'i' and i.ops[0][1] == 0:
                return s - {self.buf(i.ops[1])}
            if i.op == 'call':
                n = self.name(i)
                if n in ('memset', 'llvm.memset.p0.i64') or n in FILL and FILL[n][2]:
                    return s - {self.buf(i.ops[FILL[n][0] if n in FILL else 0])}
                s2 = s - {self.buf(a) for a in i.ops[2:]} if n == 'sscanf' else s
                if judge and n in TEXT:
                    for k, a in enumerate(i.ops):
                        if self.buf(a) in s and self.buf(a) and not (n in FILL and k == FILL[n][0]) and not (n == 'sscanf' and k > 1):
                            self.bad(i, 'terminator', '%s, which may lack its terminator, is used as a text by %s' % (self.title(a), n))
                return s2
            return s

        def value(o, env, d=0):
            if o[0] == 'i':
                return o[1]
            if o[0] != 'v' or d > 6:
                return None
            if o[1] in env:
                return env[o[1]]
            i = fn.ins.get(o[1])
            if i is None:
                return None
            if i.op in ('zext', 'sext', 'trunc', 'freeze'):
                v = value(i.ops[0], env, d + 1)
                return None if v is None else abs(v) if self.R.ty(i.ops[0]) == 'i1' else v
            if i.op == 'icmp':
                x, y = value(i.ops[0], env, d + 1), value(i.ops[1], env, d + 1)
                if x is None or y is None:
                    return None
                return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[i.x if i.x in ('eq', 'ne') else i.x[1:]])
            if i.op == 'xor' and i.ops[1][0] == 'i' and bits(i.ty) == 1:
                v = value(i.ops[0], env, d + 1)
                return None if v is None else int(not v)
            return None

        def ways(b, env):
            t = fn.blocks[b][-1]
            if t.op == 'br' and t.ops:
                v = value(t.ops[0], env)
                if v is not None:
                    return [t.x[0] if v else t.x[1]]
            return fn.succ[b]
        work = [0]
        while work:
            b = work.pop()
            for s, e in list(state[b]):
                env = dict(e)
                for i in fn.blocks[b]:
                    s = step(i, s, False)
                for d in ways(b, env):
                    n = {k: v for k, v in env.items() if k in live[d]}
                    for i in fn.blocks[d]:
                        if i.op != 'phi':
                            break
                        if i.id in flags:
                            v = value(i.ops[i.x.index(b)], env)
                            n.pop(i.id, None)
                            if v is not None and len(n) < 4:
                                n[i.id] = v
                    q = (s, tuple(sorted(n.items())) if len(state[d]) < 64 else ())
                    if q not in state[d]:
                        state[d].add(q)
                        work.append(d)
        for b in fn.rpo():
            for s, e in state[b]:
                for i in fn.blocks[b]:
                    s = step(i, s, True)

    def run(self):
        self.users = {}
        for i in self.fn.instrs():
            for o in i.ops:
                if o[0] == 'v':
                    self.users.setdefault(o[1], []).append(i)
        for b in self.fn.rpo():
            for i in self.fn.blocks[b]:
                if i.op == 'call':
                    self.call(i)
                elif i.op == 'gep' and self.array(i):
                    self.index(i)
                elif i.op == 'store' and self.c.inv:
                    self.store(i)
        self.texts()

    def array(self, g):
        t = self.type(g.ops[0])
        return isinstance(g.x, list) or isinstance(t, list) and t[0] == 'arr'


def sites(c, f):
    for i in f.instrs():
        n = api.ALIAS.get(i.callee(), i.callee()) if i.op == 'call' and i.callee() else None
        if n in FILL or n in OPEN or n in ('sscanf', 'fscanf') or i.op == 'gep' and isinstance(i.x, list) and any(o[0] != 'i' for o in i.ops[1:]):
            yield i


def run(c):
    c.sites, c.inv = set(), {}
    prog = c.prog
    flat = [(r, c.flat(r)) for r in ROOTS]
    inside = set()
    for _, f in flat:
        for i in f.instrs():
            for l in i.loc or ():
                inside.add(l[0])
    # functions no operation contains
    rest = [f for f in prog.fns.values() if f.name not in inside and any(True for _ in sites(c, f))]
    counts = dict(c.counts)
    for n in range(5):
        c.again, c.viols = False, []
        c.counts = dict(counts)
        for f in [f for _, f in flat] + rest:
            F(c, f).run()
        for f in prog.fns.values():         # stores to index members elsewhere
            if c.inv and f.name not in inside and f not in rest:
                F(c, f).run()
        if not c.again:
            break
    left = sorted({i.where() for f in prog.fns.values() for i in sites(c, f)} - c.sites)
    c.count('sites left out', len(left))
    if left:
        raise Broken('not analysed: ' + ', '.join(left[:5]))
    for k in ('bounded fills judged', 'scan conversions judged', 'indexes judged'):
        c.need(k, 3)
    c.ok('room behind every buffer that is filled')
    c.ok('index within every array of known size')
    c.ok('a terminator before every use as a text')
    for k, n in sorted(c.inv.items()):
        c.ok('%s stays below %d' % (tag(k), n))
