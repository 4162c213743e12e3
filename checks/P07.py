"""Definite-success dataflow on the flattened operations (SSA, value and nullness ranges refined by the conditions that dominate a point, flags
merged by phis followed back to the ways in they stand for). Sources: pointers that may be absent (failed open, lookup, search, decoding; NULL
merged with a pointer), descriptors that may be -1, and memory written by a call only when it succeeds (each conversion of a scan needs the
scan to have returned at least its position; stat, g_file_get_contents, lookup_extended, ioctl... need their success value). Every
dereference, every library call that needs the pointer or descriptor, and every read of such memory that the call reaches without a fresh
store in between must lie where success is established, or the memory must have been given a default since the call was last made."""
BOUNDS = '''Pointers kept in heap structures are taken to be present (their presence is the model invariant of P16-P20); absent values are followed through
locals, helper functions and merges. Functions of the operations that are not reached from one are analysed on their own.'''
import re
from lib import *
from rng import Ranges, INF, bits
import P06

JOBS = P06.JOBS
ABSENT = {'fopen', 'fdopen', 'freopen', 'popen', 'opendir', 'readdir', 'g_hash_table_lookup', 'strstr', 'strchr', 'strrchr', 'strpbrk', 'g_strrstr', 'g_strstr_len', 'g_filename_from_uri', 'g_filename_to_uri',
          'getenv', 'realpath', 'g_slist_find', 'g_list_find', 'g_slist_nth', 'g_io_channel_new_file', 'g_file_read_link', 'fgets', 'g_dir_open', 'g_dir_read_name', 'getpwuid', 'getpwnam', 'g_hash_table_find',
          'g_utf8_normalize', 'strtok', 'strtok_r', 'memchr', 'g_tree_lookup', 'g_ptr_array_steal', 'localtime', 'gmtime', 'g_mapped_file_new', 'g_key_file_get_string', 'g_key_file_get_string_list', 'g_slist_last', 'g_list_last'}
FD = {'open', 'openat', 'creat', 'mkstemp', 'g_mkstemp', 'dup', 'socket', 'fileno', 'inotify_init', 'inotify_init1'}
# library functions and the arguments that must not be absent
NEEDS = {'fclose': (0,), 'fgets': (0, 2), 'fread': (3,), 'fwrite': (3,), 'fprintf': (0,), 'fputs': (0, 1), 'fputc': (1,), 'fflush': (0,), 'fscanf': (0,), 'fileno': (0,), 'feof': (0,), 'ferror': (0,), 'getline': (2,),
         'closedir': (0,), 'readdir': (0,), 'g_dir_close': (0,), 'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strstr': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'sscanf': (0,), 'atoi': (0,),
         'strtol': (0,), 'strtod': (0,), 'g_str_equal': (0, 1), 'g_str_hash': (0,), 'g_str_has_prefix': (0, 1), 'g_str_has_suffix': (0, 1), 'strcpy': (0, 1), 'strcat': (0, 1), 'memcpy': (0, 1), 'memset': (0,),
         'g_filename_from_uri': (0,), 'g_filename_to_uri': (0,), 'open': (0,), 'fopen': (0,), 'stat': (0,), 'rename': (0, 1), 'unlink': (0,), 'access': (0,), 'g_string_append': (1,), 'g_key_file_free': (0,),
         'g_io_channel_write_chars': (0,), 'g_io_channel_unref': (0,), 'g_io_channel_read_line_string': (0,), 'g_io_channel_shutdown': (0,), 'g_io_channel_flush': (0,), 'g_strstrip': (0,), 'g_strchomp': (0,),
         'g_strchug': (0,), 'g_ptr_array_add': (0, 1), 'g_ptr_array_remove': (0,), 'g_ptr_array_remove_fast': (0,), 'g_ptr_array_free': (0,), 'g_ptr_array_foreach': (0,), 'g_hash_table_insert': (0,),
         'g_hash_table_lookup': (0,), 'g_hash_table_remove': (0,), 'g_hash_table_destroy': (0,), 'g_hash_table_foreach': (0,), 'strftime': (3,), 'asctime': (0,), 'readlink': (0,), 'strdup': (0,)}
NEEDFD = {'read': 0, 'write': 0, 'close': 0, 'fstat': 0, 'fsync': 0, 'fdatasync': 0, 'readahead': 0, 'ioctl': 0, 'lseek': 0, 'ftruncate': 0, 'posix_fadvise': 1, 'dup2': 0, 'dup': 0, 'g_io_channel_unix_new': 0,
          'fchmod': 0, 'flock': 0, 'fdopen': 0, 'mmap': 4, 'g_unix_fd_add': 0, 'pread': 0, 'fcntl': 0, 'fchown': 0}
NEEDFD['posix_fadvise'] = 0
# memory written on success: arguments, (lowest, highest) success value
OUT = {'g_file_get_contents': ((1,), (1, INF)), 'stat': ((1,), (0, 0)), 'lstat': ((1,), (0, 0)), 'fstat': ((1,), (0, 0)), 'ioctl': ((2,), (0, INF)), 'g_hash_table_lookup_extended': ((2, 3), (1, INF)),
       'g_hash_table_iter_next': ((1, 2), (1, INF)), 'clock_gettime': ((1,), (0, 0)), 'gettimeofday': ((0,), (0, 0)), 'pipe': ((0,), (0, 0)), 'sysinfo': ((0,), (0, 0)), 'statfs': ((1,), (0, 0)),
       'fstatfs': ((1,), (0, 0)), 'getrlimit': ((1,), (0, 0)), 'waitpid': ((1,), (1, INF)), 'wait': ((0,), (1, INF)), 'g_ptr_array_find': ((2,), (1, INF)), 'read': ((1,), (0, INF)), 'readlink': ((1,), (0, INF)),
       'fgets': ((0,), (1, INF))}
CHECKED = {'g_file_get_contents', 'g_hash_table_lookup_extended'}


class F(P06.F):
    def __init__(self, c, fn):
        P06.F.__init__(self, c, fn)
        self.N = Ranges(fn, self.nullness)
        self.N.pointers = True

    def nullness(self, R, i, b, edge):
        if bits(i.ty) is not None:
            return self.known(R, i, b, edge) or ((-1, 2 ** 31 - 1) if i.op == 'call' and self.name(i) in FD else None)
        if i.op == 'call' and self.name(i) in ABSENT:
            return (0, 1)
        return (1, 1)

    # ---- success at a point
    def holds(self, test, b, depth=0, seen=(), more={}):
        if test(b):
            return True
        if depth > 4 or b in seen:
            return False
        for d, ins, know in self.N.ways(b, None, more):
            if ins and all(self.holds(lambda x, p=p, d=d: test(x) or test((p, d)) if x == p else test(x), p, depth + 1, seen + (b,), know.get(p, {})) for p in ins):
                return True
        return False

    def rangeat(self, o, b):
        if isinstance(b, tuple):
            self.N.range(o, b[0])
            return self.N.at(o, b[0], b[1])
        return self.N.range(o, b)

    def present(self, o, b):
        return self.holds(lambda x: (lambda r: r[0] > 0 or r[0] > r[1])(self.rangeat(o, x)), b)

    def origin(self, o, seen=None, d=0):
        """what an operand may be when it is absent"""
        seen = seen if seen is not None else set()
        o = self.R.canon(o)
        if o[0] == 'n':
            return 'NULL'
        if o[0] != 'v' or o[1] in seen or d > 12:
            return None
        seen.add(o[1])
        i = self.fn.ins.get(o[1])
        if i is None:
            return None
        if i.op == 'call' and self.name(i) in ABSENT | FD:
            return 'the result of ' + self.name(i)
        if i.op in ('phi', 'select', 'freeze', 'bitcast', 'trunc', 'sext'):
            ops = i.ops[1:] if i.op == 'select' else i.ops
            rs = [self.origin(x, seen, d + 1) for x in ops]
            if i.op == 'phi' and all(r in (None, 'NULL') for r in rs):
                return 'NULL' if 'NULL' in rs and self.R.ty(o) == 'p' else None
            return next((r for r in rs if r and r != 'NULL'), 'NULL' if 'NULL' in rs else None)
        return None

    def need(self, i, o, what):
        s = self.origin(o)
        if s is None:
            return
        self.c.count('uses of what may be absent')
        if not self.present(o, i.b):
            self.bad(i, 'absent', '%s, which may be absent, %s' % (s, what))

    def needfd(self, i, o, what):
        s = self.origin(o)
        if s is None:
            return
        self.c.count('uses of what may be absent')
        if not self.holds(lambda x: (lambda r: r[0] >= 0 or r[0] > r[1])(self.rangeat(o, x)), i.b):
            self.bad(i, 'absent', '%s, which may be -1, is used by %s' % (s, what))

    # ---- memory written on success
    def outs(self, i):
        """(address operand, lowest result, highest result)"""
        n = self.name(i)
        if n in ('sscanf', 'fscanf') and len(i.ops) > 1 and i.ops[1][0] == 's':
            k, pos = 2, 0
            for m in P06.DIR.finditer(i.ops[1][1]):
                star, w, mod, cv = m.groups()
                if cv == '%' or star:
                    continue
                if cv != 'n':
                    pos += 1
                if k < len(i.ops):
                    yield i.ops[k], max(pos, 0 if cv == 'n' else 1), INF
                k += 1
        elif n in OUT:
            args, (lo, hi) = OUT[n]
            for k in args:
                if k < len(i.ops) and i.ops[k][0] != 'n':
                    yield i.ops[k], lo, hi

    def place(self, o):
        """(root, exact address) of a destination"""
        return self.R.base(o), self.R.addr(self.base(o) if self.chars(o) else o)

    def writes(self, j, root, addr, whole):
        """j gives the destination a value for certain"""
        if j.op == 'store':
            a = self.R.addr(j.ops[1])
            return a == addr or whole and self.R.addr(self.base(j.ops[1])) == addr or bits(self.ty(j.ops[0])) == 8 and self.within(j.ops[1], addr)
        if j.op == 'call':
            n = self.name(j)
            if n in ('memset', 'memcpy', 'llvm.memset.p0.i64', 'llvm.memcpy.p0.p0.i64', 'snprintf', 'strcpy', 'g_strlcpy'):
                return self.R.base(j.ops[0]) == root and self.R.addr(self.base(j.ops[0])) in (addr, self.R.addr(root))
        return False

    def within(self, o, addr):
        """the address of a member of addr"""
        for _ in range(6):
            a = self.R.addr(o)
            if a == addr or a[:len(addr)] == addr:
                return True
            i = self.ins(o)
            if i is None or i.op not in ('gep', 'bitcast', 'freeze'):
                return False
            o = i.ops[0]
        return False

    def local(self, root):
        return root[0] == 'v' and self.fn.ins.get(root[1]) is not None and self.fn.ins[root[1]].op == 'alloca'

    def scans(self, i):
        for o, lo, hi in self.outs(i):
            root, addr = self.place(o)
            if not self.local(root) and not (root[0] == 'a' or root[0] == 'v'):
                continue
            ty = self.type(['v', root[1]]) if self.local(root) else None
            text = self.chars(o)
            self.c.count('conditional outputs followed')
            # a default since the call was last made
            dflt = [j for j in self.stores if self.writes(j, root, addr, text) and self.fn.dominates(j, i)]
            if any(not self.again(i, j) for j in dflt):
                continue
            if not self.local(root):
                if root[0] == 'a':
                    # handed to the caller
                    ok = all(self.success(i, lo, hi, t.b) for t in self.fn.instrs() if t.op == 'ret' and t.b in self.after(i))
                    if not ok and not text:
                        self.bad(i, 'unset', 'what %s writes only when it succeeds is handed on without a default' % self.name(i))
                continue
            for u in self.uses(i, root, addr, text):
                self.c.count('reads of conditional outputs')
                if not self.success(i, lo, hi, u.b):
                    if lo <= 0 and self.name(i) in ('sscanf', 'fscanf'):
                        continue
                    self.bad(u, 'unset', '%s is used where %s (%s) need not have %s' % (self.title(o) if text or self.R.addr(root) == addr else 'a member of ' + self.title(root).split('.')[0], self.name(i), i.where(), 'made %d conversion%s' % (lo, 's' if lo > 1 else '') if self.name(i) in ('sscanf', 'fscanf') else 'succeeded'))

    def success(self, i, lo, hi, b):
        o = ['v', i.id]
        if bits(i.ty) is None:
            return self.present(o, b)
        return self.holds(lambda x: (lambda r: r[0] > r[1] or r[0] >= lo and r[1] <= hi)(self.rangeat(o, x)), b)

    def after(self, i):
        return self.fn.reach_from(i.b)

    def again(self, i, j):
        """the call can be repeated without passing j"""
        if i.b == j.b:
            return False
        seen, w = set(), list(self.fn.succ[i.b])
        while w:
            x = w.pop()
            if x in seen or x == j.b:
                continue
            if x == i.b:
                return True
            seen.add(x)
            w.extend(self.fn.succ[x])
        return False

    def uses(self, i, root, addr, text):
        """reads of the destination that the call reaches without another value in between"""
        out, seen, w = [], set(), [(i.b, i.i + 1)]
        while w:
            b, n = w.pop()
            stop = False
            for j in self.fn.blocks[b][n:]:
                if j.op == 'load' and (self.R.addr(j.ops[0]) == addr or text and self.R.addr(self.base(j.ops[0])) == addr or addr == self.R.addr(root) and self.R.base(j.ops[0]) == root):
                    out.append(j)
                elif j is not i and self.writes(j, root, addr, text):
                    stop = True
                    break
                elif j.op == 'call' and j is not i:
                    n2 = self.name(j)
                    if any(self.place(o)[1] == addr for o, _, _ in self.outs(j)):
                        stop = True
                        break
                    for k, a in enumerate(j.ops):
                        if text and self.R.addr(self.base(a)) == addr and n2 not in ('memset', 'g_free') and self.ty(a) == 'p':
                            out.append(j)
                        elif not text and k in NEEDS.get(n2, ()) and self.R.addr(a) == addr:
                            out.append(j)
                    if any(self.R.addr(a) == addr for a in j.ops) and n2 and n2.startswith('llvm.lifetime'):
                        stop = True
                        break
                elif j is i:
                    stop = True
                    break
            if not stop:
                for s in self.fn.succ[b]:
                    if s not in seen:
                        seen.add(s)
                        w.append((s, 0))
        return out

    def run(self):
        fn = self.fn
        self.stores = [j for j in fn.instrs() if j.op in ('store', 'call') and j.b in self.reach]
        for b in fn.rpo():
            for i in fn.blocks[b]:
                if i.op == 'load':
                    self.need(i, self.ptr(i.ops[0]), 'is read')
                elif i.op == 'store':
                    self.need(i, self.ptr(i.ops[1]), 'is written to')
                elif i.op == 'call':
                    n = self.name(i)
                    for k in NEEDS.get(n, ()):
                        if k < len(i.ops):
                            self.need(i, self.ptr(i.ops[k]), 'is handed to %s' % n)
                    if n in ('g_string_printf', 'g_string_append_printf', 'g_strdup_printf', 'fprintf', 'snprintf', 'sprintf', 'g_strconcat'):
                        for o in i.ops[1:]:
                            if o[0] == 'v' and self.ty(o) == 'p':
                                self.need(i, self.ptr(o), 'is printed')
                    if n in NEEDFD and NEEDFD[n] < len(i.ops):
                        self.needfd(i, i.ops[NEEDFD[n]], n)
                    self.scans(i)

    def ptr(self, o):
        return self.R.base(o)


def run(c):
    c.sites, c.inv, c.again = set(), {}, False
    prog = c.prog
    flat = [c.flat(r) for r in P06.ROOTS]
    inside = {l[0] for f in flat for i in f.instrs() for l in i.loc or ()}
    rest = [f for f in prog.fns.values() if f.name not in inside]
    for f in flat + rest:
        F(c, f).run()
        c.count('functions analysed')
    c.need('uses of what may be absent', 30)
    c.need('conditional outputs followed', 30)
    c.need('reads of conditional outputs', 20)
    c.ok('every dereference and library call: the value is present')
    c.ok('every read of a conditional output: the call succeeded, or a default was given')
