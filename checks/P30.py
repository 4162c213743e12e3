"""Effect inventory of everything reachable from main: every library call that can create, write, rename, remove or re-permission a file is a
site.  Opens whose flags are constant and read-only are discharged on the spot; every other site is reached by propagating the public
operations that own a file (saving the state, setting up and reopening the log), and its path must be, as a term, that operation's own file or
the state file's sibling, with permissions that exclude other users.  Callers must hand these operations the configured names."""
from trace import *
from sim import static_key

JOBS = ['save preload_state_save']
OWNERS = {'preload_state_save': 'state', 'preload_state_write_file': 'state', 'preload_log_init': 'log', 'preload_log_reopen': 'log'}
PATHARG = {'unlink': (0,), 'rename': (0, 1), 'rmdir': (0,), 'remove': (0,), 'truncate': (0,), 'chmod': (0,), 'creat': (0,), 'mkstemp': (0,), 'g_mkstemp': (0,), 'g_mkstemp_full': (0,), 'g_file_set_contents': (0,), 'g_file_set_contents_full': (0,)}
DENY = {'mkdir', 'g_mkdir', 'g_mkdir_with_parents', 'mknod', 'mkfifo', 'link', 'symlink', 'linkat', 'symlinkat', 'mknodat', 'mkdirat', 'chown', 'lchown', 'fchown', 'fchownat', 'g_chmod', 'fchmodat', 'utime', 'utimes', 'futimes', 'futimens', 'utimensat', 'g_utime',
        'system', 'popen', 'g_spawn_sync', 'g_spawn_async', 'g_spawn_command_line_sync', 'g_spawn_command_line_async', 'execv', 'execvp', 'execve', 'execlp', 'execle', 'execvpe', 'posix_spawn', 'posix_spawnp', 'fallocate', 'posix_fallocate', 'setxattr', 'lsetxattr', 'fsetxattr', 'removexattr',
        'mount', 'umount', 'umount2', 'chroot', 'pivot_root', 'swapon', 'swapoff', 'sendfile', 'copy_file_range', 'splice', 'shm_open', 'shm_unlink', 'sem_open', 'mq_open', 'bind', 'g_dir_make_tmp', 'mkdtemp', 'g_mkdtemp', 'tmpfile', 'tmpnam', 'tempnam', 'openat', 'unlinkat', 'renameat', 'renameat2', 'open_by_handle_at',
        'ftruncate', 'ftruncate64', 'fchmod', 'lockf', 'msync', 'process_madvise', 'freopen', 'fdopen_'}
SYSCALLS = {187: 'readahead', 221: 'fadvise64', 251: 'ioprio_set', 28: 'madvise'}
IOCTL = {1: 'FIBMAP', 2: 'FIGETBSZ', 0xC020660B: 'FS_IOC_FIEMAP', -1071618549: 'FS_IOC_FIEMAP'}
O_W = 0o1 | 0o2 | 0o100 | 0o1000 | 0o20200000 & ~0o200000
READMODE = re.compile(r'^r[bcemx]*$')


def bits(op, fn, prog, d=0):
    """union of the bits an integer operand can have, or None"""
    if d > 8:
        return None
    if op[0] == 'i':
        return op[1]
    if op[0] == 'n':
        return 0
    if op[0] == 'v':
        i = fn.ins[op[1]]
        if i.op in ('or', 'select', 'phi') or i.op == 'bin' and i.x in ('or', '|'):
            os = i.ops[1:] if i.op == 'select' else [o[0] if isinstance(o[0], list) else o for o in i.ops]
            r = 0
            for o in os:
                b = bits(o, fn, prog, d + 1)
                if b is None:
                    return None
                r |= b
            return r
        if i.op in ('zext', 'sext', 'trunc', 'cast'):
            return bits(i.ops[0], fn, prog, d + 1)
    return None


class Own(Client):
    """auto: nothing; every site reached is judged where it is reached"""

    def __init__(self, kind, sites):
        self.kind, self.sites = kind, sites

    def init(self):
        return 0

    def own(self, t):
        t = uncast(t)
        if self.kind == 'fields':
            l = unload(t)
            return l is not None and (isfld(l, 'ctx.statefile') or isfld(l, 'ctx.logfile'))
        return t is mk('arg', 0, self.sim.fn.args[0][0])

    def sibling(self, t):
        t = uncast(t)
        if self.kind != 'state' or t.k != 'c':
            return False
        a = t.a[2:]
        if t.a[1] == 'g_strconcat':
            return len(a) >= 2 and self.own(a[0]) and all(x.k == 's' and '/' not in x.a[0] or x is ZERO for x in a[1:])
        if t.a[1] == 'g_strdup_printf':
            return a and a[0].k == 's' and bool(re.match(r'%s[^%/]+$', a[0].a[0])) and self.own(a[1])
        return False

    def path(self, S, i, t, what):
        if not (self.own(t) or self.sibling(t)):
            self.bad(S, i, 'files', '%s %s, which is neither the log, the state file nor its temporary sibling' % (what, show(t)))
        self.ctx.count('writing sites judged')

    def call(self, S, i, name, args, ret, label):
        self.sites.discard(i.where())
        if name == 'open':
            fl = args[1]
            if fl.k != 'i' or fl.a[0] & O_W:
                if args[0].k == 's' and args[0].a[0] == '/dev/null':
                    return
                self.path(S, i, args[0], 'open for writing of')
                if fl.k == 'i' and fl.a[0] & 0o100:
                    lo, hi, ne = S.rng(args[2]) if len(args) > 2 else (0, INF, ())
                    if lo != hi or int(lo) & 0o7:
                        self.bad(S, i, 'permissions', '%s is created with permissions %s' % (show(args[0]), '0%o' % int(lo) if lo == hi else show(args[2])))
        elif name in ('fopen', 'g_io_channel_new_file'):
            if not (args[1].k == 's' and READMODE.match(args[1].a[0])):
                self.path(S, i, args[0], 'open for writing of')
                self.bad(S, i, 'permissions', '%s is created with default permissions' % show(args[0]))
        elif name in PATHARG:
            for n in PATHARG[name]:
                self.path(S, i, args[n], name + ' of')
            if name in ('creat', 'chmod') and (args[1].k != 'i' or args[1].a[0] & 0o7):
                self.bad(S, i, 'permissions', '%s is given permissions for other users' % show(args[0]))
            if name in ('g_file_set_contents',):
                self.bad(S, i, 'permissions', '%s is created with default permissions' % show(args[0]))


def canon(n):
    import api
    return api.ALIAS.get(n, n)


def run(c):
    prog = c.prog
    reach = sorted(f for f in prog.reachable(['main']) if f in prog.fns)
    sites, fns = {}, set()
    for f in reach:
        fn = prog.fns[f]
        for i in fn.calls():
            n = i.callee()
            if n is None or n in prog.fns:
                continue
            n = canon(n)
            c.count('library calls classified')
            if n == 'open':
                b = bits(i.ops[1], fn, prog)
                if b is not None and not b & O_W:
                    c.count('read-only opens')
                    continue
            elif n in ('fopen', 'g_io_channel_new_file'):
                if i.ops[1][0] == 's' and READMODE.match(i.ops[1][1]):
                    c.count('read-only opens')
                    continue
            elif n == 'mmap':
                p, fl = bits(i.ops[2], fn, prog), bits(i.ops[3], fn, prog)
                if (p is None or p & 2) and (fl is None or fl & 1):
                    c.bad('contents', i.where(), 'a file is mapped shared and writable')
                c.count('mappings')
                continue
            elif n == 'madvise':
                b = bits(i.ops[2], fn, prog)
                if b == 9:
                    c.bad('contents', i.where(), 'madvise removes the contents of the mapped file')
                continue
            elif n == 'ioctl':
                if i.ops[1][0] != 'i' or i.ops[1][1] not in IOCTL:
                    c.bad('contents', i.where(), 'an ioctl other than a query of the block layout is issued (%s)' % (i.ops[1][1:2],))
                c.count('ioctls')
                continue
            elif n == 'syscall':
                if i.ops[0][0] != 'i' or i.ops[0][1] not in SYSCALLS:
                    c.bad('effects', i.where(), 'system call %s is made' % (i.ops[0][1:2],))
                continue
            elif n == 'execl':
                if not (i.ops[0][0] == 's' and i.ops[0][1] in ('/sbin/init', '/bin/init')):
                    c.bad('effects', i.where(), 'another program is run')
                continue
            elif n in DENY:
                c.bad('effects', i.where(), '%s is called' % n)
                continue
            elif n not in PATHARG:
                continue
            sites[i.where()] = (f, n)
            fns.add(f)
            c.count('writing sites')
    c.need('read-only opens', 4)
    c.need('writing sites', 4)
    owners = [r for r in OWNERS if r in prog.fns]
    if not owners:
        raise Broken('no operation that owns a file found')
    # what can be reached without going through an owner
    cg = prog.callgraph()
    free, w = set(), ['main']
    while w:
        x = w.pop()
        if x in free or x in owners:
            continue
        free.add(x)
        w.extend(cg.get(x, ()))
    roots = [r for r in owners if fns & prog.reachable([r])]
    loose = sorted(f for f in fns if f in free)
    jobs = list(JOBS) + ['o:%s %s' % (r, r) for r in roots] + ['u:%s %s' % (f, f) for f in loose]
    c.load(jobs)
    left = set(sites)
    for r in roots:
        c.sim('o:' + r, Own(OWNERS[r], left))
        c.ok('%s: every writing call it reaches' % r)
    for f in loose:
        c.sim('u:' + f, Own('fields', left))
    for s in sorted(left):
        if sites[s][0] in loose:
            continue
        # not reached by any feasible path of its owner
        c.count('writing sites on infeasible paths')
    # callers of the owners
    for f in reach:
        fn = prog.fns[f]
        for i in fn.calls(*owners):
            k = OWNERS[i.callee()]
            c.count('calls of owners')
            if not named(c, fn, i.ops[0], k, set()):
                c.bad('names', i.where(), '%s is given a name that is not the configured one' % i.callee())
    c.assume('observed and prefetched files are changed only through the library calls classified here (a descriptor opened read-only cannot write)')


def named(c, fn, op, kind, seen):
    """the operand is the configured name of that kind"""
    prog = c.prog
    if op[0] == 'a':
        if op[1] == 0 and OWNERS.get(fn.name) == kind:
            return True
        key = (fn.name, op[1])
        if key in seen:
            return True
        seen.add(key)
        cs = [(g, j) for g in prog.fns.values() for j in g.calls(fn.name)]
        return bool(cs) and all(named(c, g, j.ops[op[1]], kind, seen) for g, j in cs)
    if op[0] != 'v':
        return False
    i = fn.ins[op[1]]
    if i.op == 'load':
        if i.ops[0][0] == 'g':
            g = i.ops[0][1]
            return fromstores(c, g, kind, seen)
        k = static_key(prog, fn, i.ops[0])
        if k[0] == 'F':
            return tag(k[1]) == ('ctx.statefile' if kind == 'state' else 'ctx.logfile')
        if i.ops[0][0] == 'v' and fn.ins[i.ops[0][1]].op == 'alloca':
            st = [j for j in fn.instrs() if j.op == 'store' and j.ops[1] == i.ops[0]]
            return bool(st) and all(named(c, fn, j.ops[0], kind, seen) for j in st)
        return False
    if i.op in ('phi', 'select'):
        os = i.ops[1:] if i.op == 'select' else [o[0] if isinstance(o[0], list) else o for o in i.ops]
        return all(named(c, fn, o, kind, seen) for o in os)
    if i.op == 'call' and i.callee() in ('g_strdup',):
        return named(c, fn, i.ops[0], kind, seen)
    return False


def fromstores(c, g, kind, seen):
    if ('g', g) in seen:
        return True
    seen.add(('g', g))
    st = [(f, j) for f in c.prog.fns.values() for j in f.instrs() if j.op == 'store' and j.ops[1] == ['g', g]]
    return bool(st) and all(j.ops[0] == ['n'] or named(c, f, j.ops[0], kind, seen) for f, j in st)
