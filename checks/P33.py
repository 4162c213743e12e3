"""Constant propagation of every documented log level, with and without the fatal flag, at every verbosity through the handler that
preload_log_init installs: on every path a message at or below the verbosity is written (as data, not as a format), and the process ends, with a
failure status and after the message was written, exactly when the message is fatal.  Typestate of the descriptor table over
preload_log_init and preload_log_reopen, for every combination of standard descriptors that are closed when the daemon starts and every
outcome of open and dup2: afterwards input is empty, output and error are the log (opened for appending, never truncated, private), no other
descriptor is left, failed initial opens end the daemon, failed reopens keep the old log."""
from trace import *

JOBS = ['init preload_log_init', 'reopen preload_log_reopen', 'main main unroll ' + stopstr(['preload_cmdline_parse', 'preload_log_init', 'preload_state_run', 'preload_conf_load'])]
LEVELS = {4: 'error', 8: 'critical', 16: 'warning', 32: 'message', 64: 'info', 128: 'debug'}
FATAL = 2
O_ACC, O_WRONLY, O_RDWR, O_CREAT, O_TRUNC, O_APPEND = 3, 1, 2, 0o100, 0o1000, 0o2000
OUT = {'fprintf': (0, 1, 2), 'vfprintf': (0, 1, 2), '__fprintf_chk': (0, 2, 3), 'dprintf': (0, 1, 2), 'fputs': (1, None, 0), 'fwrite': (3, None, 0), 'write': (0, None, 1), 'g_printerr': (None, 0, 1), 'printf': (None, 0, 1),
       'puts': (None, None, 0), 'g_print': (None, 0, 1)}


def convs(fmt):
    return [m.group(0)[-1] for m in re.finditer(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z])', fmt) if m.group(0) != '%%']


class Handler(Client):
    # auto: message written
    def __init__(self, me, lvl, fatal, must, mustnot, written):
        self.me, self.lvl, self.fatal, self.must, self.mustnot, self.written = me, lvl, fatal, must, mustnot, written
        self.msg = None

    def init(self):
        return False

    def what(self):
        return 'a %s%s message' % ('fatal ' if self.fatal else '', LEVELS.get(self.lvl, 'level %d' % self.lvl))

    def call(self, S, i, name, args, ret, label):
        if name in OUT:
            f, fmt, first = OUT[name]
            if fmt is not None and uncast(args[fmt]) is self.msg:
                self.bad(S, i, 'format', 'a message is used as a format string')
            data = args[first:] if fmt is not None else [args[first]]
            if any(uncast(a) is self.msg for a in data):
                if fmt is not None:
                    s = args[fmt].a[0] if args[fmt].k == 's' else None
                    n = [uncast(a) is self.msg for a in data].index(True)
                    if s is not None:
                        cv = convs(s)
                        if n >= len(cv) or cv[n] != 's':
                            self.bad(S, i, 'format', 'the message is not printed by the format')
                            return
                S.auto = True
                self.ctx.count('writes of the message')
        elif name == self.me:
            if uncast(args[2]) is self.msg and args[1].k == 'i' and args[1].a[0] != self.lvl | (FATAL if self.fatal else 0):
                if self.written(args[1].a[0]):
                    S.auto = True
        elif name == 'g_log':
            self.bad(S, i, 'recursion', 'the log handler logs a message itself')

    def ret(self, S, i, v):
        self.ctx.count('handler paths')
        if self.fatal:
            self.bad(S, i, 'fatal', '%s does not end the daemon' % self.what())
        self.check(S, i)

    def check(self, S, i):
        if self.must and not S.auto:
            self.bad(S, i, 'written', '%s is not written although the verbosity asks for it' % self.what())
        if self.mustnot and S.auto:
            self.bad(S, i, 'verbosity', '%s is written although the verbosity excludes it' % self.what())

    def dead(self, S, i):
        self.ctx.count('handler paths')
        if not self.fatal:
            self.bad(S, i, 'ends', '%s ends the daemon' % self.what())
        else:
            n = i.callee()
            if n in ('exit', '_exit', '_Exit', 'quick_exit'):
                a = self.sim.val(S, i.ops[0])
                if (a is ZERO or not (a.k == 'i' and a.a[0] & 255)):
                    self.bad(S, i, 'fatal', '%s ends the daemon with status %s' % (self.what(), show(a)))
        self.check(S, i)


NAMES = {0: 'standard input', 1: 'standard output', 2: 'standard error'}


class Fds(Client):
    """auto: (descriptor table as sorted tuple of (fd, content), log opened?, failed?)"""

    def __init__(self, start, reopen):
        self.start, self.reopen = tuple(sorted(start.items())), reopen

    def init(self):
        return self.start, None

    def keep_atoms(self, S):
        return {a for f in S.facts if any(x.k == 'arg' for x in subterms(f)) for a in f.atoms}

    def call(self, S, i, name, args, ret, label):
        tab, st = dict(S.auto[0]), S.auto[1]
        bad = self.bad
        if name == 'open':
            if label == 'err':
                S.auto = S.auto[0], 'failed'
                return
            fd = next(n for n in range(20) if n not in tab)
            p = args[0]
            s = p.a[0] if p.k == 's' else None
            fl = args[1].a[0] if args[1].k == 'i' else None
            if fl is None:
                raise Broken('flags of open are not constant')
            if s == '/dev/null':
                tab[fd] = 'null' if fl & O_ACC in (0, O_RDWR) else 'write-only null'
            elif uncast(p).k == 'arg':
                tab[fd] = 'log'
                if fl & O_ACC == 0 or fl & (O_CREAT | O_APPEND) != O_CREAT | O_APPEND:
                    bad(S, i, 'open', 'the log is opened with flags 0%o' % fl)
                if fl & O_TRUNC:
                    bad(S, i, 'open', 'opening the log discards what was logged before')
                if len(args) < 3 or args[2].k != 'i' or args[2].a[0] & 0o007:
                    bad(S, i, 'open', 'the log is created with permissions for other users')
                self.ctx.count('opens of the log')
            else:
                tab[fd] = 'other'
            if not S.refine(ret, fd, fd):
                return []
            S.auto = tuple(sorted(tab.items())), st
        elif name in ('dup2', 'dup3'):
            a, b = fdof(S, args[0]), fdof(S, args[1])
            if a is None or b is None:
                raise Broken('descriptor of dup2 unknown')
            out = []
            s = S.copy()
            if a in tab and s.refine(ret, b, b):
                t2 = dict(tab)
                t2[b] = tab[a]
                s.auto = tuple(sorted(t2.items())), st
                out.append(s)
            s = S.copy()
            if s.refine(ret, -1, -1):
                s.auto = S.auto[0], 'failed'
                out.append(s)
            return out
        elif name == 'close':
            a = fdof(S, args[0])
            if a is None:
                raise Broken('descriptor of close unknown')
            if a not in tab:
                bad(S, i, 'close', 'a descriptor that is not open is closed')
            tab.pop(a, None)
            S.auto = tuple(sorted(tab.items())), st
        elif name in ('fclose', 'freopen', 'fdopen', 'fopen', 'openat', 'creat', 'fcntl', 'dup', 'dup3', 'closefrom', 'close_range', 'g_open'):
            raise Broken('%s in the log set-up is not modelled' % name)
        elif name == 'g_log_set_default_handler':
            if args[0].k != 'fn':
                raise Broken('the log handler is not constant')
            self.ctx.handlers.add(args[0].a[0])
            S.auto = S.auto[0], (st or '') if st == 'failed' else 'handler'

    def ret(self, S, i, v):
        tab, st = dict(S.auto[0]), S.auto[1]
        self.ctx.count('set-up paths')
        a = mk('arg', 0, self.sim.fn.args[0][0])
        nolog = S.isnull(a) or any(S.rng(f)[:2] == (0, 0) and unload(f) is not None and uncast(rootidx(unload(f))) is a for f in S.facts)
        if not self.reopen and st not in ('handler',):
            if st == 'failed':
                return self.bad(S, i, 'init', 'the daemon goes on although its log could not be set up')
            self.bad(S, i, 'init', 'the log handler is not installed')
        if st == 'failed' and self.reopen:
            extra = {k: x for k, x in tab.items() if k > 2}
            if extra:
                self.bad(S, i, 'leak', 'a failed reopen leaves an extra descriptor')
            for k in (1, 2):
                if tab.get(k) not in ('log', 'old'):
                    self.bad(S, i, 'reopen', 'a failed reopen leaves %s without a log' % NAMES[k])
            return
        if nolog:
            if tab != dict(self.start):
                self.bad(S, i, 'no log', 'descriptors are changed although no log file is configured')
            return
        for k, want in ((0, 'null'), (1, 'log'), (2, 'log')):
            if tab.get(k) != want:
                self.bad(S, i, 'descriptors', '%s is %s after the log was %sopened%s' % (NAMES[k], {'log': 'the log', 'null': '/dev/null', 'old': 'the old log', 'inherited': 'what it was before', None: 'closed'}.get(tab.get(k), tab.get(k)),
                         're' if self.reopen else '', '' if self.reopen or len(self.start) == 3 else ' when the daemon is started with standard descriptors closed'))
        if any(k > 2 for k in tab):
            self.bad(S, i, 'leak', 'an extra descriptor stays open')

    def dead(self, S, i):
        if self.reopen:
            self.bad(S, i, 'reopen', 'reopening the log can end the daemon')
        elif S.auto[1] != 'failed':
            self.bad(S, i, 'init', 'setting up the log ends the daemon although nothing failed')


def rootidx(t):
    while t.k == 'idx':
        t = t.a[0]
    return t


def fdof(S, t):
    lo, hi, ne = S.rng(t)
    return int(lo) if lo == hi else None


def run(c):
    c.handlers = set()
    for closed in range(8):
        start = {n: 'inherited' for n in range(3) if not closed >> n & 1}
        c.sim('init', Fds(start, False))
    c.sim('reopen', Fds({0: 'null', 1: 'old', 2: 'old'}, True))
    c.need('opens of the log', 2)
    if not c.handlers:
        c.bad('init', 'preload_log_init', 'no log handler is installed')
        return
    c.ok('descriptor tables of set-up (8 start situations) and reopening on every path')
    # nothing else changes which messages are fatal or where they go
    for f in c.prog.fns.values():
        for i in f.calls('g_log_set_always_fatal', 'g_log_set_fatal_mask', 'g_log_set_handler', 'g_log_set_writer_func', 'g_log_remove_handler', 'g_log_set_handler_full'):
            c.bad('handler', i.where(), '%s changes which messages end the daemon or where they go' % i.callee())
        if f.name != 'preload_log_init':
            for i in f.calls('g_log_set_default_handler'):
                if f.name not in c.prog.reachable(['preload_log_init']):
                    c.bad('handler', i.where(), 'the log handler is replaced outside the set-up of the log')
    hs = sorted(c.handlers)
    c.load(JOBS + ['h:%s %s' % (h, h) for h in hs])
    glob = 'preload_log_level'
    for h in hs:
        fn = c.flat('h:' + h)
        memo = {}

        def go(level, verb):
            k = level, verb
            if k in memo:
                return memo[k]
            memo[k] = False
            lvl = level & 0xfffffffc
            must = lvl <= 4 << verb
            before = len(c.viols)
            cl = Handler(h, lvl, bool(level & FATAL), must, not must, lambda l: go(l, verb) or True)
            cl.msg = mk('arg', 2, fn.args[2][0])
            st = State()
            st.env[('a', 1)] = I(level)
            st.mem[mk('g', glob)] = I(verb)
            c.sim(fn, cl, [('G', glob)], state=st)
            memo[k] = must
            return must
        for verb in range(0, 11):
            for lvl in LEVELS:
                go(lvl, verb)
                go(lvl | FATAL, verb)
        c.ok('%s: %d combinations of level, fatal flag and verbosity' % (h, len(memo)))
    c.need('writes of the message', 60)
    c.assume('a descriptor returned by open is the lowest free one', 'g_error marks its message as fatal; GLib calls the default handler for every message of the program')
