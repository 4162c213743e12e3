"""Table and effect analysis of the command line.  The option table and the short-option string given to getopt_long are compared entry by
entry (value, argument).  Then, for every documented option, preload_cmdline_parse is propagated with that option as the one getopt_long
delivers: the settings written on every path must be exactly that option's, with exactly the documented value (as a term over the option's
argument), the value replaced is released exactly once, and the program ends exactly for help, version and unknown options, with the documented
status and stream."""
from trace import *
from unfold import unfold

JOBS = ['parse preload_cmdline_parse']
# long name: (short, takes an argument, {setting: value}) ; values: 'str' copy of the argument, 'int' its number, or a constant
DOC = {'help': ('h', 0, 'help'), 'version': ('v', 0, 'version'), 'conffile': ('c', 1, {'ctx.conffile': 'str'}), 'statefile': ('s', 1, {'ctx.statefile': 'str'}),
       'logfile': ('l', 1, {'ctx.logfile': 'str'}), 'foreground': ('f', 0, {'ctx.foreground': 1}), 'nice': ('n', 1, {'ctx.nicelevel': 'int'}), 'verbose': ('V', 1, {'preload_log_level': 'int'}),
       'debug': ('d', 0, {'ctx.logfile': 'empty', 'ctx.foreground': 1, 'preload_log_level': 9})}
STRS = {'ctx.conffile', 'ctx.statefile', 'ctx.logfile'}
GETOPT = {'getopt_long', 'getopt_long_only'}


def shorts(s):
    out, n = {}, 0
    while n < len(s):
        if s[n] in '+-:' and n == 0:
            n += 1
            continue
        a = 0
        m = n + 1
        while m < len(s) and s[m] == ':':
            a += 1
            m += 1
        out[s[n]] = min(a, 2)
        n = m
    return out


def setting(loc):
    while loc.k == 'idx':
        loc = loc.a[0]
    if loc.k == 'fld':
        t = tag(loc.a[1])
        return t if t.startswith('ctx.') else None
    if loc.k == 'g':
        return loc.a[0]
    return None


class Opt(Client):
    """auto: (round, settings stored ((name, value)...), released terms, output)"""

    def __init__(self, seq, what, expect, ended):
        self.seq, self.what, self.expect, self.ended = seq, what, expect, ended
        self.n = 0

    def init(self):
        return 0, (), (), ()

    def keep_atoms(self, S):
        a = {a for f in S.facts for a in f.atoms}
        for n, v in S.auto[1]:
            a |= v.atoms
        for v in S.auto[2]:
            a |= v.atoms
        return a

    def call(self, S, i, name, args, ret, label):
        r, st, fr, out = S.auto
        if name in GETOPT:
            v = self.seq[r] if r < len(self.seq) else -1
            if not S.refine(ret, v, v):
                return []
            S.auto = r + 1, st, fr, out
        elif name in ('getopt', 'g_option_context_parse'):
            raise Broken('%s is not modelled' % name)
        elif name in ('g_free', 'free'):
            t = uncast(args[0])
            if not S.isnull(t):
                if t in fr:
                    self.bad(S, i, 'release', 'a value is released twice for %s' % self.what)
                S.auto = r, st, fr + (t,), out
        elif name in ('fprintf', 'fputs', 'fwrite', '__fprintf_chk', 'vfprintf', 'printf', 'puts', 'putchar', 'fputc'):
            pos = {'fprintf': 0, '__fprintf_chk': 0, 'vfprintf': 0, 'fputs': 1, 'fwrite': 3, 'fputc': 1}.get(name)
            f = 'stdout'
            if pos is not None:
                l = unload(args[pos])
                f = l.a[0] if l is not None and l.k == 'g' else stream(S, args[pos])
            txt = args[{'fprintf': 1, '__fprintf_chk': 2, 'vfprintf': 1}.get(name, 0)]
            e = (f, bool(txt.k == 's' and re.search('usage', txt.a[0], re.I)))
            if e not in out:
                S.auto = r, st, fr, out + (e,)

    def store(self, S, i, loc, v):
        n = setting(loc)
        if n is None or root(loc).k == 'A' or n in ('optind', 'opterr'):
            return
        S.auto = S.auto[0], tuple(x for x in S.auto[1] if x[0] != n) + ((n, v),), S.auto[2], S.auto[3]

    def ret(self, S, i, v):
        self.n += 1
        self.ctx.count('option paths')
        r, st, fr, out = S.auto
        if self.ended:
            return self.bad(S, i, 'ends', '%s does not end the program' % self.what)
        st = dict(st)
        for n in sorted(set(st) - set(self.expect)):
            self.bad(S, i, 'effect', '%s also changes %s' % (self.what, n))
        for n, w in sorted(self.expect.items()):
            x = st.get(n)
            if x is None:
                self.bad(S, i, 'effect', '%s does not change %s' % (self.what, n))
                continue
            if not right(S, x, w):
                self.bad(S, i, 'effect', '%s sets %s to %s' % (self.what, n, show(x)))
            if n in STRS:
                k = sum(1 for t in fr if unload(t) is not None and setting(unload(t)) == n)
                if k != 1 and not any(unload(f) is not None and setting(unload(f)) == n and S.isnull(f) for f in S.facts):
                    self.bad(S, i, 'release', 'the value of %s replaced by %s is not released' % (n, self.what))
        for t in fr:
            l = unload(t)
            if uncast(t) in [uncast(x) for x in st.values()]:
                self.bad(S, i, 'release', '%s stores a value that is released' % self.what)
            if l is not None and setting(l) in STRS and setting(l) not in st:
                self.bad(S, i, 'release', '%s releases %s' % (self.what, setting(l)))

    def dead(self, S, i):
        self.n += 1
        self.ctx.count('option paths')
        r, st, fr, out = S.auto
        if not self.ended:
            return self.bad(S, i, 'ends', '%s ends the program' % self.what)
        ok, usage, streams = self.ended
        a = self.sim.val(S, i.ops[0]) if i.ops else None
        if a is None or i.callee() not in ('exit', '_exit'):
            return self.bad(S, i, 'ends', '%s ends the program by %s' % (self.what, i.callee()))
        lo, hi, ne = S.rng(a)
        if ok and not (lo == hi == 0) or not ok and (lo <= 0 <= hi and 0 not in ne):
            self.bad(S, i, 'status', '%s ends the program with status %s' % (self.what, show(a)))
        if usage and not any(u for f, u in out):
            self.bad(S, i, 'usage', '%s does not print the usage' % self.what)
        if not out:
            self.bad(S, i, 'usage', '%s prints nothing' % self.what)
        for f, u in out:
            if f not in streams:
                self.bad(S, i, 'usage', '%s prints to %s' % (self.what, f))


def stream(S, t):
    """a stream chosen by a condition the path knows"""
    if t.k == 'sel':
        lo, hi, ne = S.rng(t.a[0])
        if lo == hi:
            l = unload(t.a[1] if lo else t.a[2])
            return l.a[0] if l is not None and l.k == 'g' else '?'
    return '?'


def isarg(t):
    l = unload(t)
    return l is not None and l.k == 'g' and l.a[0] == 'optarg'


def right(S, x, w):
    x = uncast(x)
    if w == 'str':
        return x.k == 'c' and x.a[1] == 'g_strdup' and isarg(x.a[2])
    if w == 'int':
        return x.k == 'pure' and (x.a[0] == 'strtol' and isarg(x.a[1]) and x.a[3] is I(10) or x.a[0] == 'atoi' and isarg(x.a[1]))
    if w == 'empty':
        return x is ZERO or S.isnull(x) or x.k == 'c' and x.a[1] == 'g_strdup' and x.a[2].k == 's' and x.a[2].a[0] == ''
    lo, hi, ne = S.rng(x)
    return lo == hi == w or w == 1 and S.nonnull(x)


def run(c):
    fl = c.flat('parse')
    sites = [i for i in fl.calls(*GETOPT)]
    if not sites:
        raise Broken('no call of getopt_long')
    for i in sites:
        if i.ops[2][0] != 's' or i.ops[3][0] != 'g':
            raise Broken('the options given to getopt_long are not constant')
        sh, g = shorts(i.ops[2][1]), c.prog.globals[i.ops[3][1]]
        if not g['init'] or g['init'][0] != 'agg':
            raise Broken('option table not constant')
        long_ = {}
        rows = g['init'][1:]
        for n, row in enumerate(rows):
            if row[0] == 'zero' or row[1] == ['n']:
                if n != len(rows) - 1:
                    c.bad('table', i.where(), 'the option table ends before its last entry')
                break
            name, arg, flag, val = row[1][1], row[2][1], row[3], row[4][1]
            long_[name] = (arg, flag, val)
        else:
            c.bad('table', i.where(), 'the option table has no end')
        for name, (s, a, e) in sorted(DOC.items()):
            c.count('options compared')
            if name not in long_:
                c.bad('table', i.where(), '--%s is not in the option table' % name)
                continue
            arg, flag, val = long_[name]
            if flag != ['n']:
                c.bad('table', i.where(), '--%s stores through a flag' % name)
            if val != ord(s):
                c.bad('table', i.where(), '--%s means %s instead of -%s' % (name, '-' + chr(val) if 32 < val < 127 else val, s))
            if s not in sh:
                c.bad('table', i.where(), '-%s is not accepted' % s)
            elif sh[s] != a:
                c.bad('table', i.where(), '-%s takes %s' % (s, ['no argument', 'an argument', 'an optional argument'][sh[s]]))
            if arg != a:
                c.bad('table', i.where(), '--%s takes %s' % (name, ['no argument', 'an argument', 'an optional argument'][arg]))
        for name, (arg, flag, val) in sorted(long_.items()):
            s = chr(val) if 0 < val < 256 else None
            if s in sh and sh[s] != arg:
                c.bad('table', i.where(), '--%s and -%s disagree on taking an argument' % (name, s))
        # the help and default texts are read in step with the table
        for t in ('opts_help', 'opts_default'):
            gg = c.prog.globals.get(t)
            if gg and isinstance(gg['ty'], list) and gg['ty'][1] < len(long_):
                c.bad('table', i.where(), 'the usage has fewer entries (%s) than there are options' % t)
    c.ok('the option table and the short options agree')
    for s in {s: 0 for i in sites for s in shorts(i.ops[2][1])}:
        if s not in [d[0] for d in DOC.values()]:
            c.count('undocumented options')
    U = unfold(fl, 2)
    ends = {'help': (True, True, ('stdout',)), 'version': (True, False, ('stdout',))}
    for name, (s, a, e) in sorted(DOC.items()):
        cl = Opt([ord(s)], '--' + name, e if isinstance(e, dict) else {}, ends.get(e) if isinstance(e, str) else None)
        c.sim(U, cl, [('F', '_preload_ctx_t.' + x) for x in ('conffile', 'statefile', 'logfile', 'foreground', 'nicelevel')], cap=20000, depth=60)
        if not cl.n:
            c.bad('effect', 'preload_cmdline_parse', '--%s is never handled' % name)
        if isinstance(e, dict):
            # nothing remembered from one option changes the next
            for other, (s2, a2, e2) in sorted(DOC.items()):
                if isinstance(e2, dict):
                    both = dict(e)
                    both.update(e2)
                    c.sim(U, Two([ord(s), ord(s2)], '--%s --%s' % (name, other), both, None), [('F', '_preload_ctx_t.' + x) for x in ('conffile', 'statefile', 'logfile', 'foreground', 'nicelevel')], cap=20000, depth=60)
    for v in (ord('?'), ord(':'), ord('Z'), 0, 300):
        c.sim(U, Opt([v], 'an unknown option', {}, (False, True, ('stderr',))), cap=20000, depth=60)
    c.sim(U, Opt([], 'no option', {}, None), cap=20000, depth=60)
    c.need('option paths', 20)
    c.need('options compared', len(DOC))
    c.ok('the effect of every option, alone and followed by another')
    c.assume('getopt_long reports an option missing its argument or not in its tables as ? or :')


class Two(Opt):
    def ret(self, S, i, v):
        r, st, fr, out = S.auto
        for n, x in st:
            if n not in self.expect:
                self.bad(S, i, 'effect', '%s also changes %s' % (self.what, n))
        for n, w in self.expect.items():
            x = dict(st).get(n)
            if x is None or not right(S, x, w):
                self.bad(S, i, 'effect', '%s does not leave %s as documented' % (self.what, n))
        self.ctx.count('option paths')
