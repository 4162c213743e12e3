"""Dispatch analysis of signals.  For every signal documented, the handler main installs is propagated with the signal number as
a constant: it must pass exactly that number through the pipe (on every path of the daemon's own process); the main-loop callback
watching the pipe is then propagated with that number as the byte read and must perform exactly the documented actions, with the
configured file names, keep its watch, and not end the process.  Signals routed through g_unix_signal_add are handled likewise."""
from mainloop import *

JOBS = ['main main unroll ' + MS]
DO = {1: {'preload_conf_load', 'preload_log_reopen'}, 10: {'preload_state_dump_log', 'preload_conf_dump_log'}, 12: {'preload_state_save'},
      2: {'g_main_loop_quit'}, 3: {'g_main_loop_quit'}, 15: {'g_main_loop_quit'}}
ACT = {'preload_conf_load', 'preload_log_reopen', 'preload_state_dump_log', 'preload_conf_dump_log', 'preload_state_save', 'g_main_loop_quit',
       'preload_state_load', 'preload_state_run', 'preload_state_free', 'preload_log_init', 'preload_context_free', 'execl', 'execv'}


class Handler(Trace):
    def __init__(self, sig, **kw):
        Trace.__init__(self, calls={'write', 'getpid'}, **kw)
        self.pids, self.n = set(), 0

    def call(self, S, i, name, args, ret, label):
        if name == 'write':
            b = S.mem.get(args[1])
            self.add(S, ('call', 'write', (args[0], b if b is not None else mk('u'), args[2]), ret, label))

    def store(self, S, i, loc, v):
        if loc.k == 'g':
            self.add(S, ('store', loc.a[0], v, loc))


class Watch(Trace):
    """auto[0] says whether the signal's byte has been read"""

    def __init__(self, sig, **kw):
        Trace.__init__(self, calls=ACT, **kw)
        self.sig = sig

    def call(self, S, i, name, args, ret, label):
        if name == 'read' and self.sig is not None:
            out = []
            if not any(e[0] == 'got' for e in S.auto):
                s = S.copy()
                if s.refine(ret, 1, 1):
                    s.mem[args[1]] = I(self.sig)
                    self.add(s, ('got',))
                    out.append(s)
            s = S.copy()
            if s.refine(ret, -INF, 0):
                out.append(s)
            return out
        return Trace.call(self, S, i, name, args, ret, label)


def judge(cl, S, i, sig, ev, c, where):
    calls = [e for e in ev if e[0] == 'call']
    names = [e[1] for e in calls]
    name = SIGS[sig]
    for n in sorted(DO[sig]):
        if names.count(n) != 1:
            cl.bad(S, i, name, '%s: %s is called %d times' % (name, n, names.count(n)))
    for n in names:
        if n not in DO[sig]:
            cl.bad(S, i, name, '%s: %s is also called' % (name, n))
    for e in calls:
        a = e[2]
        want = {'preload_conf_load': 'ctx.conffile', 'preload_log_reopen': 'ctx.logfile', 'preload_state_save': 'ctx.statefile'}.get(e[1])
        if want and not isload(a[0], want):
            cl.bad(S, i, name, '%s: %s is called with %s' % (name, e[1], show(a[0])))
        if e[1] == 'preload_conf_load' and not S.isnull(a[1]):
            cl.bad(S, i, name, 'SIGHUP: a configuration that fails to load would end the daemon')
    c.count('dispatch paths judged')


def run(c):
    inst, watches = registrations(c)
    if not inst:
        c.bad('handlers', 'main', 'the main loop is never reached')
    hs = sorted({h for m in inst for h in m.values() if h in c.prog.fns})
    ws = sorted({w[0].a[0] for w in watches if w[0].k == 'fn'})
    c.load(JOBS + ['h:%s %s' % (h, h) for h in hs] + ['w:%s %s %s' % (w, w, MS) for w in ws])
    for m in inst:
        for sig in DO:
            byunix = [w for w in watches if w[2] is I(sig)]
            h = m.get(sig)
            if byunix:
                continue
            if h is None or h not in c.prog.fns:
                c.bad(SIGS[sig], 'main', '%s is %s' % (SIGS[sig], 'not handled' if h in (None, 'default') else 'ignored' if h == 'ignore' else 'handled by ' + h))
        if m.get(13) != 'ignore':
            c.bad('SIGPIPE', 'main', 'SIGPIPE is not ignored')
    pidvars = set()
    done = set()
    for m in inst:
        for sig in DO:
            h = m.get(sig)
            if h not in c.prog.fns or (sig, h) in done:
                continue
            done.add((sig, h))
            res = []

            def onret(cl, S, i, v):
                w = [e for e in S.auto if e[0] == 'call']
                c.count('handler paths')
                gp = mk('pure', 'getpid')
                other = False
                for f in S.facts:
                    if f.k == 'cmp' and f.a[0] == 'eq' and any(uncast(x) is gp for x in f.a[1:]):
                        o = [x for x in f.a[1:] if uncast(x) is not gp]
                        g = unload(o[0]) if o else None
                        if g is not None and g.k == 'g':
                            pidvars.add(g.a[0])
                            if S.facts[f][1] == 0:
                                other = True
                if other:
                    return
                if len(w) != 1:
                    cl.bad(S, i, SIGS[sig], 'handling %s passes %d messages to the main loop' % (SIGS[sig], len(w)))
                else:
                    b, n = w[0][2][1], w[0][2][2]
                    if uncast(b) is not I(sig) and not (S.rng(b)[0] == S.rng(b)[1] == sig):
                        cl.bad(S, i, SIGS[sig], 'the handler passes %s instead of the signal number' % show(b))
                    if n is not I(1):
                        cl.bad(S, i, SIGS[sig], 'the handler passes %s bytes' % show(n))
                    res.append(w[0][2][0])

            class H(Handler):
                def keep_atoms(self, S):
                    return Trace.keep_atoms(self, S) | {a for f in S.facts if f.k == 'cmp' for a in f.atoms}
            t = H(sig, onret=onret, ondead=lambda cl, S, i: cl.bad(S, i, SIGS[sig], 'handling %s can end the daemon' % SIGS[sig]))
            st = State()
            st.env[('a', 0)] = I(sig)
            c.sim('h:' + h, t, state=st)
            c.ok('%s: %s passes the number on' % (SIGS[sig], h))
            if not any(w[2] == 'fd' for w in watches):
                c.bad(SIGS[sig], h, 'nothing in the main loop receives what the handler of %s passes on' % SIGS[sig])
    for w in watches:
        f = w[0].a[0] if w[0].k == 'fn' else None
        if f is None:
            raise Broken('watch callback %s is not constant' % show(w[0]))
        sigs = list(DO) if w[2] == 'fd' else [w[2].a[0]] if w[2].k == 'i' and w[2].a[0] in DO else []
        for sig in sigs:
            seen = [0]

            def onret(cl, S, i, v, w=w):
                got = w[2] != 'fd' or any(e[0] == 'got' for e in S.auto)
                if got:
                    seen[0] += 1
                    judge(cl, S, i, sig, [e for e in S.auto if e[0] != 'got'], c, f)
                elif any(e[0] == 'call' for e in S.auto):
                    cl.bad(S, i, SIGS[sig], 'an action is performed without a signal')
                if v is None or not S.nonnull(v):
                    if not (DO[sig] == {'g_main_loop_quit'} and got):
                        cl.bad(S, i, 'later-signals', 'the callback %s removes itself after %s: later signals are lost' % (f, SIGS[sig]))
            t = Watch(sig if w[2] == 'fd' else None, onret=onret, ondead=lambda cl, S, i: cl.bad(S, i, SIGS[sig], 'handling %s can end the daemon at once' % SIGS[sig]))
            st = State()
            if w[2] != 'fd':
                st.env[('a', 0)] = w[1]
            c.sim('w:' + f, t, state=st)
            if not seen[0]:
                c.bad(SIGS[sig], f, 'the callback never receives %s' % SIGS[sig])
            c.ok('%s: %s performs %s' % (SIGS[sig], f, ', '.join(sorted(DO[sig]))))
    # the process number the handler compares with is that of the process that runs the main loop
    for g in sorted(pidvars):
        for kind, ev, S, v in main_events(c):
            last, fork, bad = None, -1, None
            for n, e in enumerate(ev):
                if e[0] == 'call' and e[1] in ('fork', 'daemon'):
                    fork = n
                if e[0] == 'store' and e[1] == g:
                    last = (n, e[2])
                if e[0] == 'call' and e[1] == 'g_main_loop_run':
                    if last is None or last[0] < fork or uncast(last[1]) is not mk('pure', 'getpid'):
                        c.bad('own-process', 'main', 'the process number in %s is not that of the process that runs the main loop' % g)
                    c.count('start-up paths')
        c.ok('%s holds the process number of the daemon' % g)
    c.assume('handlers installed with signal() stay installed (BSD semantics of glibc)')
