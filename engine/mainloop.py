"""Signals and start-up: what main registers and in which order."""
from trace import *

MSTOP = ['preload_context_new', 'preload_context_free', 'preload_cmdline_parse', 'preload_log_init', 'preload_log_reopen', 'preload_conf_load', 'preload_conf_dump_log',
         'preload_state_load', 'preload_state_run', 'preload_state_save', 'preload_state_free', 'preload_state_dump_log']
SIGS = {1: 'SIGHUP', 2: 'SIGINT', 3: 'SIGQUIT', 10: 'SIGUSR1', 12: 'SIGUSR2', 13: 'SIGPIPE', 15: 'SIGTERM', 14: 'SIGALRM', 17: 'SIGCHLD', 9: 'SIGKILL'}
REG = {'signal', 'sigaction', 'sigset', 'bsd_signal', 'g_unix_fd_add', 'g_unix_fd_add_full', 'g_unix_signal_add', 'g_unix_signal_add_full', 'g_io_add_watch', 'g_io_add_watch_full', 'g_source_set_callback', 'signalfd'}
MS = 'stop=' + ','.join(MSTOP)


class MainTrace(Trace):
    """main, path by path; globals holding scalars are traced as well"""

    def __init__(self, **kw):
        Trace.__init__(self, calls=lambda n: n in MSTOP or n in REG or n in SCHED or n in ('fork', 'daemon', 'g_main_loop_new', 'g_main_loop_run', 'nice', 'setsid', 'pipe', 'pipe2', 'g_unix_open_pipe', 'chdir'), **kw)

    def store(self, S, i, loc, v):
        if loc.k == 'g':
            self.add(S, ('store', loc.a[0], v, loc))
        elif loc.k == 'fld' and tag(loc.a[1]) in ('sigaction.sa_handler', 'sigaction.sa_flags', 'sigaction.__sigaction_handler') or v.k == 'fn':
            self.add(S, ('store', tag(loc.a[1]) if loc.k == 'fld' else '?', v, loc))


def main_events(c):
    """list of event sequences of main's paths up to and including its return; c must have root 'main'"""
    out = []
    t = MainTrace(onret=lambda cl, S, i, v: out.append(('ret', S.auto, S.copy(), v)))
    c.sim('main', t)
    return out


def registrations(c):
    """(signal handlers {sig: fn name or 'ignore'|'default'}, watch callbacks [(fn name, data term, kind)])"""
    handlers, watches = {}, []
    inst = []
    for kind, ev, S, v in main_events(c):
        h = {}
        lastsa = None
        for e in ev:
            if e[0] == 'store' and e[2].k == 'fn' and e[2].a[0] in c.prog.fns:
                lastsa = e[2]
            if e[0] != 'call':
                continue
            if e[1] in ('signal', 'bsd_signal', 'sigset'):
                s, f = e[2][0], e[2][1]
                if s.k != 'i':
                    raise Broken('signal number %s is not constant' % show(s))
                h[s.a[0]] = f.a[0] if f.k == 'fn' else 'ignore' if f is I(1) else 'default' if f is ZERO else show(f)
            elif e[1] == 'sigaction':
                s = e[2][0]
                if s.k != 'i':
                    raise Broken('signal number %s is not constant' % show(s))
                h[s.a[0]] = lastsa.a[0] if lastsa is not None else '?'
            elif e[1] in ('g_unix_fd_add',):
                watches.append((e[2][2], e[2][3], 'fd'))
            elif e[1] in ('g_unix_fd_add_full',):
                watches.append((e[2][3], e[2][4], 'fd'))
            elif e[1] in ('g_io_add_watch',):
                watches.append((e[2][2], e[2][3], 'fd'))
            elif e[1] in ('g_unix_signal_add',):
                watches.append((e[2][1], e[2][2], e[2][0]))
            elif e[1] in ('g_unix_signal_add_full',):
                watches.append((e[2][2], e[2][3], e[2][1]))
        if any(e[0] == 'call' and e[1] == 'g_main_loop_run' for e in ev):
            inst.append(h)
    return inst, [w for n, w in enumerate(watches) if w not in watches[:n]]
