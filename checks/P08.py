"""Effect analysis of the timer callbacks.  The callbacks are found by following the timer registrations from preload_state_run;
each is flattened with everything it calls (scan, model update, prediction and save stay calls).  On every feasible path of every
callback the registrations made and the value returned are enumerated: exactly one successor, of the right kind, and a one-shot
result.  The program's call graph is searched for any other function that registers timers."""
from trace import *

JOBS = []


def kind(c, f):
    k = []
    if f in c.scan:
        k.append('scan step')
    if f in c.update:
        k.append('update step')
    if f in c.autosave:
        k.append('autosave')
    return '+'.join(k) or 'other'


def run(c):
    known = discover(c)
    for k, l in (('scan step', c.scan), ('update step', c.update), ('autosave', c.autosave)):
        if len(l) != 1:
            c.bad('chain', 'preload_state_run', 'expected one timer callback that performs the %s, found %d (%s)' % (k, len(l), ', '.join(l)))
    nxt = {'scan step': 'update step', 'update step': 'scan step', 'autosave': 'autosave'}

    for f in known:
        kd = kind(c, f)

        def onret(cl, S, i, v, f=f, kd=kd):
            sc = [sched(e) for e in S.auto]
            c.count('callback paths')
            if len(sc) == 0:
                cl.bad(S, i, 'stops', 'the %s (%s) can end without scheduling a successor' % (kd, f))
            elif len(sc) > 1:
                cl.bad(S, i, 'multiplies', 'the %s (%s) can schedule %d successors' % (kd, f, len(sc)))
            else:
                s = sc[0][0]
                sk = kind(c, s.a[0]) if s.k == 'fn' else 'unknown'
                if kd in nxt and sk != nxt[kd]:
                    cl.bad(S, i, 'alternation', 'the %s schedules %s instead of the %s' % (kd, s.a[0] if s.k == 'fn' else show(s), nxt[kd]))
            if not S.isnull(v if v is not None else ZERO):
                cl.bad(S, i, 'one-shot', 'the %s (%s) does not end its own timer (result %s)' % (kd, f, show(v)))
        t = Trace(calls=SCHED, onret=onret, ondead=lambda cl, S, i, kd=kd: cl.bad(S, i, 'stops', 'the %s can end the process' % kd))
        c.sim('t:' + f, t)
        if not t.paths:
            c.bad('stops', f, 'no path of the %s returns' % kd)
        c.ok('%s %s: exactly one successor on every path, one-shot' % (kd, f))

    def onrun(cl, S, i, v):
        c.count('start paths')
        sc = [kind(c, sched(e)[0].a[0]) for e in S.auto]
        n = sc.count('scan step') + sc.count('update step')
        if n != 1 or 'other' in sc:
            cl.bad(S, i, 'start', 'starting registers %s' % (', '.join(sc) or 'nothing'))
        sf = mk('arg', 0, cl.sim.fn.args[0][0])
        if S.isnull(sf):
            if sc.count('autosave'):
                cl.bad(S, i, 'start', 'autosave is started without a state file')
        elif sc.count('autosave') != 1:
            if S.nonnull(sf) or sc.count('autosave') > 1:
                cl.bad(S, i, 'start', '%d autosave chains are started' % sc.count('autosave'))
            else:
                l, h, ne = S.rng(sf)
                cl.bad(S, i, 'start', 'autosave is started %d times although a state file may be configured' % sc.count('autosave'))

    class R(Trace):
        def keep_atoms(self, S):
            return Trace.keep_atoms(self, S) | {('arg', 0)}
    r = R(calls=SCHED, onret=onrun)
    c.sim('run', r)
    c.ok('preload_state_run starts one scan/update chain and one autosave chain')
    # nobody else registers timers, and the chain is started once
    allowed = direct(c.prog, 'preload_state_run')
    for f in known:
        allowed = allowed | (direct(c.prog, f) - c.prog.reachable(STOPS))
    for f in sorted(sched_fns(c.prog) & c.prog.reachable(['main'])):
        c.count('functions registering timers')
        others = c.prog.reachable([s for s in STOPS if s in c.prog.fns])
        if f not in allowed or f in others:
            c.bad('other-timer', f, '%s registers a timer outside the heartbeat' % f)
    calls = [(fn, i) for fn in c.prog.fns.values() for i in fn.calls('preload_state_run')]
    c.count('calls of preload_state_run', len(calls))
    if len(calls) != 1:
        c.bad('start', 'preload_state_run', 'the heartbeat is started from %d places' % len(calls))
    for fn, i in calls:
        if any(i.b in body for _, body, _ in fn.loops()):
            c.bad('start', i.where(), 'the heartbeat is started in a loop')
        for k in known:
            if fn.name in c.prog.reachable([k]):
                c.bad('start', i.where(), 'the heartbeat is started again by a timer callback')
    c.ok('only the heartbeat registers timers')
    c.assume('GLib runs each registered timeout callback once per expiry and removes it when it returns FALSE')
