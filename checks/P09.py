"""Symbolic effect analysis of the timer callbacks (found through their registrations): on every feasible path, the term added
to the model clock is compared with the term passed as delay of the scheduled successor.  The terms are quasi-linear in the
configured cycle (sums, constant multiples, quotients by constants), so equality for every cycle is decided on the residues of
their divisors.  All other stores to the clock in the program are enumerated."""
from trace import *

JOBS = []
CLOCK = 'state.time'


def delta(old, new):
    """new - old as a term, or None"""
    if new is old:
        return ZERO
    if new.k == 'op' and new.a[0] == 'add':
        if new.a[1] is old:
            return new.a[2]
        if new.a[2] is old:
            return new.a[1]
        for a, b in ((new.a[1], new.a[2]), (new.a[2], new.a[1])):
            d = delta(old, a)
            if d is not None:
                return op_term('add', d, b, 'i64')
    return None


def run(c):
    known = discover(c)
    mains = {}
    for f in known:
        heart = f in c.scan or f in c.update

        def onret(cl, S, i, v, f=f, heart=heart):
            c.count('callback paths')
            old, d, sc, batt = None, ZERO, [], None
            for e in S.auto:
                if e[0] == 'load' and old is None:
                    old = e[2]
                elif e[0] == 'store':
                    if old is None:
                        return cl.bad(S, i, 'clock', 'the clock is overwritten instead of advanced')
                    x = delta(old, e[2])
                    if x is None:
                        return cl.bad(S, i, 'clock', 'the clock is set to %s instead of being advanced' % show(e[2]))
                    d = x
                elif e[1] in SCHED:
                    sc.append(sched(e))
                elif e[1] == 'preload_on_battery':
                    batt = e[3]
            if not heart:
                if d is not ZERO:
                    cl.bad(S, i, 'clock', '%s advances the clock' % f)
                return
            if len(sc) != 1:
                return                      # P08
            D, u = sc[0][1], sc[0][2]
            eq = ql_equal(op_term('mul', d, I(u), 'i64') if u != 1 else d, D)
            c.count('clock/delay pairs compared')
            if eq is None:
                raise Broken('cannot compare the clock step %s with the delay %s' % (show(d), show(D)))
            if not eq:
                cl.bad(S, i, 'delay', 'the clock advances by %s but the successor is scheduled after %s%s' % (show(d), show(D), '' if u == 1 else ' ms'))
            lv = {tag(unload(l).a[1]) if unload(l) is not None and unload(l).k == 'fld' else show(l) for l in leaves(d)}
            if batt is None or S.isnull(batt):
                mains.setdefault('scan' if f in c.scan else 'update', set()).add(d)
                if lv - {'conf_model.cycle'} or not lv:
                    cl.bad(S, i, 'cycle', 'the step waits %s, which is not derived from the configured cycle' % show(d))
        t = Trace(calls=set(SCHED) | {'preload_on_battery'}, stores=[CLOCK], loads=[CLOCK], onret=onret)
        c.sim('t:' + f, t)
        c.ok('%s: clock advance equals scheduled delay on every path' % f)
    for a in mains.get('scan', ()):
        for b in mains.get('update', ()):
            vs = list(leaves(a) | leaves(b))
            if any(unload(v) is None or not isfld(unload(v), 'conf_model.cycle') for v in vs) or not vs:
                continue
            s = op_term('add', a, b, 'i64')
            from math import lcm
            p = period(s)
            if not p:
                raise Broken('round length %s is not quasi-linear' % show(s))
            bad = [n for n in range(0, 3 * p + 3) if evalt(s, {v: n for v in vs}) != n]
            c.count('round residues compared', 3 * p + 3)
            if bad:
                c.bad('round', c.scan[0], 'one scan/update round takes %s = %d seconds for a cycle of %d' % (show(s), evalt(s, {v: bad[0] for v in vs}), bad[0]))
    if not mains.get('scan') or not mains.get('update'):
        c.bad('round', 'preload_state_run', 'no mains-power path of the scan and update steps')
    c.ok('scan step + update step = configured cycle')
    # other writers of the clock
    heart = set()
    for f in c.scan + c.update:
        heart |= direct(c.prog, f) - c.prog.reachable(STOPS)
    load = direct(c.prog, 'preload_state_load') | c.prog.reachable(['preload_state_load'])
    others = c.prog.reachable([s for s in STOPS if s != 'preload_state_load'])
    from sim import static_key
    for fn in c.prog.fns.values():
        for i in fn.instrs():
            w = False
            if i.op == 'store' and static_key(c.prog, fn, i.ops[1]) == ('F', '_preload_state_t.time'):
                w = True
            elif i.op in ('call', 'store'):
                ops = i.ops if i.op == 'call' else i.ops[:1]
                for o in ops:
                    if o[0] == 'v' and fn.ins[o[1]].op == 'fld' and c.prog.field(*fn.ins[o[1]].x) == '_preload_state_t.time':
                        w = True
            if not w:
                continue
            c.count('clock writers')
            if fn.name in load and fn.name not in others and fn.name not in heart:
                continue
            if fn.name in heart and fn.name not in others and fn.name not in load:
                continue
            c.bad('other-writer', i.where(), 'the model clock is also changed outside the periodic steps and the state loader')
    c.need('clock writers', 2)
    c.ok('no other writer of the model clock')
