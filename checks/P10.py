"""Path-sensitive gating analysis of the two periodic steps (found through their timer registrations), flattened with everything
but scan, update, prediction and the battery query.  For every feasible path, the facts known about conf.system.doscan,
conf.system.dopredict, the battery answer and state.model_dirty decide whether the scan, prediction or model update must, must not
or may not undecidedly be called; calls are counted.  All other stores of model_dirty in the program are enumerated."""
from trace import *

JOBS = []
SCAN, PRED, UPD, BAT = 'preload_spy_scan', 'preload_prophet_predict', 'preload_spy_update_model', 'preload_on_battery'


def tv(S, t):
    if t is None:
        return None
    return False if S.isnull(t) else True if S.nonnull(t) else None


def run(c):
    known = discover(c)
    L = ['conf_system.doscan', 'conf_system.dopredict', 'state.model_dirty']
    for f in known:
        step = 'scan' if f in c.scan else 'update' if f in c.update else 'other'

        def onret(cl, S, i, v, f=f, step=step):
            c.count('callback paths')
            val, calls, batt, order = {}, {}, None, []
            md = None          # value of model_dirty stored last
            for e in S.auto:
                if e[0] == 'load':
                    if e[1] == 'state.model_dirty' and md is not None:
                        continue
                    val.setdefault(e[1], e[2])
                elif e[0] == 'store':
                    md = e[2]
                    order.append('md=%s' % ('0' if S.isnull(md) else '1' if S.nonnull(md) else '?'))
                else:
                    if e[1] == BAT:
                        batt = e[3]
                    else:
                        calls[e[1]] = calls.get(e[1], 0) + 1
                        order.append(e[1])
            B, sc, pr = tv(S, batt), tv(S, val.get(L[0])), tv(S, val.get(L[1]))
            for n, k, what in ((SCAN, sc, 'scanning'), (PRED, pr, 'prediction')):
                m = calls.get(n, 0)
                if step != 'scan':
                    if m:
                        cl.bad(S, i, 'gating', '%s happens in %s' % (what, f))
                    continue
                if m > 1:
                    cl.bad(S, i, 'gating', '%s happens %d times in one step' % (what, m))
                if m:
                    if B is not False:
                        cl.bad(S, i, 'battery', '%s happens although the machine may be on battery' % what)
                    if k is not True:
                        cl.bad(S, i, 'gating', '%s happens on a path where it is not known to be enabled' % what)
                elif B is not True and k is not False:
                    cl.bad(S, i, 'gating', '%s is skipped on a path where it is %senabled and the machine is not known to be on battery' % (what, '' if k else 'possibly '))
            if step == 'scan' and calls.get(SCAN):
                if order.count(SCAN) and 'md=1' not in order[order.index(SCAN):]:
                    cl.bad(S, i, 'pending', 'a scan is not followed by marking the model update as pending')
            if step == 'scan' and any(o in ('md=0', 'md=?') for o in order):
                cl.bad(S, i, 'pending', 'the scan step clears the pending model update')
            if step == 'scan' and 'md=1' in order and SCAN not in order:
                cl.bad(S, i, 'pending', 'a model update is marked pending without a scan')
            m = calls.get(UPD, 0)
            if step == 'update':
                p = tv(S, val.get(L[2]))
                if m > 1:
                    cl.bad(S, i, 'pending', 'the pending model update runs %d times' % m)
                if m and p is not True:
                    cl.bad(S, i, 'pending', 'the model update runs although none may be pending')
                if not m and p is not False:
                    cl.bad(S, i, 'pending', 'the model update is skipped although one may be pending')
                if m and (md is None or not S.isnull(md)):
                    cl.bad(S, i, 'pending', 'the pending model update is not marked as done after it ran')
                if not m and 'md=1' in order:
                    cl.bad(S, i, 'pending', 'a model update is marked pending without a scan')
            elif m:
                cl.bad(S, i, 'pending', 'the model update runs in %s' % f)
        t = Trace(calls={SCAN, PRED, UPD, BAT}, stores=['state.model_dirty'], loads=L, onret=onret)
        c.sim('t:' + f, t)
        c.ok('%s (%s step): calls gated as configured on every path' % (f, step))
    if len(c.scan) != 1 or len(c.update) != 1:
        c.bad('pending', 'preload_state_run', 'the scan and update steps are not one callback each')
    heart = set()
    for f in c.scan + c.update:
        heart |= direct(c.prog, f) - c.prog.reachable(STOPS)
    from sim import static_key
    for fn in c.prog.fns.values():
        for i in fn.instrs():
            if i.op == 'store' and static_key(c.prog, fn, i.ops[1]) == ('F', '_preload_state_t.model_dirty'):
                c.count('model_dirty stores')
                if fn.name not in heart:
                    c.bad('pending', i.where(), 'the pending-update mark is also changed outside the periodic steps')
    # nobody else scans, updates or predicts
    for n in (SCAN, PRED, UPD):
        for fn in c.prog.fns.values():
            for i in fn.calls(n):
                c.count('call sites of the steps')
                if fn.name not in heart:
                    c.bad('gating', i.where(), '%s is called outside the periodic steps' % n)
    c.need('call sites of the steps', 3)
