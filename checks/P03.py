"""Path-sensitive analysis of the unsaved mark.  preload_state_save is flattened with the file writer kept as a call: on every path the
writer is called unless the mark is known clear or no file name is given, and the mark is cleared only where the writer's result is known
to be success.  The scan step (found through its timer registration) must set the mark after each scan; the autosave callback must
save the configured file on every path at the configured period; main must save after the main loop; every store to the mark is enumerated."""
from mainloop import *

JOBS = []
SAVE = 'save preload_state_save stop=preload_state_write_file,preload_cleanup_invalid_entries'
D = 'state.dirty'


def run(c):
    discover(c)
    heart = ['t:%s %s %s' % (f, f, stopstr()) for f in c.timers]
    c.load([SAVE, 'main main unroll ' + MS] + heart)

    class Save(Trace):
        def load(self, S, i, loc, v):
            a = mk('arg', 0, self.sim.fn.args[0][0])
            if loc is a or loc.k == 'idx' and loc.a[0] is a:
                self.add(S, ('load', '*name', v, loc))
            else:
                Trace.load(self, S, i, loc, v)

        def keep_atoms(self, S):
            return Trace.keep_atoms(self, S) | {('arg', 0)}

    def onret(cl, S, i, v):
        c.count('save paths')
        a = mk('arg', 0, cl.sim.fn.args[0][0])
        mark, first, w, noname = None, None, [], S.isnull(a)
        for e in S.auto:
            if e[0] == 'load' and e[1] == D and first is None and mark is None:
                first = e[2]
            elif e[0] == 'load' and e[1] == '*name':
                noname = noname or S.isnull(e[2])
            elif e[0] == 'call':
                w.append(e)
            elif e[0] == 'store':
                mark = e[2]
                ok = False
                if w and not S.isnull(e[2]):
                    if S.nonnull(e[2]) and S.nonnull(w[-1][3]):
                        ok = True
                    else:
                        # mark = (result is an error)
                        t, f = S.copy(), S.copy()
                        ok = (not t.refine(w[-1][3], ne=(0,)) or t.nonnull(e[2]))
                elif w and S.isnull(e[2]):
                    ok = S.isnull(w[-1][3])
                elif S.nonnull(e[2]):
                    ok = True
                if not ok:
                    cl.bad(S, i, 'cleared', 'the unsaved mark is set to %s although the save is not known to have succeeded' % show(e[2]))
        if len(w) > 1:
            cl.bad(S, i, 'saved', 'the state is written %d times in one save' % len(w))
        if not w and not noname and not (first is not None and S.isnull(first)):
            cl.bad(S, i, 'skipped', 'the save is skipped although there may be unsaved changes')
        for e in w:
            if e[2][0] is not a:
                cl.bad(S, i, 'name', 'the state is written to %s' % show(e[2][0]))
    t = Save(calls=['preload_state_write_file'], stores=[D], loads=[D], onret=onret)
    c.sim('save', t)
    c.need('save paths', 2)
    c.ok('preload_state_save: skipped only when clean, cleared only on success')

    def onscan(cl, S, i, v):
        c.count('scan step paths')
        scanned, mark = False, None
        for e in S.auto:
            if e[0] == 'call':
                scanned, mark = True, None
            elif e[0] == 'store':
                mark = e[2]
                if not S.nonnull(mark):
                    cl.bad(S, i, 'cleared', 'a periodic step clears the unsaved mark')
        if scanned and (mark is None or not S.nonnull(mark)):
            cl.bad(S, i, 'marked', 'a scan is not followed by marking the model as unsaved')
    for f in c.scan + c.update:
        c.sim('t:' + f, Trace(calls=['preload_spy_scan'], stores=[D], onret=onscan))
    if not c.scan:
        c.bad('marked', 'preload_state_run', 'no periodic scan')
    c.ok('scan step: unsaved mark set after each scan')

    from sim import static_key
    save = direct(c.prog, 'preload_state_save')
    for fn in c.prog.fns.values():
        for i in fn.instrs():
            if i.op == 'store' and static_key(c.prog, fn, i.ops[1]) == ('F', '_preload_state_t.dirty'):
                c.count('stores to the mark')
                if i.ops[0][0] == 'i' and i.ops[0][1] != 0 or fn.name in save:
                    continue
                if any(fn.name in direct(c.prog, f) for f in c.scan + c.update) and i.ops[0][0] != 'i':
                    continue
                c.bad('cleared', i.where(), 'the unsaved mark is cleared outside a successful save')

    saved = set()

    class RunTrace(Trace):
        def store(self, S, i, loc, v):
            if loc.k == 'g':
                src = v
                while src.k == 'c' and src.a[1] == 'g_strdup':
                    src = src.a[2]
                if src is mk('arg', 0, self.sim.fn.args[0][0]):
                    saved.add(loc.a[0])
    c.load([SAVE, 'main main unroll ' + MS, 'run preload_state_run ' + stopstr()] + heart)

    def onrun(cl, S, i, v):
        for e in S.auto:
            f, d, u = sched(e)
            if f.k == 'fn' and f.a[0] in c.autosave:
                c.count('autosave registrations')
                if u != 1 or not isload(d, 'conf_system.autosave'):
                    cl.bad(S, i, 'period', 'autosave is first scheduled after %s, not after the configured period' % show(d))
    c.sim('run', RunTrace(calls=SCHED, onret=onrun))
    if not c.autosave:
        c.bad('autosave', 'preload_state_run', 'no timer callback saves the state')
    for f in c.autosave:
        def onauto(cl, S, i, v):
            c.count('autosave paths')
            sv = [e for e in S.auto if e[1] == 'preload_state_save']
            if len(sv) != 1:
                cl.bad(S, i, 'autosave', 'an autosave period passes with %d saves' % len(sv))
            for e in sv:
                g = unload(e[2][0])
                if not (g is not None and g.k == 'g' and g.a[0] in saved):
                    cl.bad(S, i, 'autosave', 'autosave saves to %s, which is not the configured state file' % show(e[2][0]))
            for e in S.auto:
                if e[1] in SCHED:
                    fn, d, u = sched(e)
                    if u != 1 or not isload(d, 'conf_system.autosave'):
                        cl.bad(S, i, 'period', 'the next autosave is scheduled after %s, not after the configured period' % show(d))
        c.sim('t:' + f, Trace(calls=set(SCHED) | {'preload_state_save'}, onret=onauto))
    c.ok('autosave: saves the configured file once per configured period')
    for kind, ev, S, v in main_events(c):
        names = [e[1] for e in ev if e[0] == 'call']
        if 'g_main_loop_run' in names:
            k = names.index('g_main_loop_run')
            c.count('exit paths')
            if 'preload_state_save' not in names[k:]:
                c.bad('exit', 'main', 'an orderly exit does not save the state')
            elif 'preload_state_free' in names[k:] and names[k:].index('preload_state_free') < names[k:].index('preload_state_save'):
                c.bad('exit', 'main', 'the state is freed before the final save')
    c.need('exit paths')
    c.ok('main: final save on every path')
    # SIGUSR2 saves (see also P12)
    if 'preload_state_save' not in c.prog.reachable(['sig_pipe_ready']) and not any('preload_state_save' in c.prog.reachable([w[0].a[0]]) for w in registrations(c)[1] if w[0].k == 'fn'):
        c.bad('request', 'main', 'no signal saves the state')
