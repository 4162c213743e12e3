"""Order analysis of main (flattened, public entry points of the modules kept as events) and of preload_state_load: on every path,
command line < log < configuration < detaching < state < timers < main loop < final save; the load starts from fresh indexes, reads
the file before it looks at processes, marks the running time before chain states are recomputed, and recomputes them last."""
from mainloop import *
from walk import *

JOBS = ['main main unroll ' + MS, 'load preload_state_load stop=preload_state_read_file', 'load2 preload_state_load stop=preload_state_read_file,proc_foreach,proc_get_memstat']
ORDER = [('preload_cmdline_parse', 'preload_log_init'), ('preload_log_init', 'preload_conf_load'), ('preload_conf_load', 'preload_state_load'),
         ('preload_state_load', 'preload_state_run'), ('preload_state_run', 'g_main_loop_run'), ('g_main_loop_run', 'preload_state_save'), ('g_main_loop_new', 'g_main_loop_run')]
ONCE = ['preload_cmdline_parse', 'preload_log_init', 'preload_conf_load', 'preload_state_load', 'preload_state_run', 'g_main_loop_run']


def run(c):
    for kind, ev, S, v in main_events(c):
        names = [e[1] for e in ev if e[0] == 'call']
        c.count('paths of main')
        for n in ONCE:
            if names.count(n) != 1:
                c.bad('start-up', 'main', '%s is called %d times on a path that returns' % (n, names.count(n)))
        for a, b in ORDER:
            if a in names and b in names and names.index(a) > names.index(b):
                c.bad('order', 'main', '%s runs before %s' % (b, a))
        if 'preload_state_save' not in names[names.index('g_main_loop_run'):] if 'g_main_loop_run' in names else False:
            c.bad('final-save', 'main', 'the state is not saved after the main loop ends')
        for n in names:
            if n in SCHED and names.index(n) < names.index('preload_state_load'):
                c.bad('order', 'main', 'a timer is started before the state is loaded')
        for d in ('fork', 'daemon'):
            if d in names and 'preload_state_load' in names and names.index(d) > names.index('preload_state_load'):
                c.bad('detach', 'main', 'the daemon detaches after loading the state')
        if not S.isnull(v):
            c.bad('status', 'main', 'an orderly exit does not return success')
        for e in ev:
            if e[0] != 'call':
                continue
            want = {'preload_log_init': 'ctx.logfile', 'preload_conf_load': 'ctx.conffile', 'preload_state_load': 'ctx.statefile', 'preload_state_run': 'ctx.statefile', 'preload_state_save': 'ctx.statefile'}.get(e[1])
            if want and not isload(e[2][0], want):
                c.bad('arguments', 'main', '%s is called with %s instead of %s' % (e[1], show(e[2][0]), want))
            if e[1] == 'preload_conf_load' and not S.nonnull(e[2][1]):
                c.bad('arguments', 'main', 'a configuration that cannot be loaded at start-up is not fatal')
    c.need('paths of main', 2)
    c.ok('main: start-up and shutdown order on every path')
    forks = set()

    class D(Trace):
        """the parent of the detaching fork never continues; the foreground path never forks"""
        def call(self, S, i, name, args, ret, label):
            if name in ('fork',):
                self.add(S, ('call', 'fork', (), ret, label))
            elif name in ('preload_state_load', 'preload_state_run', 'g_main_loop_run', 'preload_state_save'):
                forks.add((name, tuple(e[4] for e in S.auto if e[1] == 'fork')))
                if any(e[0] == 'call' and e[4] == 'parent' for e in S.auto):
                    self.bad(S, i, 'detach', 'the parent process continues into %s' % name)
                fg = [e for e in S.auto if e[0] == 'load']
                f = any(e[1] == 'fork' for e in S.auto)
                for e in fg:
                    if f and S.nonnull(e[2]):
                        self.bad(S, i, 'detach', 'the daemon detaches although it was asked to stay in the foreground')
                    if not f and S.isnull(e[2]):
                        self.bad(S, i, 'detach', 'the daemon does not detach')
    c.sim('main', D(loads=['ctx.foreground']))
    if not any(x[1] for x in forks):
        c.bad('detach', 'main', 'the daemon never detaches')
    c.ok('only the detached child (or the foreground process) goes on')

    # ---- preload_state_load
    class Load(Client):
        # auto: (read, proc, marked, recomputed)
        def init(self):
            return (0, 0, 0, 0)

        def call(self, S, i, name, args, ret, label):
            r, p, m, x = S.auto
            if name == 'preload_state_read_file':
                if r:
                    self.bad(S, i, 'load', 'the state file is read twice')
                if p:
                    self.bad(S, i, 'load', 'running processes are taken stock of before the state file is read')
                for f in ('exes', 'bad_exes', 'maps', 'maps_arr'):
                    ok = False
                    for k, v in S.mem.items():
                        if isfld(k, 'state.' + f) and root(k).k == 'g':
                            ok = v.k == 'c' and v.a[1] in api.NONNULL
                    if not ok:
                        self.bad(S, i, 'load', 'the state file is read into an index (%s) that is not known to be new' % f)
                S.auto = (1, p, m, x)
            elif name == 'opendir':
                S.auto = (r, 1, m, x)
                a = mk('arg', 0, self.sim.fn.args[0][0])
                if not r and not S.isnull(a) and not any(unload(f) is a and S.isnull(f) for f in S.facts):
                    self.bad(S, i, 'load', 'a configured state file is not read before processes are taken stock of')

        def keep_atoms(self, S):
            return {('arg', 0)} | {a for f in S.facts if unload(f) is not None and unload(f).k == 'arg' for a in f.atoms}

        def store(self, S, i, loc, v):
            r, p, m, x = S.auto
            if isfld(loc, 'exe.running_timestamp'):
                self.ctx.count('running stamps')
                if not p or m:
                    self.bad(S, i, 'load', 'a running stamp is set outside the stock-taking of processes')
            elif isfld(loc, 'state.last_running_timestamp') and p:
                S.auto = (r, p, 1, x)
            elif isfld(loc, 'markov.state'):
                self.ctx.count('chain states recomputed')
                if not p or not m:
                    self.bad(S, i, 'load', 'a chain state is recomputed before the running programs are known')
                S.auto = (r, p, m, 1)

        def ret(self, S, i, v):
            r, p, m, x = S.auto
            if not p:
                self.bad(S, i, 'load', 'running processes are not taken stock of')
            if p and not m:
                self.bad(S, i, 'load', 'the running mark is not set after taking stock of processes')
    c.sim('load', Load(), live_keys=[('F', '_preload_state_t.' + f) for f in ('exes', 'bad_exes', 'maps', 'maps_arr')])
    if not c.counts.get('running stamps'):
        c.bad('load', 'preload_state_load', 'no program is marked as running after a load')
    if not c.counts.get('chain states recomputed'):
        c.bad('load', 'preload_state_load', 'chain states are not recomputed after a load')
    # every chain is brought in line afterwards, on every path
    class All(Walk):
        def ret(self, S, i, v):
            ev = S.auto
            pos = [n for n, e in enumerate(ev) if e[0] == 'store' and e[1] == 'state.last_running_timestamp']
            if not pos:
                return
            m = pos[-1]
            self.ctx.count('load paths followed to every chain')
            walks = [w for w in hashwalks(ev, m) if w[2] and (isload(w[0], 'state.exes') or any(isfld(k, 'state.exes') and x is w[0] for k, x in S.mem.items()))]
            if not walks:
                return self.bad(S, i, 'load', 'chains are not gone through after taking stock of processes')
            arr = arrwalks(S, ev, m)
            done = [e[3].a[0] for e in ev[m:] if e[0] == 'store' and e[1] == 'markov.state' and e[3].k == 'fld']
            for w in walks[-1:]:
                for key, exe in w[1]:
                    A = [(a, x) for a, x in arr.items() if isload(a, 'exe.markovs') and same(unload(a).a[0], exe)]
                    if not A:
                        # no element seen: the list must be known to be empty
                        lens = [t for f in list(S.facts) + list(S.mem.values()) for t in subterms(f) if t.k == 'ld' and t.a[1].k == 'fld' and t.a[1].a[1] == '_GPtrArray.len' and
                                isload(t.a[1].a[0], 'exe.markovs') and same(unload(t.a[1].a[0]).a[0], exe) and S.rng(t)[1] == 0]
                        if not lens:
                            self.bad(S, i, 'load', 'the chains of a program are not gone through after taking stock of processes')
                        continue
                    for a, (els, complete) in A:
                        if not complete:
                            self.bad(S, i, 'load', 'not all chains of a program are gone through after taking stock of processes')
                        for k in els.values():
                            if any(same(d, k) for d in done):
                                self.ctx.count('chains brought in line')
                                continue
                            other = any(f.k == 'cmp' and isload(f.a[1], 'markov.a', k) | isload(f.a[2], 'markov.a', k) and
                                        S.truth(cmp_term('eq', f.a[1], f.a[2])) is False for f in S.facts)
                            if not other:
                                self.bad(S, i, 'load', 'a chain keeps the state from before processes were taken stock of')
    a = All(stores={'state.last_running_timestamp', 'markov.state'})
    c.sim(unfold(c.flat('load2'), 2), a, [('F', '_preload_state_t.exes')])
    c.need('chains brought in line')
    c.ok('preload_state_load: fresh indexes < file < processes < chain states')
