"""Reader-process accounting.  On every path of the flattened read-ahead round: a fork happens only while the child counter is known
to be below a positive configured maximum; the counter goes up by one for each successful fork and only then, down by one for each
successful wait and only then, and is abandoned only when waiting failed for another reason than an interruption; a failing wait is
not repeated unless interrupted; at the end of the round the counter is known not to be positive, so every child has been waited
for.  A child opens one file, leaves through exit or _exit, and never returns, forks, waits, or stores into the model."""
from trace import *

JOBS = ['ra preload_readahead']
WAITS = {'wait': None, 'waitpid': 0, 'wait3': None, 'wait4': 0}
OPTIONS = {'waitpid': 2, 'wait3': 1, 'wait4': 2}
FORKS = ('fork', 'vfork', 'g_spawn_async', 'posix_spawn', 'clone')
EINTR = 4


def run(c):
    fn = c.flat('ra')
    # the counter: a static variable that is stored as itself plus one after a fork
    cand = {}

    class Find(Trace):
        def init(self):
            return (False,)

        def call(self, S, i, name, args, ret, label):
            if name in FORKS:
                S.auto = (True,)
            if name in WAITS:
                S.auto = (True,)

        def keep_atoms(self, S):
            return ()

        def store(self, S, i, loc, v):
            if S.auto[0] and root(loc).k == 'g' and v.k == 'op' and v.a[0] == 'add' and v.a[2].k == 'i' and abs(v.a[2].a[0]) == 1:
                cand[loc] = cand.get(loc, 0) + 1
    c.sim('ra', Find())
    # the counter is what the fork decision and the waiting loop look at
    if len(cand) != 1:
        forks = [i for i in fn.instrs() if i.op == 'call' and i.callee() in FORKS]
        if not forks:
            raise Broken('no reader process is ever started')
        if not cand:
            c.bad('counted', forks[0].where(), 'started reader processes are not counted')
            return
        raise Broken('the counter of reader processes is not unique')
    C = list(cand)[0]
    # nobody else touches it
    g = root(C).a[0]
    if not c.prog.globals.get(g, {}).get('zero', True):
        c.bad('initial', g, 'the counter of reader processes does not start at 0')
    users = set()
    for f in c.prog.fns.values():
        for i in f.instrs():
            for o in i.ops:
                if isinstance(o, (list, tuple)) and o and o[0] == 'g' and o[1] == g:
                    users.add(f.name)
    reach = c.prog.reachable(['preload_readahead'])
    for u in users - set(reach):
        c.bad('private', u, 'changes or reads the counter of reader processes outside the read-ahead round')
    c.ok('counter %s private to the round' % g)

    class P(Trace):
        # auto: (mode 'parent'|'child', opened in this process, pending (kind, result, counter before) or None, last maxprocs)
        track = True

        def init(self):
            return ('parent', 0, None, None, (False, False))

        def keep_atoms(self, S):
            out = set()
            for x in (S.auto[2] or ())[1:] + (S.auto[3],):
                if isinstance(x, Term):
                    out |= x.atoms
            return out

        def cur(self, S):
            v = S.mem.get(C)
            return v

        def settle(self, S, i, what):
            """an event whose accounting is still open must need none"""
            p = S.auto[2]
            if not p:
                return
            S.auto = S.auto[:2] + (None,) + S.auto[3:]
            if p[0] == 'over':
                if what == 'waiting again':
                    self.bad(S, i, 'hang', 'waiting goes on after it failed for another reason than an interruption')
                return
            lo, hi, ne = S.rng(p[1])
            if p[0] == 'fork':
                if hi > 0:
                    self.bad(S, i, 'count-fork', 'a started reader process is not counted before %s' % what)
            elif hi > 0:
                self.bad(S, i, 'count-wait', 'a reaped reader process stays counted (before %s)' % what)
            elif what == 'waiting again' and (hi < 0 or p[3] == 'wait' and hi == 0):
                e = S.mem.get(mk('pure', '__errno_location'))
                if not (p[2] is not None and S.rng(p[2])[:2] == (EINTR, EINTR)) and not (e is not None and S.rng(e)[:2] == (EINTR, EINTR)):
                    self.bad(S, i, 'hang', 'waiting is repeated although it failed for another reason than an interruption')

        def note(self, S, n, fresh=False):
            """what is known of the counter: (not positive, below the maximum); kept apart when states are joined"""
            a, b = (False, False) if fresh else S.auto[4]
            if n is not None:
                a = a or S.rng(n)[1] <= 0
                m = S.auto[3]
                b = b or m is not None and S.truth(cmp_term('slt', n, m)) is True
            if (a, b) != S.auto[4]:
                S.auto = S.auto[:4] + ((a, b),)

        def edge(self, S, frm, to):
            self.note(S, self.cur(S))
            p = S.auto[2]
            if p and p[0] == 'wait' and p[2] is not None and S.rng(p[2])[:2] == (EINTR, EINTR) and (S.rng(p[1])[1] < 0 or p[3] == 'wait' and S.rng(p[1])[1] <= 0):
                # interrupted: nothing to account for
                S.auto = S.auto[:2] + (None,) + S.auto[3:]

        def load(self, S, i, loc, v):
            if isfld(loc, 'conf_system.maxprocs'):
                S.auto = S.auto[:3] + (v,) + S.auto[4:]
            p = S.auto[2]
            if p and p[0] == 'wait' and loc is mk('pure', '__errno_location'):
                S.auto = S.auto[:2] + (('wait', p[1], v, p[3]),) + S.auto[3:]

        def call(self, S, i, name, args, ret, label):
            mode = S.auto[0]
            if name in FORKS:
                c.count('forks')
                self.settle(S, i, 'the next fork')
                if mode == 'child':
                    self.bad(S, i, 'child', 'a reader process starts another one')
                    return []
                if name != 'fork':
                    self.bad(S, i, 'child', 'readers are started with %s' % name)
                m, n = S.auto[3], self.cur(S)
                self.note(S, n)
                if label != 'child':
                    if m is None or S.rng(m)[0] < 1:
                        self.bad(S, i, 'parallel', 'a reader process is started although parallel reading may be disabled')
                    elif not any(S.auto[4]):
                        self.bad(S, i, 'bound', 'a reader process is started although the configured number may already be running')
                S.auto = (('child', 0, None) if label == 'child' else (mode, S.auto[1], ('fork', ret, n))) + S.auto[3:]
            elif name in WAITS:
                c.count('waits')
                self.settle(S, i, 'waiting again')
                if mode == 'child':
                    self.bad(S, i, 'child', 'a reader process waits for children')
                    return []
                if WAITS[name] is not None and args[WAITS[name]].k != 'i':
                    raise Broken('waits for particular children')
                opt = OPTIONS.get(name)
                blocking = opt is None or args[opt].k == 'i' and not args[opt].a[0] & 1
                S.auto = S.auto[:2] + (('wait', ret, None, 'wait' if blocking else name),) + S.auto[3:]
            elif mode == 'child':
                if name == 'open':
                    if S.auto[1]:
                        self.bad(S, i, 'child', 'a reader process goes on to another file')
                    S.auto = (mode, 1) + S.auto[2:]
                elif name in c.prog.fns:
                    self.bad(S, i, 'child', 'a reader process runs %s' % name)

        def store(self, S, i, loc, v):
            if loc is C:
                old = self.cur(S)
                p = S.auto[2]
                c.count('counter updates')
                self.note(S, v, True)
                if S.auto[0] == 'child':
                    self.bad(S, i, 'child', 'a reader process changes the counter')
                    return []
                S.auto = S.auto[:2] + (None,) + S.auto[3:]
                up = old is not None and v is op_term('add', old, I(1), 'i32')
                down = old is not None and v is op_term('add', old, I(-1), 'i32')
                if p is None or p[0] == 'over':
                    if not (v is ZERO and (old is None or S.rng(old)[1] <= 0)):
                        self.bad(S, i, 'count', 'the counter of reader processes changes without one having started or ended')
                    return
                lo, hi, ne = S.rng(p[1])
                if p[0] == 'fork':
                    if not (lo > 0 and up):
                        self.bad(S, i, 'count-fork', 'the counter is changed wrongly after a fork')
                elif lo > 0:
                    if not down:
                        self.bad(S, i, 'count-wait', 'the counter is changed wrongly after a reader process was reaped')
                elif (hi < 0 or hi == 0 and p[3] == 'wait') and v is ZERO:
                    if p[2] is None or EINTR not in S.rng(p[2])[2]:
                        self.bad(S, i, 'abandon', 'children are abandoned although waiting may only have been interrupted')
                    S.auto = S.auto[:2] + (('over',),) + S.auto[3:]
                else:
                    self.bad(S, i, 'count-wait', 'the counter is changed wrongly after waiting')
            elif S.auto[0] == 'child':
                r = root(loc)
                if r.k != 'A':
                    self.bad(S, i, 'child', 'a reader process changes %s' % (fname(loc) or show(loc)))
                    return []

        def ret(self, S, i, v):
            self.paths += 1
            if S.auto[0] == 'child':
                self.bad(S, i, 'child', 'a reader process returns into the daemon')
                return
            self.settle(S, i, 'the end of the round')
            n = self.cur(S)
            self.note(S, n)
            if not S.auto[4][0]:
                self.bad(S, i, 'reaped', 'the round can end with reader processes not waited for')

        def dead(self, S, i):
            if S.auto[0] == 'child':
                c.count('child exits')
            else:
                self.bad(S, i, 'parent', 'the daemon itself ends during read-ahead')
    p = P()
    c.sim('ra', p, live_keys=(key_of(C),))
    c.need('forks')
    c.need('waits')
    c.need('child exits')
    c.count('round exits', p.paths)
    c.ok('fork bounded, counted, reaped; child confined')
