"""Event traces: for every feasible path of a loop-free root, the ordered list of the calls, stores and loads a rule asks for."""
from lib import *

CAPEV = 40


class Trace(Client):
    """auto = (events..., ) ; event = ('call', name, args, ret, label) | ('store', field, value, loc) | ('load', field, value, loc) | ('ret', value)"""

    def __init__(self, calls=(), stores=(), loads=(), onret=None, ondead=None, oncall=None, condense=True):
        self.calls = calls if callable(calls) else (lambda n, s=set(calls): n in s)
        self.stores, self.loads = set(stores), set(loads)
        self.onret, self.ondead, self.oncall = onret, ondead, oncall
        self.paths = 0

    def init(self):
        return ()

    def keep_atoms(self, S):
        a = set()
        for e in S.auto:
            for x in e:
                if isinstance(x, Term):
                    a |= x.atoms
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Term):
                            a |= y.atoms
        return a

    def add(self, S, e):
        if len(S.auto) < CAPEV:
            S.auto = S.auto + (e,)

    def field(self, loc):
        while loc.k == 'idx':
            loc = loc.a[0]
        if loc.k == 'fld':
            return tag(loc.a[1])
        if loc.k == 'g':
            return loc.a[0]
        return None

    def call(self, S, i, name, args, ret, label):
        if self.calls(name):
            self.add(S, ('call', name, tuple(args), ret, label))
            if self.oncall:
                self.oncall(self, S, i, name, args, ret, label)

    def store(self, S, i, loc, v):
        f = self.field(loc)
        if f in self.stores:
            self.add(S, ('store', f, v, loc))

    def load(self, S, i, loc, v):
        f = self.field(loc)
        if f in self.loads:
            e = ('load', f, v, loc)
            if e not in S.auto:
                self.add(S, e)

    def ret(self, S, i, v):
        self.paths += 1
        if self.onret:
            self.onret(self, S, i, v)

    def dead(self, S, i):
        if self.ondead:
            self.ondead(self, S, i)


SCHED = {'g_timeout_add_seconds': (0, 1, 1), 'g_timeout_add': (0, 1, 1000), 'g_timeout_add_seconds_full': (1, 2, 1), 'g_timeout_add_full': (1, 2, 1000),
         'g_idle_add': (None, 0, 1), 'g_idle_add_full': (None, 1, 1)}
STOPS = ['preload_spy_scan', 'preload_spy_update_model', 'preload_prophet_predict', 'preload_state_save', 'preload_state_dump_log', 'preload_on_battery',
         'vomm_init', 'vomm_hydrate_from_state', 'preload_conf_dump_log', 'preload_conf_load', 'preload_log_reopen', 'preload_state_load', 'preload_state_free']


def sched(e):
    """(fn term, delay term, units per second) of a timer registration event"""
    d, f, u = SCHED[e[1]]
    return e[2][f], (ZERO if d is None else e[2][d]), u


def stopstr(extra=()):
    return 'stop=' + ','.join(STOPS + list(extra))


def discover(c, client=None):
    """flattened timer callbacks reachable from preload_state_run; sets c.timers = {fn: root name}"""
    known = []
    jobs = ['run preload_state_run ' + stopstr()]
    for _ in range(6):
        c.load(jobs + ['t:%s %s %s' % (f, f, stopstr()) for f in known])
        new = []
        for r in ['run'] + ['t:' + f for f in known]:
            t = Trace(calls=SCHED, ondead=None)
            t.onret = lambda cl, S, i, v: [new.append(sched(e)[0]) for e in S.auto]
            Sim(c.flat(r), t).run()
        names = []
        for f in new:
            if f.k == 'fn' and f.a[0] not in known and f.a[0] not in names:
                names.append(f.a[0])
        if not names:
            break
        for n in names:
            if n not in c.prog.fns:
                raise Broken('timer callback %s is not a program function' % n)
        known += names
    c.timers = known
    reach = {f: c.prog.reachable([f]) for f in known}
    c.scan = [f for f in known if 'preload_spy_scan' in direct(c.prog, f)]
    c.update = [f for f in known if 'preload_spy_update_model' in direct(c.prog, f)]
    c.autosave = [f for f in known if 'preload_state_save' in direct(c.prog, f)]
    return known


def direct(prog, f):
    """functions reachable from f without entering timer callbacks registered by it (only direct calls)"""
    seen, w = set(), [f]
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        fn = prog.fns.get(x)
        if fn:
            w.extend(i.callee() for i in fn.calls() if i.callee())
    return seen


def sched_fns(prog):
    """program functions that contain a timer registration"""
    return {f.name for f in prog.fns.values() if any(True for _ in f.calls(*SCHED))}


# quasi-linear expressions in one variable: sums, products and quotients with constants, decided on residues -----------------
def leaves(t, out=None):
    out = set() if out is None else out
    if t.k == 'cast' and t.a[0] in ('sext', 'zext', 'trunc'):
        return leaves(t.a[3], out)
    if t.k == 'op' and t.a[0] in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr'):
        for x in t.a[1:]:
            leaves(x, out)
        return out
    if t.k != 'i':
        out.add(t)
    return out


def period(t):
    if t.k == 'cast':
        return period(t.a[3])
    if t.k == 'op':
        from math import lcm
        p = lcm(period(t.a[1]), period(t.a[2]))
        if t.a[0] in ('sdiv', 'udiv', 'srem', 'urem'):
            if t.a[2].k != 'i' or t.a[2].a[0] <= 0:
                return 0
            return p * t.a[2].a[0]
        if t.a[0] in ('ashr', 'lshr'):
            if t.a[2].k != 'i':
                return 0
            return p << t.a[2].a[0]
        if t.a[0] == 'mul' and t.a[1].k != 'i' and t.a[2].k != 'i':
            return 0
        if t.a[0] == 'shl' and t.a[2].k != 'i':
            return 0
        return p
    return 1


def evalt(t, env):
    if t.k == 'i':
        return t.a[0]
    if t in env:
        return env[t]
    if t.k == 'cast':
        return evalt(t.a[3], env)
    a, b = evalt(t.a[1], env), evalt(t.a[2], env)
    o = t.a[0]
    if o == 'add':
        return a + b
    if o == 'sub':
        return a - b
    if o == 'mul':
        return a * b
    if o in ('sdiv', 'udiv'):
        return int(a / b) if abs(a) < 2 ** 50 else a // b
    if o in ('srem', 'urem'):
        return a - b * int(a / b)
    if o == 'shl':
        return a << b
    return a >> b


def ql_equal(t1, t2):
    """equal for every non-negative value of the (single) variable?  None = cannot tell"""
    if t1 is t2:
        return True
    lv = leaves(t1) | leaves(t2)
    # several loads of one location with nothing in between are the same variable for this purpose
    vs = {}
    for l in lv:
        vs.setdefault(unload(l) or l, []).append(l)
    if len(vs) > 1:
        return False
    if not vs:
        return evalt(t1, {}) == evalt(t2, {})
    p1, p2 = period(t1), period(t2)
    if not p1 or not p2:
        return None
    from math import lcm
    P = lcm(p1, p2)
    if P > 20000:
        return None
    for n in range(0, 3 * P + 3):
        env = {l: n for l in lv}
        if evalt(t1, env) != evalt(t2, env):
            return False
    return True
