"""Symbolic effect of one chain-state change, and ranges of everything computed from chain statistics.  On every path of
preload_markov_state_changed: either nothing is stored, and the path knows the clock equals the time of the last change or the state
equals the current one; or the path knows both differ and the stores are exactly one departure, one transition old to new, the running
mean of the time spent with the new departure count, the current state and the current time.  Every store to a chain's state anywhere,
evaluated for all four combinations of running programs (and the order of change times in preload_markov_new), encodes bit 1 for the first and
bit 2 for the second program.  Divisors are proved nonzero from path facts or the result is proved to lie in [-1,1]; indexes of the
per-state arrays are proved to be 0..3; no path of these functions ends in an assertion."""
from walk import *
from fnum import *
from poly import poly, Poly

BASE = ['sc preload_markov_state_changed', 'mn preload_markov_new stop=preload_markov_state_changed', 'mc markov_compute_state', 'co preload_markov_correlation',
        'pr preload_prophet_predict stop=preload_markov_foreach,vomm_predict,preload_prophet_readahead']
JOBS = BASE
STATS = ('markov.state', 'markov.change_timestamp', 'markov.weight', 'markov.time_to_leave')


def isnow(t):
    return isload(t, 'state.time')


def stores_of(prog, fields):
    """functions that store one of the fields themselves"""
    out = {}
    for f in prog.fns.values():
        for i in f.instrs():
            k = None
            if i.op == 'store':
                k = static_field(prog, f, i.ops[1])
            elif i.op == 'call' and i.callee() in ('memset', 'memcpy'):
                k = static_field(prog, f, i.ops[0])
            if k in fields:
                out.setdefault(f.name, set()).add(k)
    return out


def static_field(prog, fn, op):
    from sim import static_key
    k = static_key(prog, fn, op)
    return tag(k[1]) if k and k[0] == 'F' else None


def bidcallbacks(c):
    """functions handed to preload_markov_foreach by the prediction"""
    out = []

    class T(Trace):
        pass
    t = T(calls={'preload_markov_foreach'})
    t.onret = lambda cl, S, i, v: out.extend(e[2][0].a[0] for e in S.auto if e[2][0].k == 'fn')
    c.sim('pr', t)
    return list(dict.fromkeys(out))


class Inv(Trace):
    """loads of chain statistics satisfy what every store establishes"""
    keep_atoms = Walk.keep_atoms

    def load(self, S, i, loc, v):
        f = self.field(loc)
        if f == 'markov.state':
            S.refine(v, 0, 3)
        elif f == 'markov.weight':
            S.refine(v, 0, 2 ** 31 - 1)
        self.index(S, i, loc)
        return Trace.load(self, S, i, loc, v)

    def store(self, S, i, loc, v):
        self.index(S, i, loc)
        return Trace.store(self, S, i, loc, v)

    def index(self, S, i, loc):
        if self.field(loc) in ('markov.weight', 'markov.time_to_leave'):
            while loc.k == 'idx':
                lo, hi = S.rng(loc.a[1])[:2]
                self.ctx.count('array indexes proved within the four states')
                if lo < 0 or hi > 3:
                    self.bad(S, i, 'index', 'the per-state statistics are indexed outside the four states')
                loc = loc.a[0]

    def dead(self, S, i):
        if i is not None and i.callee() not in ('exit', '_exit'):
            self.bad(S, i, 'abort', 'an internal assertion can end the daemon here')

    def divs(self, S, i, v, clamp=None):
        """divisions inside v"""
        if clamp is not None:
            lo, hi, nan = frange(S, v)
            self.ctx.count('results with proved range')
            if not (lo >= clamp[0] and hi <= clamp[1] and not nan):
                self.bad(S, i, 'range', 'the result is not known to lie between %g and %g' % clamp)
            for f in [v] + list(S.facts):
                for t in subterms(f):
                    if t.k == 'op' and t.a[0] == 'fdiv':
                        self.ctx.count('divisors of the correlation')
                        if not nonzero(S, t.a[2]):
                            self.bad(S, i, 'division', 'the correlation divides by a value that can be zero')
            return
        for t in set(subterms(v)):
            if t.k == 'op' and t.a[0] in ('fdiv', 'sdiv', 'udiv', 'srem', 'urem'):
                self.ctx.count('divisions')
                if t.a[0] == 'fdiv':
                    lo, hi, nan = frange(S, t.a[2])
                    z = lo <= 0 <= hi
                else:
                    lo, hi, ne = S.rng(t.a[2])
                    z = lo <= 0 <= hi and 0 not in ne
                if z:
                    self.bad(S, i, 'division', 'the divisor is not known to be nonzero')


def nonzero(S, t):
    """t differs from zero: a product of whole numbers that differ from zero (or its square root)"""
    if t.k == 'op' and t.a[0] == 'fmul':
        return nonzero(S, t.a[1]) and nonzero(S, t.a[2])
    if t.k == 'op' and t.a[0] == 'mul':
        return nonzero(S, t.a[1]) and nonzero(S, t.a[2])
    if t.k == 'op' and t.a[0] == 'fneg':
        return nonzero(S, t.a[1])
    if t.k == 'cast':
        return nonzero(S, t.a[3])
    if t.k == 'pure' and 'sqrt' in t.a[0]:
        return nonzero(S, t.a[1])
    lo, hi, ne = S.rng(t)
    if not lo <= 0 <= hi or 0 in ne:
        return True
    if t.k == 'op' and t.a[0] in ('sub', 'fsub'):
        return any(S.truth(cmp_term('eq', x, y)) is False for x in (t.a[1], uncast(t.a[1])) for y in (t.a[2], uncast(t.a[2])))
    flo, fhi, nan = frange(S, t)
    return not nan and not flo <= 0 <= fhi


def assignments(S, xs, v):
    """values of v for every truth assignment to 'x is running' that agrees with the path"""
    from itertools import product
    for bits in product((0, 1), repeat=len(xs)):
        val = dict(zip(xs, bits))
        if any(running(S, x) is not None and running(S, x) != bool(b) for x, b in val.items()):
            continue

        def f(t):
            x = running_atom(t)
            if x is not None and x in val:
                return 1 - val[x]
            if t.k in ('cmp',):
                r = S.truth(t)
                if r is not None:
                    return int(r)
            return None
        try:
            yield bits, evali(v, f)
        except (ValueError, KeyError):
            yield bits, None


def run(c):
    bids = bidcallbacks(c)
    if not bids:
        raise Broken('no bidding function for chains found')
    prog = c.prog
    st = stores_of(prog, STATS)
    others = [f for f in st if f not in ('preload_markov_state_changed', 'preload_markov_new')]
    # helpers only ever called by analysed functions are analysed inside them
    callers = {}
    for f in prog.fns.values():
        for i in f.calls():
            if i.callee():
                callers.setdefault(i.callee(), set()).add(f.name)
    taken = {x for f in prog.fns.values() for i in f.instrs() for o in i.ops[(1 if i.op == 'call' else 0):] if isinstance(o, (list, tuple)) and len(o) > 1 and o[0] == 'fn' for x in [o[1]]}
    inner = [f for f in others if callers.get(f) and f not in taken and callers[f] <= {'preload_markov_state_changed', 'preload_markov_new'}]
    others = [f for f in others if f not in inner]
    c.load(BASE + ['b:%s %s stop=preload_markov_correlation' % (b, b) for b in bids] + ['o:%s %s stop=preload_markov_state_changed,preload_markov_new' % (f, f) for f in others])
    prog = c.prog
    c.count('functions storing chain statistics', len(st))
    c.assume('preload_markov_state_changed and preload_markov_new run only while the executables of the chain are registered')

    # -- encoding of the running programs
    def mcret(cl, S, i, v):
        m = mk('arg', 0) if False else None
        xs = list(dict.fromkeys(x for t in list(subterms(v)) + list(S.facts) for x in [running_atom(t)] if x is not None))
        order(c, S, i, xs, v, cl)
    t = Inv(onret=mcret)
    c.sim('mc', t, cap=1000)
    c.need('encodings evaluated')

    # -- one state change
    class SC(Inv):
        def ret(self, S, i, v):
            ev = [e for e in S.auto if e[0] == 'store']
            c.count('paths of a state change')
            self.paths += 1
            self.judge(S, i, ev)

        def judge(self, S, i, ev):
            bad = lambda r, m: self.bad(S, i, r, m)
            ms = self.markov(S, ev)
            if not ev:
                same_t = any(f.k == 'cmp' and f.a[0] == 'eq' and lo == 1 and {isload(uncast(f.a[1]), 'markov.change_timestamp'), isnow(uncast(f.a[1])), } and
                             (isload(f.a[1], 'markov.change_timestamp') and isnow(f.a[2]) or isload(f.a[2], 'markov.change_timestamp') and isnow(f.a[1]))
                             for f, (lo, hi, ne) in S.facts.items())
                if same_t:
                    return
                for f, (lo, hi, ne) in S.facts.items():
                    if f.k == 'cmp' and f.a[0] == 'eq' and lo == 1:
                        for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                            if isload(x, 'markov.state') and self.current(S, unload(x).a[0], y):
                                return
                # branches on the bits may have decided the state instead
                if self.decided_same(S):
                    return
                return bad('missed', 'a change of the state at a new clock instant is not counted')
            m = ms
            if m is None:
                return bad('stores', 'statistics of more than one chain are changed')
            ct = [x for x in S.terms() if isload(x, 'markov.change_timestamp', m) and x.k == 'ld'] if hasattr(S, 'terms') else []
            if not any(f.k == 'cmp' and f.a[0] == 'eq' and hi == 0 and (isload(f.a[1], 'markov.change_timestamp', m) and isnow(f.a[2]) or isload(f.a[2], 'markov.change_timestamp', m) and isnow(f.a[1])) or
                       f.k == 'cmp' and f.a[0] == 'slt' and lo == 1 and isload(f.a[1], 'markov.change_timestamp', m) and isnow(f.a[2])
                       for f, (lo, hi, ne) in S.facts.items()):
                bad('instant', 'a state change is counted although one may already have been counted at this clock instant')
            by = {}
            for e in ev:
                by.setdefault(e[1], []).append(e)
            sts = by.get('markov.state', [])
            if len(sts) != 1:
                return bad('stores', 'the state is stored %d times' % len(sts))
            new = sts[0][2]
            old = None
            for f, (lo, hi, ne) in S.facts.items():
                if f.k == 'cmp' and f.a[0] == 'eq' and hi == 0:
                    for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                        if isload(x, 'markov.state', m) and (y is new or self.current(S, m, y)):
                            old = x
            if old is None and new.k == 'i':
                for f in S.facts:
                    if f.k == 'ld' and isload(f, 'markov.state', m):
                        lo, hi, ne = S.rng(f)
                        if not lo <= new.a[0] <= hi or new.a[0] in ne:
                            old = f
            if old is None:
                return bad('changed', 'a state change is counted although the state may not have changed')
            if not self.current(S, m, new):
                bad('encoding', 'the new state does not encode which programs run')
            cts = by.get('markov.change_timestamp', [])
            if len(cts) != 1 or not isnow(uncast(cts[0][2])):
                bad('start', 'the start of the new state is not set to the model clock')
            ws = by.get('markov.weight', [])
            want = {(old, old), (old, new)}
            got = set()
            W = None
            for e in ws:
                ix = indexes(e[3], old, new, S)
                if ix is None or ix in got:
                    return bad('counted', 'the counts changed are not one departure and one transition')
                got.add(ix)
                b = poly(e[2])
                l = [x for x in b.atoms()]
                if not (len(l) == 1 and b - Poly.atom(l[0]) == Poly.const(1) and isload(l[0], 'x') is False and unload(l[0]) is e[3]):
                    return bad('counted', 'a count is not increased by exactly one')
                if ix == ('old', 'old'):
                    W = e[2]
            if got != {('old', 'old'), ('old', 'new')}:
                return bad('counted', 'the counts changed are not one departure and one transition')
            ts = by.get('markov.time_to_leave', [])
            if len(ts) != 1 or not (ts[0][3].k == 'idx' and uncast(ts[0][3].a[1]) is uncast(old)):
                return bad('mean', 'the mean of the old state is not updated exactly once')
            v = ts[0][2]
            self.divs(S, i, v)
            T = next((x for x in subterms(v) if x.k == 'ld' and x.a[1] is ts[0][3]), None)
            dur = next((x for f in S.facts for x in subterms(f) if x.k == 'ld' and isload(x, 'markov.change_timestamp', m)), None)
            now = uncast(cts[0][2]) if cts else None
            if T is None or dur is None or now is None:
                return bad('mean', 'the mean does not follow from its old value and the time spent in the old state')
            w = mk('op', 'fdiv', mk('op', 'fsub', mk('op', 'sub', now, dur), T), W)
            if not rat_equal(rat(v), rat(mk('op', 'fadd', T, w))):
                return bad('mean', 'the mean does not follow from its old value, the time spent in the old state and the new count')
            c.count('state changes judged')

        def markov(self, S, ev):
            ms = {base(e[3]) for e in ev}
            return ms.pop() if len(ms) == 1 else None

        def current(self, S, m, v):
            """v encodes which of the two programs of chain m run"""
            xs = exes_of(m)
            r = list(assignments_m(S, m, v))
            c.count('encodings evaluated', len(r))
            return bool(r) and all(g == a + 2 * b for (a, b), g in r)

        def decided_same(self, S):
            for f in S.facts:
                if f.k == 'ld' and isload(f, 'markov.state'):
                    lo, hi, ne = S.rng(f)
                    if lo == hi and self.current(S, unload(f).a[0], I(lo)):
                        return True
            return False
    s = SC(stores=STATS)
    c.sim('sc', s, cap=1000, depth=60)
    c.need('state changes judged')
    c.ok('one departure, one transition, one mean update, one new start per state change')

    # -- other writers of the state
    class O(Inv):
        def store(self, S, i, loc, v):
            Inv.store(self, S, i, loc, v)
            f = self.field(loc)
            if f == 'markov.state':
                c.count('state stores judged')
                r = list(assignments_m(S, base(loc), v))
                if not r or not all(g == a + 2 * b for (a, b), g in r):
                    self.bad(S, i, 'encoding', 'the stored state does not encode which programs run')
            elif f == 'markov.weight':
                c.count('count stores outside a state change')
                lo, hi = irange(S, v)
                lo2 = S.rng(v)[0]
                if max(lo, lo2) < 0:
                    self.bad(S, i, 'counts', 'a negative count can be stored')
                if any(x.k == 'ld' and self.field(x.a[1]) == 'markov.weight' for x in subterms(v)):
                    self.bad(S, i, 'counts', 'a count is changed outside a state change')
            elif f == 'markov.time_to_leave':
                if any(x.k == 'ld' and self.field(x.a[1]) == 'markov.time_to_leave' for x in subterms(v)):
                    self.bad(S, i, 'mean', 'a mean is updated outside a state change')
            elif f == 'markov.change_timestamp':
                if not isnow(uncast(v)) and v is not ZERO:
                    self.bad(S, i, 'start', 'the start of a state is set to something else than the model clock')

        def dead(self, S, i):
            pass
    for f in others:
        c.sim('o:' + f, O(), cap=400)

    # -- reconstruction of the state of a new chain
    class N(Inv):
        def pre_call(self, S, i, name, args, label):
            if name == 'preload_markov_state_changed':
                m = args[0]
                sv = next((v for l, v in S.mem.items() if isfld(l, 'markov.state', m)), None)
                cv = next((v for l, v in S.mem.items() if isfld(l, 'markov.change_timestamp', m)), None)
                av = next((v for l, v in S.mem.items() if isfld(l, 'markov.a', m)), None)
                bv = next((v for l, v in S.mem.items() if isfld(l, 'markov.b', m)), None)
                c.count('new chain states judged')
                if None in (sv, cv, av, bv):
                    return self.bad(S, i, 'encoding', 'a new chain gets no initial state')
                flips = []
                for x in (av, bv):
                    flips.append(self.later(S, x, cv))
                r = list(assignments(S, [av, bv], sv))
                for fa in ((0, 1) if flips[0] is None else (flips[0],)):
                    for fb in ((0, 1) if flips[1] is None else (flips[1],)):
                        if all(g == (a ^ fa) + 2 * (b ^ fb) for (a, b), g in r) and r:
                            c.count('encodings evaluated', len(r))
                            return
                self.bad(S, i, 'encoding', 'the initial state of a new chain is not that of the two programs at its start time')

        def later(self, S, x, ct):
            """has exe x changed after ct?"""
            cx = None
            for f in list(S.facts) + list(S.mem.values()):
                for t in subterms(f):
                    if t.k == 'ld' and isload(t, 'exe.change_timestamp', x):
                        cx = t
            if cx is None:
                return 0
            if uncast(cx) is uncast(ct):
                return 0
            r = S.truth(cmp_term('slt', ct, cx))
            if r is None:
                r = S.truth(cmp_term('slt', uncast(ct), uncast(cx)))
            if r is None and S.rng(cx)[1] <= 0:
                return 0
            if r is None:
                # never changed since the daemon started: no reconstruction takes place
                for y in [t for f in S.facts for t in subterms(f) if t.k == 'ld' and isload(t, 'exe.change_timestamp')]:
                    if S.rng(y)[1] <= 0:
                        return 0
            return None if r is None else int(bool(r))
    n = N(stores=STATS)
    c.sim('mn', n, [('F', '_preload_markov_t.' + x) for x in ('a', 'b', 'state', 'change_timestamp')], cap=1000, depth=60)
    c.need('new chain states judged')

    # -- correlation and bids
    class CO(Inv):
        def ret(self, S, i, v):
            self.divs(S, i, v, (-1.0, 1.0))
    c.sim('co', CO(), cap=1000, depth=80)
    c.need('results with proved range')

    class B(Inv):
        def call(self, S, i, name, args, ret, label):
            correlation_fact(S, name, ret)
            return Inv.call(self, S, i, name, args, ret, label)

        def store(self, S, i, loc, v):
            Inv.store(self, S, i, loc, v)
            if isfld(loc, 'exe.lnprob'):
                c.count('bids judged')
                for f in [v] + list(S.facts):
                    self.divs(S, i, f)
                old = [x for x in subterms(v) if isload(x, 'exe.lnprob')]
                add = frange(S, v.a[2] if v.k == 'op' and v.a[1] in old else v.a[1] if v.k == 'op' and v.a[2] in old else v)
                if add[2] or add[0] == -INF or add[1] == INF:
                    self.bad(S, i, 'finite', 'a bid can be infinite or not a number')
    for b in bids:
        c.sim('b:' + b, B(), cap=400, depth=80)
    c.need('bids judged')
    c.need('divisions')
    c.ok('divisors nonzero, results in range, indexes within the four states')


def correlation_fact(S, name, ret):
    if name == 'preload_markov_correlation':
        S.assume(cmp_term('ole', mk('f', '-1.0'), ret, True), True)
        S.assume(cmp_term('ole', ret, mk('f', '1.0'), True), True)


def base(loc):
    while loc.k == 'idx':
        loc = loc.a[0]
    return loc.a[0]


def exes_of(m):
    return None


def assignments_m(S, m, v):
    """values of v over which of m's programs run: ((a, b), value)"""
    xs = {}
    for t in list(subterms(v)) + list(S.facts):
        for u in subterms(t):
            x = running_atom(u)
            if x is None:
                continue
            for n in ('a', 'b'):
                if isload(x, 'markov.' + n, m) or S.mem.get(mk('fld', m, 'x')) is x:
                    xs[n] = x
                for l, w in S.mem.items():
                    if w is x and isfld(l, 'markov.' + n, m):
                        xs[n] = x
    if set(xs) != {'a', 'b'}:
        return
    for r in assignments(S, [xs['a'], xs['b']], v):
        yield r


def order(c, S, i, xs, v, cl):
    roles = {}
    for x in xs:
        l = unload(x)
        if l is not None and fname(l) in ('markov.a', 'markov.b'):
            roles[fname(l)] = x
    if set(roles) != {'markov.a', 'markov.b'}:
        return cl.bad(S, i, 'encoding', 'the current state does not depend on exactly the two programs of the chain')
    for (a, b), g in assignments(S, [roles['markov.a'], roles['markov.b']], v):
        c.count('encodings evaluated')
        if g != a + 2 * b:
            cl.bad(S, i, 'encoding', 'the current state is not 1 for the first plus 2 for the second running program')
            return


def indexes(loc, old, new, S):
    """which of old/new index the two dimensions of a count"""
    ix = []
    while loc.k == 'idx':
        ix.append(uncast(loc.a[1]))
        loc = loc.a[0]
    ix.reverse()
    if len(ix) == 1 and new is ZERO and ix[0] is uncast(old):
        # a constant zero index leaves no trace in the address
        return ('old', 'new')
    if len(ix) != 2:
        return None
    r = []
    for x in ix:
        r.append('old' if x is uncast(old) else 'new' if x is uncast(new) else None)
    return None if None in r else tuple(r)
