"""Sign, finiteness and monotonicity of every bid.  At every store to an executable's score reached from the two predictors (the chain
callback and vomm_predict): the value is the old score plus a term whose range, computed from the facts of the path, is finite, not NaN and not
positive; that term never rises when the count of the predicted launch rises (derivative sign over the term, clamped constants compared with
the unclamped range); the counts used are those of transitions into states in which the bidding program runs; and the path knows the
program is not running (time stamps, or the bit of the chain's state).  Every other store to a score in the program writes zero."""
from walk import *
from fnum import *
from P23 import bidcallbacks, stores_of, correlation_fact, Inv

BASE = ['pr preload_prophet_predict stop=preload_markov_foreach,vomm_predict,preload_prophet_readahead', 'vp vomm_predict', 'rf preload_state_read_file', 'hy vomm_hydrate_from_state', 'vu vomm_update']
JOBS = BASE
REL = ('vomm_node.count', 'exe.running_timestamp', 'markov.state', 'markov.weight', 'markov.time_to_leave')


def run(c):
    bids = bidcallbacks(c)
    if not bids:
        raise Broken('no bidding function for chains found')
    reach = set(c.prog.reachable(bids)) | set(c.prog.reachable(['vomm_predict']))
    st = stores_of(c.prog, ('exe.lnprob',))
    others = [f for f in st if f not in reach]
    c.load(BASE + ['b:%s %s stop=preload_markov_correlation' % (b, b) for b in bids] + ['o:%s %s' % (f, f) for f in others])
    c.count('functions storing scores', len(st))
    sites = {}

    class B(Inv):
        NONNEG = ('_vomm_node_t.count', '_preload_markov_t.weight')

        # auto: (tables being walked by iterator, node last reached, its table)
        def init(self):
            return frozenset(), None, None

        def keep_atoms(self, S):
            keep = {a for f in S.facts if f.k in ('cmp', 'ld', 'op') and not (f.k == 'ld' and f.a[1].k == 'g') and any(tag(x.a[1]) in REL for x in subterms(f) if x.k == 'fld')
                    and not any(a[0] == 'old' for a in f.atoms) for a in f.atoms}
            return keep | (S.auto[1].atoms if S.auto[1] is not None else set())

        def add(self, S, e):
            pass

        def index(self, S, i, loc):
            pass

        def load(self, S, i, loc, v):
            if isfld(loc, 'vomm_node.count'):
                S.refine(v, 0, 2 ** 31 - 1)
            return Inv.load(self, S, i, loc, v)

        def dead(self, S, i):
            pass

        def call(self, S, i, name, args, ret, label):
            correlation_fact(S, name, ret)
            it, node, tab = S.auto
            if name == 'g_hash_table_iter_init':
                S.auto = frozenset(e for e in it if e[0] is not args[0]) | {(args[0], show(args[1]))}, None, None
            elif name == 'g_hash_table_iter_next':
                t = next((e[1] for e in it if e[0] is args[0]), None)
                if label == 'next':
                    S.auto = it, S.mem.get(self.sim.addr_leaf(args[2])) if args[2] is not ZERO else None, t
                else:
                    S.auto = frozenset(e for e in it if e[0] is not args[0]), None, None

        def store(self, S, i, loc, v):
            if not isfld(loc, 'exe.lnprob'):
                return
            if v.k == 'f' and float(v.a[0]) == 0 or v is ZERO:
                return
            c.count('bids judged')
            x = loc.a[0]
            bad = lambda r, m: self.bad(S, i, r, m)
            old = S.mem.get(loc)
            olds = [y for y in subterms(v) if y is old or y.k == 'ld' and y.a[1] is loc]
            if not olds or not (v.k == 'op' and v.a[0] in ('fadd', 'fsub')):
                return bad('adds', 'a bid replaces the score instead of adding to it')
            if v.a[1] in olds:
                t = v.a[2] if v.a[0] == 'fadd' else mk('op', 'fneg', v.a[2])
            elif v.a[2] in olds and v.a[0] == 'fadd':
                t = v.a[1]
            else:
                return bad('adds', 'a bid does not add to the score')
            if any(y in olds for y in subterms(t)):
                return bad('adds', 'a bid depends on the score it adds to')
            lo, hi, nan = frange(S, t)
            if nan or lo == -INF:
                return bad('finite', 'a bid can be infinite or not a number')
            if hi > 0:
                return bad('sign', 'a bid can raise the probability that the program is not needed')
            # running programs
            m = None
            l = unload(x)
            if running(S, x) is not False:
                if not (l is not None and fname(l) in ('markov.a', 'markov.b') and self.bitclear(S, l.a[0], 1 if fname(l) == 'markov.a' else 2)):
                    return bad('running', 'a program that may be running receives a bid')
            # counts
            if l is not None and fname(l) in ('markov.a', 'markov.b'):
                bit = 1 if fname(l) == 'markov.a' else 2
                m = l.a[0]
                used, deps = set(), set()
                for y in [z for f in [t] + list(S.facts) for z in subterms(f)]:
                    if y.k == 'ld' and self.field(y.a[1]) == 'markov.weight':
                        ix = []
                        b = y.a[1]
                        while b.k == 'idx':
                            ix.insert(0, uncast(b.a[1]))
                            b = b.a[0]
                        if b.a[0] is not m or len(ix) != 2 or not isload(ix[0], 'markov.state', m):
                            if y in list(subterms(t)):
                                return bad('counts', 'a bid uses the counts of another state or chain')
                            continue
                        if ix[0] is ix[1]:
                            deps.add(y)
                            continue
                        if ix[1].k != 'i' or not ix[1].a[0] & bit:
                            if y not in set(subterms(t)):
                                continue
                            return bad('counts', 'a bid uses counts of transitions that do not start the program')
                        used.add(y)
                if not used:
                    return bad('counts', 'a bid does not depend on the number of observed launches')
                if {uncast(y.a[1].a[1]).a[0] for y in used} != {bit, 3}:
                    return bad('counts', 'a bid leaves out transitions that start the program')
                var = lambda y: y in used
                if mono(S, t, lambda y: y in deps) not in (0, 1):
                    return bad('counts', 'a bid grows with departures that do not start the program')
            else:
                node = None
                if l is not None and fname(l) and fname(l).endswith('.exe'):
                    node = l.a[0]
                if node is None:
                    raise Broken('bid for a program that is neither a member of a chain nor of a sequence node')
                var = lambda y: y.k == 'ld' and y.a[1].k == 'fld' and y.a[1].a[0] is node and y.a[1].a[1].endswith('.count')
            r = mono(S, t, var)
            if r is None or r > 0:
                return bad('monotone', 'a bid is not known to grow with the number of observed launches')
            tab = S.auto[2] if l is not None and S.auto[1] is l.a[0] else None
            d = sites.setdefault((i.where(), i.id), {'dep': [], 'const': [], 'ins': i, 'S': S})
            if r == -1:
                d['dep'].append((lo, hi, tab))
            else:
                d['const'].append((lo, hi, tab, self.guard(S, var, t)))

        def guard(self, S, var, t):
            """how the path limits the counts: 'high', 'low', 'pos' (known to have been observed) or None"""
            g = None
            for f, (lo, hi, ne) in S.facts.items():
                if f.k == 'cmp' and lo == hi and f.a[0] in ('olt', 'ole', 'slt') and (dep(f.a[1], var) or dep(f.a[2], var)):
                    a, b = f.a[1], f.a[2]
                    w = a if dep(a, var) else b
                    m = mono(S, w, var)
                    if m not in (1, -1):
                        continue
                    high = (w is b) == bool(lo)
                    if m < 0:
                        high = not high
                    k = b if w is a else a
                    if f.a[0] in ('olt', 'ole') and float(k.a[0] if k.k in ('f', 'i') else 'nan') == 0:
                        g = g or 'pos'
                        continue
                    if bool(lo) or f.a[0] == 'slt' or any(h.k == 'cmp' and h.a[0] in ('olt', 'ole') and l == u == 1 and w in h.a for h, (l, u, _) in S.facts.items()):
                        g = 'high' if high else 'low'       # (an ordered comparison that held excludes NaN)
                elif var(f) and lo >= 1:
                    g = g or 'pos'
            return g

        def bitclear(self, S, m, bit):
            from ir import Term
            sv = [y for f in S.facts for y in subterms(f) if isload(y, 'markov.state', m) and y.k == 'ld']
            if not sv:
                return False
            sv = sv[0]
            left = []
            for k in range(4):
                ok = True
                for f, (lo, hi, ne) in S.facts.items():
                    try:
                        v = evali(f, lambda y: k if y is sv else None)
                    except (ValueError, KeyError):
                        continue
                    if not lo <= v <= hi or v in ne:
                        ok = False
                if ok:
                    left.append(k)
            return bool(left) and all(not k & bit for k in left)
    for n in ['b:' + b for b in bids]:
        c.sim(n, B(), cap=400, depth=80)
    n1 = c.counts.get('bids judged', 0)
    c.sim('vp', B(), cap=150, depth=80)
    c.need('bids judged', 3)
    if not n1 or c.counts['bids judged'] == n1:
        c.bad('bids', 'predictors', 'one of the predictors never bids')
    tabs = [t for d in sites.values() for (_, _, t) in d['dep']]
    for (w, _), d in sites.items():
        c.count('bid sites')
        if d['dep']:
            dlo, dhi = min(x[0] for x in d['dep']), max(x[1] for x in d['dep'])
            for lo, hi, t, g in d['const']:
                if g == 'high' and hi <= dlo + 1e-6 or g == 'low' and lo >= dhi - 1e-6:
                    c.count('limited bids compared')
                    continue
                if g is None:
                    c.bad('monotone', w, 'a bid of a fixed size is not tied to the number of observed launches')
                else:
                    c.bad('monotone', w, 'limiting the confidence makes the bid %s than the bids it limits' % ('weaker' if g == 'high' else 'stronger'))
        else:
            for lo, hi, t, g in d['const']:
                if g is None:
                    c.bad('monotone', w, 'a bid does not depend on the number of observed launches')
                elif t is None or not any(sametab(t, u) for u in tabs):
                    c.bad('monotone', w, 'a bid of fixed size is not accompanied by one that grows with the number of observed launches')
                else:
                    c.count('fixed bids accompanied by proportional ones')

    class O(Trace):
        def store(self, S, i, loc, v):
            if isfld(loc, 'exe.lnprob'):
                c.count('resets')
                if not (v.k == 'f' and float(v.a[0]) == 0 or v is ZERO):
                    self.bad(S, i, 'outside', 'a score is changed outside the two predictors')
    for f in others:
        c.sim('o:' + f, O())
    class N(Inv):
        NONNEG = B.NONNEG
        load = B.load

        def index(self, S, i, loc):
            pass

        def dead(self, S, i):
            pass

        def store(self, S, i, loc, v):
            if isfld(loc, 'vomm_node.count'):
                c.count('stores of launch counts')
                if max(S.rng(v)[0], irange(S, v)[0]) < 0:
                    self.bad(S, i, 'counts', 'a negative launch count can enter the sequence tree')
    for n in ('rf', 'hy', 'vu'):
        c.sim(n, N())
    c.need('stores of launch counts', 3)
    c.ok('every bid negative, finite, monotone, for programs not running')


def sametab(a, b):
    return a is not None and a == b
