"""Symbolic range accounting of a read-ahead round.  preload_readahead is flattened and its loops unfolded; on every path over n files
the requests issued (path, offset, length as polynomials over the files' attributes) are compared with the files: each file's range must
be contained in a request for its own file, by linear entailment from the comparisons decided on the path; each request must start where
one of its files starts, end where one of them ends, and consist of ranges the path proved to overlap or touch within one file; requests
come in array order and no two start with the same file.  What a child process reads is what its fork stood for.  The mmap fallback must
map at least the requested range."""
from trace import *
from poly import *
from unfold import unfold

JOBS = ['ra preload_readahead']
FORKS = ('fork', 'vfork')
READS = {'readahead': (0, 1, 2), 'posix_fadvise': (0, 1, 2)}
MAXF = {'quick': 3, 'thorough': 4}


def elem(t):
    """index of the array element a pointer value was loaded from"""
    l = unload(t)
    if l is None:
        return None
    if l.k == 'arg':
        return 0
    if l.k == 'idx' and l.a[0].k == 'arg' and l.a[1].k == 'i':
        return l.a[1].a[0]
    return None


def owner(t):
    """(index, field) of a value loaded from a map"""
    if t.k not in ('ld', 'old'):
        return None
    l = unload(t)
    if l is None or l.k != 'fld' or not tag(l.a[1]).startswith('map.'):
        return None
    j = elem(l.a[0])
    return None if j is None else (j, tag(l.a[1])[4:])


def atomf(t):
    o = owner(t)
    if o:
        return Poly.atom(mk('E', *o))
    if t.k == 'op' and t.a[0] == 'and':
        # alignment: handled with explicit facts
        return Poly.atom(mk('AND', *[a for a in t.a[1:]]))
    return None


def rangeof(off, ln):
    return poly(off, atomf, False), poly(ln, atomf, False)


def alignfacts(t):
    """facts about rounding terms inside t:  x & ~(p-1) <= x   and   (x + p - 1) & ~(p-1) >= x"""
    out = []
    for s in subterms(t):
        if s.k == 'op' and s.a[0] == 'and':
            A = poly(s, atomf)
            for x, m in ((s.a[1], s.a[2]), (s.a[2], s.a[1])):
                P = mask(m)
                if P is not None:
                    X = poly(x, atomf)
                    out.append(X - A)                                  # rounds down
                    out.append(A - X + P - Poly.const(1))              # by less than the page size
    return out


def aligned(t):
    t = uncast(t)
    if t is ZERO:
        return True
    if t.k == 'op' and t.a[0] == 'and':
        return mask(t.a[1]) is not None or mask(t.a[2]) is not None
    if t.k == 'op' and t.a[0] == 'sub':
        r = uncast(t.a[2])
        return r.k == 'op' and r.a[0] in ('urem', 'srem') and uncast(r.a[1]) is uncast(t.a[1])
    return t.k == 'op' and t.a[0] == 'mul' and any(uncast(x).k == 'op' and uncast(x).a[0] in ('udiv', 'sdiv') for x in t.a[1:])


def mask(m):
    """page size polynomial P if m is ~(P-1)"""
    m = uncast(m)
    if m.k == 'op' and m.a[0] == 'xor' and m.a[2].k == 'i' and m.a[2].a[0] in (-1, (1 << 64) - 1):
        return poly(m.a[1], atomf) + Poly.const(1)
    if m.k == 'op' and m.a[0] == 'sub' and m.a[1] is ZERO:
        return poly(m.a[2], atomf)
    if m.k == 'op' and m.a[0] == 'mul' and m.a[2].k == 'i' and m.a[2].a[0] == -1:
        return poly(m.a[1], atomf)
    if m.k == 'i' and m.a[0] < 0:
        return Poly.const(-m.a[0])
    return None


def feasible(c, fn, K):
    """unfolding of the blocks reachable when the list is not sorted (sorting only permutes it) and waiting succeeds"""
    class V(Trace):
        def init(self):
            return ()

        def keep_atoms(self, S):
            return ()

        def load(self, S, i, loc, v):
            if isfld(loc, 'conf_system.sortstrategy'):
                S.mem[loc] = ZERO
                S.env[i.id] = ZERO

    s = Sim(fn, V(), cap=4)
    s.run()
    only = {fn.ins[x].b for x in s.visited_ins}
    return unfold(fn, K, only=only, maxblocks=60000)


def run(c):
    fn = c.flat('ra')
    cnt = mk('arg', 1, fn.args[1][0])
    maxf = MAXF.get(c.tier, 3)
    u = feasible(c, fn, maxf)
    c.fnsused['ra unfolded x%d' % maxf] = (len(u.blocks), sum(len(b) for b in u.blocks))
    for par in (False, True):
        tokens, child, finals = {}, {}, []

        class R(Trace):
            # auto: (requests so far, open request (name, None) or None, in child?)
            def init(self):
                return ((), None, None)

            def keep_atoms(self, S):
                out = {a for f in S.facts for a in f.atoms}
                for r in S.auto[0] + ((S.auto[1],) if S.auto[1] else ()):
                    for x in r:
                        if isinstance(x, Term):
                            out |= x.atoms
                return out

            def load(self, S, i, loc, v):
                if isfld(loc, 'map.path') and not S.refine(v, ne=(0,)):
                    return []
                if isfld(loc, 'conf_system.sortstrategy'):
                    S.mem[loc] = ZERO
                    S.env[i.id] = ZERO
                if isfld(loc, 'conf_system.maxprocs'):
                    S.mem[loc] = I(2 if par else 0)
                    S.env[i.id] = S.mem[loc]

            def call(self, S, i, name, args, ret, label):
                reqs, op, ch = S.auto
                if name in FORKS:
                    fk = frozenset((f, r) for f, r in S.facts.items() if f is not ret)
                    tok = tokens.setdefault((i.id, fk, reqs), len(tokens))
                    if label == 'child':
                        S.auto = (reqs, None, tok)
                    elif label == 'parent':
                        S.auto = (reqs + (('fork', tok),), None, ch)
                    else:
                        return []       # same obligations as 'parent'
                elif name == 'wait':
                    if not S.refine(ret, 1, INF):
                        return []
                elif name == 'open':
                    if label == 'err':
                        return []
                    if op:
                        self.bad(S, i, 'issued', 'a file is opened but never read ahead')
                    S.auto = (reqs, ('open', args[0], ret), ch)
                elif name in READS:
                    f, o, l = [args[k] for k in READS[name]]
                    c.count('requests')
                    if op is None or f is not op[2]:
                        self.bad(S, i, 'file', 'the range is not read from the file just opened for it')
                        return []
                    req = ('req', op[1], o, l)
                    if not S.refine(ret, 0, 0):
                        return []
                    if ch is not None:
                        child.setdefault(ch, set()).add(req)
                        S.auto = (reqs, None, ch)
                    else:
                        S.auto = (reqs + (req,), None, ch)

            def ret(self, S, i, v):
                self.paths += 1
                if S.auto[2] is not None:
                    return
                if S.auto[1]:
                    self.bad(S, i, 'issued', 'a file is opened but never read ahead')
                finals.append((S, i))
                if len(finals) > 20000:
                    raise Broken('too many paths')
        cl = R()
        c.sim(u, cl, cap=100000, depth=80)
        reported = set()
        for S, i in finals:
            m = judge(c, S, cnt, child)
            c.count('paths judged (%s)' % ('parallel' if par else 'in-process'))
            if m and m not in reported:
                reported.add(m)
                c.bad(m[0], i.where(), m[1] + (' (parallel reading)' if par else ''))
        if not finals:
            raise Broken('no path through the read-ahead round')
        c.ok('requests cover exactly the files, %s, up to %d files' % ('parallel' if par else 'in-process', maxf))
    c.need('paths judged (in-process)', 5)
    c.need('paths judged (parallel)', 5)
    fallback(c)
    c.assume('every map has a path (P19, P32)', 'byte offsets and lengths stay below 2^62 so that their sums do not wrap', 'every further iteration of the file loop executes the same code as the unfolded ones')


def judge(c, S, cnt, child):
    lo, hi, ne = S.rng(cnt)
    n = 0 if hi <= 0 else hi
    if n and lo != hi:
        return 'cover', 'the round can end without having looked at every file of the list'
    reqs = []
    for r in S.auto[0]:
        if r[0] == 'fork':
            k = child.get(r[1])
            if not k:
                return 'issued', 'a reader process ends without reading ahead'
            if len(k) > 1:
                return 'issued', 'what a reader process reads is not determined by its fork'
            r = next(iter(k))
        o = owner(r[1])
        if o is None or o[1] != 'path':
            return 'file', 'a request is made for %s' % show(r[1])
        O, L = rangeof(r[2], r[3])
        reqs.append((o[0], O, O + L))
    # same file
    cls = list(range(max([n] + [r[0] + 1 for r in reqs])))

    def find(x):
        while cls[x] != x:
            x = cls[x]
        return x
    for f, (flo, fhi, fne) in S.facts.items():
        if f.k == 'pure' and f.a[0] in ('strcmp', 'g_str_equal'):
            a, b = owner(f.a[1]), owner(f.a[2])
            eq = flo == fhi == 0 if f.a[0] == 'strcmp' else 0 in fne or flo > 0
            if a and b and a[1] == b[1] == 'path' and eq:
                cls[find(a[0])] = find(b[0])
        if f.k == 'cmp' and f.a[0] == 'eq' and flo == 1:
            a, b = owner(f.a[1]) if isinstance(f.a[1], Term) else None, owner(f.a[2]) if isinstance(f.a[2], Term) else None
            if a and b and a[1] == b[1] == 'path':
                cls[find(a[0])] = find(b[0])
    E = lambda j, f: Poly.atom(mk('E', j, f))
    facts = facts_ge(S, atomf, through_trunc=False)
    for j in range(n):
        facts += [E(j, 'offset'), E(j, 'length')]
    off = lambda j: E(j, 'offset')
    end = lambda j: E(j, 'offset') + E(j, 'length')
    ge = lambda x, y: entails(facts, x - y, depth=3)
    covered = set()
    starts = []
    for pj, O, Eend in reqs:
        if pj >= n:
            return 'index', 'a file beyond the end of the list is read'
        mem = [j for j in range(n) if find(j) == find(pj) and ge(off(j), O) and ge(Eend, end(j))]
        st = [j for j in mem if O == off(j)]
        en = [j for j in mem if Eend == end(j)]
        if not st:
            return 'range', 'a request starts where none of the files it covers starts'
        if not en:
            if not any(Eend == end(j) for j in range(n) if find(j) == find(pj)):
                return 'range', 'a request ends where none of the files it covers ends'
            return 'range', 'a request is shorter than one of its parts'
        starts.append(st)
        # contiguity
        done = [st[0]]
        rest = [j for j in mem if j != st[0]]
        prog = True
        while prog and rest:
            prog = False
            for j in rest:
                if any(ge(end(k), off(j)) for k in done):
                    done.append(j)
                    rest.remove(j)
                    prog = True
                    break
        if en[0] not in done and not any(e in done for e in en):
            return 'gap', 'ranges are merged although they need not overlap or touch'
        covered |= set(mem)
        c.count('request ranges proved')
    for j in range(n):
        if j not in covered:
            return 'cover', 'the range of a selected file is not covered by any request for that file'
        c.count('file ranges proved covered')
    last = -1
    for st in starts:
        nxt = [j for j in st if j > last]
        if not nxt:
            return 'twice', 'a range is requested again, or out of order'
        last = min(nxt)
    return None


def fallback(c):
    """when the kernel refuses readahead, what is mapped covers the request; a failed open or an I/O error is the only reason to skip"""
    u = feasible(c, c.flat('ra'), 1)

    class F(Trace):
        def init(self):
            return (None, None)

        def keep_atoms(self, S):
            out = {a for f in S.facts for a in f.atoms}
            for x in (S.auto[0] or ()) + (S.auto[1] or ()):
                if isinstance(x, Term):
                    out |= x.atoms
            return out

        def load(self, S, i, loc, v):
            if isfld(loc, 'conf_system.sortstrategy') or isfld(loc, 'conf_system.maxprocs'):
                S.mem[loc] = ZERO
                S.env[i.id] = ZERO

        def call(self, S, i, name, args, ret, label):
            if name == 'readahead':
                S.auto = (tuple(args), None)
            elif name == 'mmap' and S.auto[0]:
                c.count('fallback mappings')
                fd, o, l = S.auto[0]
                if args[4] is not fd:
                    self.bad(S, i, 'fallback', 'another file is mapped than the one to be read')
                    return
                O, L = rangeof(o, l)
                MO, ML = rangeof(args[5], args[1])
                facts = facts_ge(S, atomf, through_trunc=False) + alignfacts(args[5]) + alignfacts(args[1])
                if not aligned(args[5]):
                    self.bad(S, i, 'fallback', 'the mapping does not start on a page boundary')
                if not entails(facts, O - MO, depth=3):
                    self.bad(S, i, 'fallback', 'the mapping starts after the requested range')
                if not entails(facts, MO + ML - O - L, depth=3):
                    self.bad(S, i, 'fallback', 'the mapping is shorter than the requested range')
                S.auto = (S.auto[0], (ret, args[1]))
            elif name in ('madvise', 'posix_madvise') and S.auto[1]:
                if args[0] is not S.auto[1][0] or poly(args[1], atomf) != poly(S.auto[1][1], atomf):
                    self.bad(S, i, 'fallback', 'the advice does not apply to the whole mapping')
                if args[2].k == 'i' and args[2].a[0] != 3:
                    self.bad(S, i, 'fallback', 'the advice given is not that the range will be needed')
    f = F()
    c.sim(u, f, cap=100000, depth=80)
    c.ok('fallback covers the request')
