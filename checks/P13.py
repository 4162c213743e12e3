"""Symbolic budget analysis of preload_prophet_readahead.  On every path the budget expression is extracted and compared, as a polynomial
over configuration values and memory statistics, with the documented formula under the clamping cases the path has decided.  The
selection loop is unfolded symbolically: whenever k maps are handed to the reader, the path must hold an undamaged comparison proving
that the k-th map's size (rounded up to kilobytes; decided on residues modulo 1024) fits what the budget leaves after the k-1 before it,
and every one of them must have been charged."""
from trace import *
from poly import *
from unfold import unfold

JOBS = ['ra preload_prophet_readahead stop=proc_get_memstat,preload_readahead', 'mem proc_get_memstat']
CL = {'conf_model.memtotal': 'total', 'conf_model.memfree': 'free', 'conf_model.memcached': 'cached', 'conf_model.membuffers': 'buffers'}


def evalx(t, n, leaf):
    """value of an integer/boolean term in one variable"""
    if t is leaf:
        return n
    if t.k == 'i':
        return t.a[0]
    if t.k == 'cast':
        return evalx(t.a[3], n, leaf)
    if t.k == 'not':
        return 1 - evalx(t.a[0], n, leaf)
    if t.k == 'cmp':
        a, b = evalx(t.a[1], n, leaf), evalx(t.a[2], n, leaf)
        return int({'eq': a == b, 'slt': a < b, 'ult': a < b}[t.a[0]])
    if t.k == 'sel':
        return evalx(t.a[1] if evalx(t.a[0], n, leaf) else t.a[2], n, leaf)
    a, b = evalx(t.a[1], n, leaf), evalx(t.a[2], n, leaf)
    return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: a // b, 'sdiv': lambda: a // b, 'urem': lambda: a % b,
            'srem': lambda: a % b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: a >> b}[t.a[0]]()


def lenleaf(t):
    """the single map length a size term depends on, or None"""
    ls = set()

    def go(x):
        if x.k in ('ld', 'old'):
            ls.add(x)
            return
        for y in x.a:
            if isinstance(y, Term):
                go(y)
    go(t)
    return next(iter(ls)) if len(ls) == 1 and isload(next(iter(ls)), 'map.length') else None


def lossy(t, leaf):
    """does a narrowing conversion apply to the size before it is compared?"""
    if t is leaf or not isinstance(t, Term):
        return False
    if t.k == 'cast' and t.a[0] == 'trunc' and t.a[2] not in ('i64',) and leaf in subterms(t.a[3]) and t.a[3].k != 'cmp':
        return True
    return any(lossy(x, leaf) for x in t.a)


_kc = {}


def kbterm(t):
    """(leaf, lossless) if t is the size of a map in kilobytes rounded up; ('wrong', leaf) if it depends on a length in another way"""
    if t in _kc:
        return _kc[t]
    r = None
    l = lenleaf(t)
    if l is not None and t is not l and not (t.k == 'cast' and t.a[3] is l):
        try:
            ok = all(evalx(t, n, l) == -(-n // 1024) for n in list(range(0, 3 * 1024 + 3)) + [1024 * (1 << 21), 1024 * (1 << 31) + 1, (1 << 33) + 1023])
            r = (l, not lossy(t, l)) if ok else ('wrong', l)
        except (KeyError, ZeroDivisionError):
            r = ('wrong', l)
    elif l is not None:
        r = ('wrong', l)
    _kc[t] = r
    return r


class KA(object):
    """atoms of the polynomials: map sizes become K(length) atoms"""

    def __init__(self):
        self.wrong = set()

    def __call__(self, t):
        if t.k in ('op', 'cast', 'sel') and 'map.length' in show_fields(t):
            l = lenleaf(t)
            if l is not None and pure_len(t):
                k = kbterm(t)
                if k and k[0] != 'wrong':
                    return Poly.atom(mk('K', k[0], 1 if k[1] else 0))
                if t.k == 'cast' and t.a[0] in ('sext', 'zext', 'trunc'):
                    return None
                if t.k == 'op' and t.a[0] in ('sub',):
                    return None
                return Poly.atom(mk('KW', k[1] if k else l))
        return None


_sf = {}


def show_fields(t):
    r = _sf.get(t)
    if r is None:
        r = set()
        for x in subterms(t):
            if x.k == 'fld':
                r.add(tag(x.a[1]))
        _sf[t] = r
    return r


def pure_len(t):
    """t is built from one length and constants only"""
    if t.k == 'ld':
        return isload(t, 'map.length')
    if t.k in ('i',):
        return True
    if t.k in ('cast', 'cmp', 'not', 'op', 'sel'):
        return all(pure_len(x) for x in t.a if isinstance(x, Term))
    return False


def strip(p):
    """forget which copies of sizes are narrowed"""
    return p.subst(lambda a: Poly.atom(mk('K', a.a[0], 1)) if isinstance(a, Term) and a.k == 'K' else None)


LABEL = {'memory.total': 'MemTotal:', 'memory.free': 'MemFree:', 'memory.available': 'MemAvailable:', 'memory.cached': 'Cached:', 'memory.buffers': 'Buffers:'}


def memstat(c):
    found = {}

    class M(Trace):
        def call(self, S, i, name, args, ret, label):
            if name in ('open', 'fopen') and args[0].k == 's':
                S.auto = (args[0].a[0],)
            if name in ('sscanf', 'fscanf') and args[1].k == 's':
                for n, d in enumerate(args[2:]):
                    if d.k == 'fld' and tag(d.a[1]) in LABEL or d.k == 'arg':
                        f = tag(d.a[1]) if d.k == 'fld' else 'memory.total'
                        c.count('statistics read')
                        found.setdefault(f, set()).add((args[1].a[0].split('%')[0].strip() if n == 0 else '?', S.auto[0] if S.auto else '?', i.where()))
    Sim(c.flat('mem'), M()).run()
    if not found:
        c.assume('proc_get_memstat fills the memory statistics by other means than sscanf; their labels are not checked')
    for f, l in LABEL.items():
        for lab, file, w in found.get(f, ()):
            if lab != l or file not in ('/proc/meminfo', '?'):
                c.bad('statistics', w, '%s is read from %s of %s instead of %s of /proc/meminfo' % (f, lab, file, l))
        if found and f not in found:
            c.bad('statistics', 'proc_get_memstat', '%s is not read from /proc/meminfo' % f)
    c.ok('memory statistics are read under their own labels')


def run(c):
    fn = c.flat('ra')
    K = 4 if c.tier == 'thorough' else 2
    u = unfold(fn, K)
    c.fnsused['ra unfolded x%d' % K] = (len(u.blocks), sum(len(b) for b in u.blocks))
    got = {}

    class R(Trace):
        def keep_atoms(self, S):
            return {a for f in S.facts for a in f.atoms} | Trace.keep_atoms(self, S)

        def call(self, S, i, name, args, ret, label):
            if name == 'proc_get_memstat':
                self.add(S, ('call', name, tuple(args), ret, label))
            if name == 'preload_readahead':
                self.add(S, ('call', name, tuple(args), ret, label))
                judge(self, S, i, args)

    def cval(S, cl, i, field):
        """clamped percentage as a polynomial under the facts of the path"""
        v = None
        for k, x in list(S.mem.items()):
            if isfld(k, field):
                v = x
        for f in S.facts:
            for x in subterms(f):
                if x.k == 'ld' and isfld(x.a[1], field):
                    v = x
        return v

    def judge(cl, S, i, args):
        c.count('hand-over paths')
        files, cnt = args
        base = unload(files)
        if not (base is not None and isfld(base, '_GPtrArray.pdata') or base is not None and tag(base.a[1] if base.k == 'fld' else '').endswith('pdata')):
            cl.bad(S, i, 'selection', 'the files handed to the reader are %s, not the sorted maps' % show(files))
            return
        if cnt.k != 'i':
            n = S.rng(cnt)
            raise Broken('number of chosen maps is not determined on an unfolded path (%s)' % show(cnt))
        k = cnt.a[0]
        got[k] = got.get(k, 0) + 1
        ka = KA()
        facts = facts_ge(S, ka)
        el = lambda j: mk('idx', files, I(j)) if j else None
        # length atoms by index
        L = {}
        for t in list(S.facts) + list(S.mem.values()):
            for x in subterms(t):
                if x.k == 'ld' and isfld(x.a[1], 'map.length'):
                    m = x.a[1].a[0]
                    loc = unload(m)
                    if loc is not None:
                        j = None
                        if loc is files or loc.k == 'idx' and loc.a[0] is files and loc.a[1].k == 'i':
                            j = 0 if loc is files else loc.a[1].a[0]
                        if j is not None:
                            L[j] = (m, x)
        for j in range(k):
            if j not in L:
                return cl.bad(S, i, 'charge', 'map %d is handed to the reader without its size having been looked at' % j)
        # need: each chosen map has evidence of need
        for j in range(k):
            m = L[j][0]
            neg = False
            for f, (lo, hi, ne) in S.facts.items():
                if f.k == 'cmp' and f.a[0] == 'olt' and lo == 1 and isload(f.a[1], 'map.lnprob', m) and f.a[2].k == 'f' and float(f.a[2].a[0]) == 0:
                    neg = True
                if f.k == 'cmp' and f.a[0] == 'olt' and lo == 1 and isload(f.a[1], 'map.lnprob', m) and f.a[2] is ZERO:
                    neg = True
            if not neg:
                cl.bad(S, i, 'need', 'a map is chosen without evidence of need (its log-probability is not known to be negative)')
        # find the budget: the acceptance fact of map k-1 is  B - sum(K_0..K_{k-1}) >= 0
        KT = lambda j, ok=1: Poly.atom(mk('K', L[j][1], ok))
        for kk in range(1, k + 1):
            last = mk('K', L[kk - 1][1], 1)
            cand = []
            for f in facts:
                if (last,) in f.m and f.m[(last,)] == -1:
                    cand.append(f)
            budget = None
            for f in cand:
                B = strip(f)
                for j in range(kk):
                    B = B + KT(j)
                if not B.isconst() and not any(isinstance(a, Term) and a.k in ('K', 'KW') for a in B.atoms()):
                    budget = B
                    break
            if budget is None:
                if any(a.k == 'KW' for f in facts for a in f.atoms() if isinstance(a, Term)):
                    return cl.bad(S, i, 'rounding', 'a map\'s size is not charged as its length rounded up to kilobytes')
                if any(a.k == 'K' and a.a[1] == 0 for f in facts for a in f.atoms() if isinstance(a, Term) and a.a[0] is L[kk - 1][1]):
                    return cl.bad(S, i, 'rounding', 'a map\'s size is narrowed before it is compared with the budget')
                return cl.bad(S, i, 'charge', '%d maps are chosen without a comparison proving that their sizes add up to no more than the budget' % kk)
            formula(cl, S, i, budget, facts)
        c.count('choices proved', k)

    seen_b = {}

    def formula(cl, S, i, B, facts):
        c.count('budget expressions compared')
        ms = {}      # statistics atoms: field -> term  (x/100)
        at = {}
        stat = None

        def classify(a):
            if a.k == 'ld' or a.k == 'old' or a.k == 'out':
                l = unload(a)
                if l is not None and l.k == 'fld':
                    return tag(l.a[1])
            if a.k == 'op' and a.a[0] in ('sdiv', 'udiv') and a.a[2].k == 'i':
                x = uncast(a.a[1])
                l = unload(x)
                if l is not None and l.k == 'fld' and tag(l.a[1]).startswith('memory.'):
                    return '%s/%d' % (tag(l.a[1])[7:], a.a[2].a[0])
            return None
        names = {}
        for a in B.atoms():
            n = classify(a)
            if n is None:
                return cl.bad(S, i, 'formula', 'the budget depends on %s' % show(a))
            names.setdefault(n, a)
        allf = {}
        for f in list(S.facts):
            for x in subterms(f):
                n = classify(x) if x.k in ('ld', 'old', 'op') else None
                if n:
                    allf.setdefault(n, x)
        ren = lambda p: Poly({tuple(sorted(classify(a) or repr(a) for a in k)): v for k, v in p.m.items()})
        B2 = ren(B)
        # clamped percentages under this path's facts
        pc = {}
        for f in CL:
            t = allf.get(f) or names.get(f)
            if t is None:
                pc[f] = None
                continue
            lo, hi, ne = S.rng(t)
            if lo >= 100:
                pc[f] = Poly({(): Fraction(100)})
            elif hi <= -100:
                pc[f] = Poly({(): Fraction(-100)})
            elif lo >= -100 and hi <= 100:
                pc[f] = Poly({(f,): Fraction(1)})
            else:
                return cl.bad(S, i, 'clamp', 'the percentage %s is used without being clamped to -100..100' % f.split('.')[1])
        if any(v is None for v in pc.values()):
            return cl.bad(S, i, 'formula', 'the budget does not depend on %s' % ', '.join(k.split('.')[1] for k, v in pc.items() if v is None))
        mulp = lambda p, q: Poly({tuple(sorted(k + l)): v * w for k, v in p.m.items() for l, w in q.m.items()})
        st = lambda n: Poly({('%s/100' % n,): Fraction(1)})
        avail = allf.get('memory.available')
        r = S.rng(avail) if avail is not None else (-INF, INF, ())
        if r[0] > 0:
            src = 'available'
        elif r[1] <= 0:
            src = 'free'
        else:
            return cl.bad(S, i, 'formula', 'the budget does not distinguish whether the system reports available memory')
        X = mulp(pc['conf_model.memtotal'], st('total')) + mulp(pc['conf_model.memfree'], st(src))
        Y = mulp(pc['conf_model.memcached'], st('cached')) + mulp(pc['conf_model.membuffers'], st('buffers'))
        rf = [ren(f) for f in facts]
        if B2 == X + Y:
            if not entails(rf, X + Poly({(): Fraction(0)})):
                cl.bad(S, i, 'formula', 'the first part of the budget is not kept at or above zero')
        elif B2 == Y:
            if not entails(rf, -X):
                cl.bad(S, i, 'formula', 'the first part of the budget is dropped although it may be positive')
        else:
            cl.bad(S, i, 'formula', 'the budget is %r, the documented one %r' % (B2, X + Y))
        c.count('budget cases: %s' % src)

    def onret(cl, S, i, v):
        c.count('paths')
    cl = R(onret=onret)
    c.sim(u, cl, cap=100000, depth=80)
    if max(got or [0]) < 2 and not c.viols:
        c.bad('charge', 'preload_prophet_readahead', 'no path chooses two maps')
    if not c.viols:
        c.need('hand-over paths', 10)
    memstat(c)
    c.ok('budget equals the documented formula on every path; every chosen map proved to fit')
    c.assume('memory statistics and kilobyte counts fit their integer types', 'every iteration of the selection loop executes the same code as the unfolded ones')
