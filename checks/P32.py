"""Admission analysis of proc_foreach and proc_get_maps (flattened; one entry, up to three configured prefixes unfolded): on every
path, an entry is admitted exactly when its name starts with '/', carries no deletion mark (a prelink suffix is cut off instead) and
the configured list for its kind accepts it - the first matching prefix decides, '!' rejects, no match accepts; the daemon's own
process is left out; and a program is learned exactly when the size of its maps reaches the configured minimum."""
from walk import *

JOBS = ['maps proc_get_maps stop=preload_map_new,preload_map_free,preload_exemap_new', 'each proc_foreach',
        'upd preload_spy_update_model stop=proc_get_maps,preload_exe_new,preload_state_register_exe,vomm_update,preload_markov_state_changed,preload_markov_foreach,preload_exemap_free,preload_is_vomm_algorithm']
READS = ('fgets', 'readdir', 'getline', 'g_io_channel_read_line_string', 'g_dir_read_name')


def shape(fn):
    """unfold: one entry of the outer loop, three prefixes, one step of any other loop"""
    loops = {}
    for h, body, _ in fn.loops():
        loops[h] = loops.get(h, frozenset()) | body
    k = {}
    outer = None
    for h, body in loops.items():
        names = {i.callee() for b in body for i in fn.blocks[b] if i.op == 'call'}
        k[h] = 3 if names & {'strncmp', 'g_str_has_prefix', 'memcmp', 'strstr', 'g_ascii_strncasecmp'} and not names & set(READS) else 1
        if names & set(READS):
            outer = h
    if outer is None:
        raise Broken('no loop that reads entries found in %s' % fn.name)
    return unfold(fn, 1, loopk=k, maxblocks=60000)


class Adm(Walk):
    def __init__(self, kind, field, **kw):
        self.kind, self.pfield = kind, field
        Walk.__init__(self, calls=lambda n: n not in api.PURE and n not in ('memset', 'g_log'), **kw)

    def store(self, S, i, loc, v):
        if loc.k in ('pure', 'c'):
            self.add(S, ('cut', loc, v))
        return Walk.store(self, S, i, loc, v)

    def call(self, S, i, name, args, ret, label):
        if name in READS and any(e[0] == 'call' and e[1] == name for e in S.auto) and not S.refine(ret, lo=0, hi=0):
            return []
        return Walk.call(self, S, i, name, args, ret, label)

    # ---- facts about a name
    def first(self, S, B):
        """True/False/None: the name starts with '/'"""
        for t in list(S.facts):
            for x in subterms(t):
                l = x.a[1] if x.k == 'ld' else None
                if l is not None and (l is B or l.k == 'idx' and l.a[0] is B and l.a[1] is ZERO):
                    lo, hi, ne = S.rng(x)
                    if lo == hi == 47:
                        return True
                    if lo > 47 or hi < 47 or 47 in ne:
                        return False
        return self.cmp0(S, lambda f, a: f == 'g_path_is_absolute' and a[0] is B, flip=True)

    def cmp0(self, S, pred, flip=False):
        for t, (lo, hi, ne) in S.facts.items():
            if pred(*fn_(t)):
                if lo == hi == 0:
                    return not flip
                if 0 in ne or lo > 0 or hi < 0:
                    return flip
        return None

    def find(self, S, B, text):
        """(found?, position term)"""
        for t, (lo, hi, ne) in S.facts.items():
            n, a = fn_(t)
            if n in ('strstr', 'g_strstr_len', 'g_strrstr') and a[0] is B and isstr(a[-1], text):
                if lo == hi == 0:
                    return False, t
                if 0 in ne or lo > 0:
                    return True, t
        return None, None

    def listed(self, S, B):
        """verdict of the configured list: True accepts, False rejects, None undecided on this path"""
        L = [x for t in list(S.facts) + list(S.mem.values()) for x in subterms(t) if x.k in ('ld', 'old') and unload(x) is not None and isfld(unload(x), self.pfield)]
        other = [x for t in list(S.facts) for x in subterms(t) if unload(x) is not None and x.k == 'ld' and isfld(unload(x), OTHER[self.pfield])]
        if other and not L:
            return 'wrong'
        if not L:
            return None
        L = L[0]
        if S.isnull(L):
            return True
        for j in range(8):
            e = None
            for t in list(S.facts):
                for x in subterms(t):
                    if x.k == 'ld' and self.entry(x.a[1], L) == j:
                        e = x
            if e is None:
                return None
            if S.isnull(e):
                return True
            bang = None
            for t in list(S.facts):
                for x in subterms(t):
                    if x.k == 'ld' and (x.a[1] is e or x.a[1].k == 'idx' and x.a[1].a[0] is e and x.a[1].a[1] is ZERO):
                        lo, hi, ne = S.rng(x)
                        if lo == hi == 33:
                            bang = True
                        elif lo > 33 or hi < 33 or 33 in ne:
                            bang = False
            if bang is None:
                return None
            m = None
            for t, (lo, hi, ne) in S.facts.items():
                n, a = fn_(t)
                if n is None or len(a) < 2 or a[0] is not B:
                    continue
                z = True if lo == hi == 0 else False if 0 in ne or lo > 0 or hi < 0 else None
                if z is None:
                    continue
                if n == 'strncmp' and self.pat(S, a[1], e, bang) and fn_(a[2])[0] == 'strlen' and fn_(a[2])[1][0] is a[1]:
                    m = z
                elif n == 'g_str_has_prefix' and self.pat(S, a[1], e, bang):
                    m = not z
            if m is None:
                return None
            if m:
                return not bang
        return None

    @staticmethod
    def entry(loc, L):
        n = 0
        while loc.k == 'idx' and loc.a[1].k == 'i':
            n += loc.a[1].a[0]
            loc = loc.a[0]
        return n if loc is L or loc.k == 'ld' and same(loc, L) else None

    @staticmethod
    def pat(S, p, e, bang):
        if p is e:
            return not bang
        return p.k == 'idx' and p.a[0] is e and S.rng(p.a[1])[:2] == (int(bang), int(bang))

    def judge(self, S, i, B, admitted, ev, where):
        f, (pre, p), (dele, _), l = self.first(S, B), self.find(S, B, '.#prelink#.'), self.find(S, B, '(deleted)'), self.listed(S, B)
        self.ctx.count(where + (' admitted' if admitted else ' left out'))
        cut = pre and any(e[0] == 'cut' and e[1] is p and e[2] is ZERO for e in ev)
        if admitted:
            if f is not True:
                self.bad(S, i, 'absolute', 'a name that is not known to start with "/" is admitted')
            if pre and not cut:
                self.bad(S, i, 'prelink', 'the prelink suffix of an admitted name is not cut off')
            if pre is None or pre is False and dele is not False:
                self.bad(S, i, 'deleted', 'a name that may be marked deleted is admitted')
            if l == 'wrong':
                self.bad(S, i, 'list', 'the name is judged by the list for the other kind')
            elif l is False:
                self.bad(S, i, 'list', 'a name is admitted although the first matching prefix rejects it')
            elif l is None:
                self.bad(S, i, 'list', 'a name is admitted without going through the configured prefixes in order')
        elif f is True and (pre is True or pre is False and dele is False) and l is True:
            self.bad(S, i, 'ignored', 'an admissible name is ignored')


OTHER = {'_conf_system.mapprefix': '_conf_system.exeprefix', '_conf_system.exeprefix': '_conf_system.mapprefix'}
OTHER.update({tag(k): tag(v) for k, v in list(OTHER.items())})


def fn_(t):
    """(name, arguments) of a library result"""
    t = uncast(t)
    if t.k == 'pure':
        return t.a[0], t.a[1:]
    if t.k == 'c':
        return t.a[1], t.a[2:]
    return None, ()


def isstr(t, text):
    return isinstance(t, Term) and t.k == 's' and text == t.a[0]


class Maps(Adm):
    def ret(self, S, i, v):
        ev = S.auto
        scan = [e for e in ev if e[0] == 'call' and e[1] in ('sscanf', 'fscanf')]
        new = [e for e in ev if e[0] == 'call' and e[1] == 'preload_map_new']
        counted = v is not ZERO and not S.isnull(v)
        if not scan:
            if new or counted:
                self.bad(S, i, 'absolute', 'a map is admitted without having been parsed')
            return
        lo, hi, ne = S.rng(scan[-1][3])
        B = new[-1][2][0] if new else scan[-1][2][-1]
        if new and not any(B is a for a in scan[-1][2]):
            return self.bad(S, i, 'absolute', 'the admitted name is not the one that was parsed')
        want = [a for a in S.facts if a.k == 'arg' and S.nonnull(a)]
        if want and bool(new) != counted:
            self.bad(S, i, 'size', 'a map that is left out is counted' if counted else 'an admitted map is not counted')
        if not new and not counted and (hi < 4 or 4 in ne or lo != 4):
            return
        if not new and not counted and self.full(S, B):
            return
        self.judge(S, i, B, bool(new) or counted, ev, 'maps')

    @staticmethod
    def full(S, B):
        for t, (lo, hi, ne) in S.facts.items():
            for x in subterms(t):
                if fn_(x)[0] == 'strlen' and fn_(x)[1][0] is B:
                    return S.rng(x)[0] > 0 or S.rng(x)[0] == S.rng(x)[1]
        return False


class Each(Adm):
    def call(self, S, i, name, args, ret, label):
        if not name or name not in self.ctx.prog.fns and i.callee() is None:
            self.add(S, ('func', tuple(args)))
        return Adm.call(self, S, i, name, args, ret, label)

    def ret(self, S, i, v):
        ev = S.auto
        rl = [e for e in ev if e[0] == 'call' and e[1] == 'readlink']
        fn = [e for e in ev if e[0] == 'func']
        for e in fn:
            if not rl or e[1][1] is not rl[-1][2][1]:
                self.bad(S, i, 'absolute', 'the name handed on is not the one read from the process link')
            pid = uncast(e[1][0])
            if not any(f.k == 'cmp' and f.a[0] == 'eq' and S.truth(f) is False and self.selfpid(f, pid) for f in S.facts):
                self.bad(S, i, 'self', 'a process is handed on without making sure that it is not the daemon itself')
            else:
                self.ctx.count('own process left out')
        if not rl:
            return
        lo, hi, ne = S.rng(rl[-1][3])
        for f, (l, h, n) in S.facts.items():
            if uncast(f) is rl[-1][3]:
                lo, hi, ne = max(lo, l), min(hi, h), tuple(ne) + tuple(n)
        B, size = rl[-1][2][1], rl[-1][2][2]
        if not fn and (not lo > 0 or size.k == 'i' and lo == hi == size.a[0]):
            return
        self.judge(S, i, B, bool(fn), ev, 'programs')

    @staticmethod
    def selfpid(f, pid):
        x, y = uncast(f.a[1]), uncast(f.a[2])
        g = lambda t: fn_(t)[0] == 'getpid'
        return g(x) and y is pid or g(y) and x is pid


class Upd(Walk):
    def call(self, S, i, name, args, ret, label):
        if name == 'preload_state_register_exe':
            self.ctx.count('programs learned')
            if not any(self.enough(S, f) for f in S.facts):
                self.bad(S, i, 'minimum', 'a program is learned although its maps are not known to reach the minimum size')
        return Walk.call(self, S, i, name, args, ret, label)

    def enough(self, S, f):
        """f says that a size is not below the minimum"""
        if f.k != 'cmp' or f.a[0] not in ('ult', 'slt'):
            return False
        a, b = uncast(f.a[1]), uncast(f.a[2])
        return S.truth(f) is False and self.size(a) and isload(b, 'conf_model.minsize') or S.truth(f) is False and self.size(a) and isload(b, '_conf_model.minsize')

    @staticmethod
    def size(t):
        return t.k in ('c', 'old') and any(x.k == 'c' and x.a[1] == 'proc_get_maps' for x in subterms(t))

    def ret(self, S, i, v):
        ev = S.auto
        sizes = [e[3] for e in ev if e[0] == 'call' and e[1] == 'proc_get_maps']
        if not sizes or any(e[0] == 'call' and e[1] == 'preload_state_register_exe' for e in ev):
            return
        self.ctx.count('programs not learned')
        if any(S.isnull(x) for x in sizes):
            return
        if any(f.k == 'cmp' and S.truth(f) is True and self.size(uncast(f.a[1])) and (isload(uncast(f.a[2]), 'conf_model.minsize') or isload(uncast(f.a[2]), '_conf_model.minsize')) for f in S.facts):
            return
        self.bad(S, i, 'minimum', 'a program is not learned although its maps are not known to stay below the minimum size')


def run(c):
    c.sim(shape(c.flat('maps')), Maps('maps', 'conf_system.mapprefix'), cap=20000, depth=60)
    c.sim(shape(c.flat('each')), Each('programs', 'conf_system.exeprefix'), cap=20000, depth=60)
    u = Upd(calls={'proc_get_maps', 'preload_state_register_exe'})
    c.sim(unfold(c.flat('upd'), 1), u, cap=400, depth=60)
    for x in ('maps admitted', 'maps left out', 'programs admitted', 'programs left out', 'own process left out', 'programs learned', 'programs not learned'):
        c.need(x)
    c.ok('admission of maps')
    c.ok('admission of programs')
    c.ok('minimum size')
