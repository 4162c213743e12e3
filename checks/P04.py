"""A length contract carried from where paths are admitted to where they are read back. Admission: every path of proc_get_maps and proc_foreach
(one round of each loop, calls inlined) is followed with value ranges; where a text scanned or a link read into a buffer leaves these
functions (into a map, a copy, or the callback), the path must have established that it is absolute and that it did not fill the buffer
(its length differs from the field width; the length of the link is below the limit), a line it came from must have been read with room for
the whole field, and it must not have been shortened (no terminator stored into it except behind the prelink marker, no copy of limited
length). The largest admitted length L follows. State file: on the flattened reader, every field that is decoded from a file URI has a
width of at least 7 + 3 L, lines are read whole, and no comparison of a decoded path's length distinguishes lengths up to L; on the flattened
writer, an encoded path is printed without a precision or a limited buffer. Functions between admission and state file make no limited
copies of a path."""
BOUNDS = '''One round of each loop (rounds do not share a path). A percent-encoded byte takes three characters and the prefix file:// seven. The kernel's own
fields before a path in a maps line take at most 100 characters.'''
import re
from lib import *
from unfold import unfold
from rng import Ranges, INF
import P06

SCAN = ['preload_spy_scan', 'preload_spy_update_model']
JOBS = ['proc_get_maps proc_get_maps', 'proc_foreach proc_foreach', 'preload_state_read_file preload_state_read_file', 'preload_state_write_file preload_state_write_file']
OUTSIDE = ('preload_', 'exe_', 'map_')
KEEP = {'g_strdup', 'strdup', 'g_intern_string', 'g_strdup_printf', 'g_strconcat', 'g_string_new', 'g_string_assign', 'g_memdup2', 'g_memdup', 'g_hash_table_insert', 'g_hash_table_replace',
        'g_hash_table_add', 'g_ptr_array_add', 'g_string_append', 'g_string_chunk_insert', 'g_ref_string_new', 'g_build_filename', 'g_filename_to_uri', 'strndup', 'g_strndup', 'g_canonicalize_filename'}
LIMITED = {'g_strlcpy': (0, 1, 2), 'strncpy': (0, 1, 2), 'g_strndup': (None, 0, 1), 'strndup': (None, 0, 1), 'memcpy': (0, 1, 2), 'g_strlcat': (0, 1, 2)}
LINE = 100


def strip(t):
    while t.k == 'cast':
        t = t.a[-1]
    return t


def isfn(t, name):
    t = strip(t)
    if t.k == 'c' and t.a[1] == name:
        return t.a[2:]
    if t.k == 'pure' and t.a[0] == name:
        return t.a[1:]
    return None


def base(t):
    while t.k == 'idx':
        t = t.a[0]
    return t


class Admit(Client):
    """auto: ('line', buffer, chars) ('scan', buffer, width) ('link', buffer, result, limit) ('len', buffer, term) ('copy', to, from)"""

    def init(self):
        return frozenset()

    def keep_atoms(self, S):
        return {a for f in S.facts for a in f.atoms} | {a for e in S.auto for t in e if isinstance(t, Term) for a in t.atoms}

    def source(self, S, t):
        t = base(t)
        for _ in range(4):
            for e in S.auto:
                if e[0] == 'copy' and e[1] is t:
                    t = e[2]
        return t if any(e[0] in ('scan', 'link') and e[1] is t for e in S.auto) else None

    def call(self, S, i, name, args, ret, label):
        c = self.ctx
        if name == 'fgets':
            n = S.rng(args[1])[1]
            S.auto = frozenset(e for e in S.auto if not (e[0] == 'line' and e[1] is base(args[0]))) | {('line', base(args[0]), n - 1)}
            return
        if name == 'sscanf' and args[1].k == 's':
            k = 2
            for m in P06.DIR.finditer(args[1].a[0]):
                star, w, mod, cv = m.groups()
                if cv == '%' or star:
                    continue
                if k < len(args) and (cv == 's' or cv[0] == '['):
                    b = base(args[k])
                    c.count('texts scanned')
                    S.auto = frozenset(e for e in S.auto if b not in e) | {('scan', b, int(w) if w else INF, cv)}
                    for e in S.auto:
                        if e[0] == 'line' and e[1] is base(args[0]) and w and e[2] - LINE < int(w):
                            self.bad(S, i, 'admission', 'a line is read with room for %d characters, too few for a path of %s' % (e[2], w))
                        elif e[0] == 'line' and e[1] is base(args[0]) and not w:
                            self.bad(S, i, 'admission', 'a path may have been cut by the end of the line buffer')
                k += 1
            return
        if name in ('readlink', 'readlinkat'):
            k = 1 if name == 'readlink' else 2
            b = base(args[k])
            c.count('links read')
            S.auto = frozenset(e for e in S.auto if b not in e) | {('link', b, ret, S.rng(args[k + 1])[1])}
            return
        if name == 'strlen':
            b = base(args[0])
            if self.source(S, b) is not None:
                S.auto = S.auto | {('len', self.source(S, b), ret)}
            return
        if name in LIMITED:
            d, s, n = LIMITED[name]
            b = self.source(S, args[s])
            if b is not None:
                w = [e[2] if e[0] == 'scan' else e[3] for e in S.auto if e[0] in ('scan', 'link') and e[1] is b][0]
                if S.rng(args[n])[1] < w:
                    self.bad(S, i, 'shortened', 'a path of up to %s characters is copied with a limit of %s' % (w, show(args[n])))
                if d is not None:
                    S.auto = S.auto | {('copy', base(args[d]), b)}
        if name in ('snprintf', 'vsnprintf'):
            for a in args[3:]:
                b = self.source(S, a)
                if b is not None:
                    w = [e[2] if e[0] == 'scan' else e[3] for e in S.auto if e[0] in ('scan', 'link') and e[1] is b][0]
                    if S.rng(args[1])[1] <= w:
                        self.bad(S, i, 'shortened', 'a path of up to %s characters is printed with a limit of %s' % (w, show(args[1])))
                    S.auto = S.auto | {('copy', base(args[0]), b)}
            return
        if name in KEEP or name.startswith('*') or name.startswith(OUTSIDE):
            for a in args:
                b = self.source(S, a)
                if b is not None:
                    self.admit(S, i, b)

    def admit(self, S, i, b):
        c = self.ctx
        c.count('admissions of a path analysed')
        for e in S.auto:
            if e[0] == 'scan' and e[1] is b:
                w = e[2]
                L = None
                for l in S.auto:
                    if l[0] == 'len' and l[1] is b:
                        lo, hi, ne = self.facts(S, l[2])
                        while hi in ne:
                            hi -= 1
                        if hi < w:
                            L = min(hi, L if L is not None else hi)
                        elif w in ne:
                            L = min(w - 1, L if L is not None else w)
                for t, f in S.facts.items():
                    t = strip(t)
                    u = unload(t)
                    if f[0] == f[1] == 0 and u is not None and u.k == 'idx' and u.a[0] is b and u.a[1].k == 'i' and u.a[1].a[0] <= w - 1:
                        L = min(u.a[1].a[0], L if L is not None else INF)
                if w == INF:
                    return self.bad(S, i, 'admission', 'a path of any length is admitted')
                if L is None:
                    self.bad(S, i, 'admission', 'a path that fills its field of %d characters, and may have been cut there, is admitted' % w)
                    L = w
                c.L.add(L)
                if e[3] != '[^\n]':
                    self.bad(S, i, 'shortened', 'a path is read only up to the first of some character it may contain (%s)' % e[3].replace('\n', '\\n'))
            elif e[0] == 'link' and e[1] is b:
                lo, hi, ne = self.facts(S, e[2])
                hi = min(hi, e[3])
                while hi in ne:
                    hi -= 1
                if hi >= e[3]:
                    self.bad(S, i, 'admission', 'a link that fills its buffer of %s, and may have been cut there, is admitted' % e[3])
                c.L.add(min(hi, e[3]))
        # a file URI can only be made of an absolute path
        ok = False
        for t, f in S.facts.items():
            s = strip(t)
            u = unload(s)
            if f[0] == f[1] == 47 and u is not None and (u is b or u.k == 'idx' and u.a[0] is b and u.a[1] is ZERO):
                ok = True
            for n, v in (('g_path_is_absolute', True), ('g_str_has_prefix', True), ('strncmp', False)):
                a = isfn(s, n)
                if a is not None and base(a[0]) is b and (n == 'g_path_is_absolute' or a[1].k == 's' and a[1].a[0].startswith('/')):
                    if v and (f[0] > 0 or f[1] < 0 or 0 in f[2]) or not v and f[0] == f[1] == 0:
                        ok = True
        if not ok:
            self.bad(S, i, 'absolute', 'a path that need not be absolute is admitted: it has no file URI, so it cannot be saved')

    def facts(self, S, t):
        lo, hi, ne = S.rng(t)
        ne = set(ne)
        for k, f in S.facts.items():
            if k is not t and strip(k) is strip(t):
                lo, hi = max(lo, f[0]), min(hi, f[1])
                ne |= set(f[2])
        return lo, hi, ne

    def store(self, S, i, loc, v):
        if v is not ZERO:
            return
        r = base(loc)
        a = isfn(r, 'strstr')
        for n in ('strchr', 'strrchr', 'g_strrstr', 'strpbrk', 'g_strstr_len', 'strchrnul'):
            q = isfn(r, n)
            if q is not None and self.source(S, q[0]) is not None:
                self.bad(S, i, 'shortened', 'a path is cut at a character it may contain')
        if a is not None and self.source(S, a[0]) is not None:
            if not (a[1].k == 's' and 'prelink' in a[1].a[0]):
                self.bad(S, i, 'shortened', 'a path is cut at a text it may contain')
            return
        b = self.source(S, r)
        if b is None:
            return
        if loc is b or loc.k == 'idx' and loc.a[1].k == 'i':
            n = loc.a[1].a[0] if loc.k == 'idx' else 0
            for e in S.auto:
                if e[0] == 'scan' and e[1] is b and n < e[2] or e[0] == 'link' and e[1] is b and n < e[3] - 1:
                    self.bad(S, i, 'shortened', 'a path is cut after %d characters' % n)


def loops_once(fn):
    return unfold(fn, 1, maxblocks=100000)


def frm(R, o, name, d=0, seen=None):
    """an operand that may be the result of a call of that name"""
    seen = seen if seen is not None else set()
    o = R.canon(o)
    if o[0] != 'v' or d > 10 or o[1] in seen:
        return False
    seen.add(o[1])
    i = R.fn.ins.get(o[1])
    if i is None:
        return False
    if i.op == 'call':
        return api.ALIAS.get(i.callee(), i.callee()) == name
    if i.op in ('phi', 'select', 'bitcast', 'freeze'):
        return any(frm(R, x, name, d + 1, seen) for x in (i.ops[1:] if i.op == 'select' else i.ops))
    return False


def reader(c, L):
    fn = c.flat('preload_state_read_file')
    f = P06.F(c, fn)
    R = f.R
    need = 7 + 3 * L
    decoded = set()
    for i in fn.instrs():
        if i.op == 'call' and f.name(i) == 'g_filename_from_uri' and i.b in f.reach:
            b = f.buf(i.ops[0])
            c.count('decodings')
            if b:
                decoded.add(b)
    for i in fn.instrs():
        if i.op != 'call' or i.b not in f.reach:
            continue
        n = f.name(i)
        if n in ('sscanf', 'fscanf') and i.ops[1][0] == 's':
            k = 2
            for m in P06.DIR.finditer(i.ops[1][1]):
                star, w, mod, cv = m.groups()
                if cv == '%' or star:
                    continue
                if k < len(i.ops) and (cv == 's' or cv[0] == '[') and f.buf(i.ops[k]) in decoded:
                    c.count('fields decoded to a path')
                    if w and int(w) < need:
                        c.bad('reader', i.where(), 'a field of %s characters cannot hold the encoded form of an admitted path (up to %d)' % (w, need))
                k += 1
        elif n == 'fgets':
            if R.range(i.ops[1], i.b)[1] - 1 < need + 150:
                c.bad('reader', i.where(), 'a line is read with too little room for an admitted path')
        elif n in LIMITED and n not in ('memcpy',) and R.range(i.ops[LIMITED[n][2]], i.b)[1] <= need and (f.buf(i.ops[LIMITED[n][1]]) in decoded or frm(R, i.ops[LIMITED[n][1]], 'g_filename_from_uri')):
            c.bad('reader', i.where(), 'a path read back is copied with a limit')
        elif n == 'strlen':
            p = frm(R, i.ops[0], 'g_filename_from_uri')
            u = f.buf(i.ops[0]) in decoded
            if not (p or u):
                continue
            top = L if p else need
            c.count('lengths of a path compared')
            vals = {i.id}
            for j in fn.instrs():
                if j.op in ('trunc', 'zext', 'sext', 'freeze') and j.ops[0][0] == 'v' and j.ops[0][1] in vals:
                    vals.add(j.id)
            for j in fn.instrs():
                if j.op == 'icmp' and any(o[0] == 'v' and o[1] in vals for o in j.ops):
                    a, b = j.ops
                    pred = j.x
                    if not (a[0] == 'v' and a[1] in vals):
                        a, b = b, a
                        pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
                    lo, hi = R.range(b, j.b)
                    if lo != hi:
                        c.bad('reader', j.where(), 'the length of a path is compared with what is not constant')
                        continue
                    test = lambda x: {'eq': x == lo, 'ne': x != lo, 'lt': x < lo, 'le': x <= lo, 'gt': x > lo, 'ge': x >= lo}[pred if pred in ('eq', 'ne') else pred[1:]]
                    if len({test(x) for x in (1, 2, top - 1, top, min(max(1, lo - 1), top), min(max(1, lo), top), min(max(1, lo + 1), top))}) > 1:
                        c.bad('reader', j.where(), 'a comparison with %d tells apart lengths that are admitted (up to %d)' % (lo, top))
    c.need('decodings')
    c.need('fields decoded to a path')
    c.ok('reader: fields of %d characters and more' % need)


def writer(c, L):
    fn = c.flat('preload_state_write_file')
    f = P06.F(c, fn)
    need = 7 + 3 * L
    for i in fn.instrs():
        if i.op != 'call' or i.b not in f.reach:
            continue
        n = f.name(i)
        if n == 'g_filename_to_uri':
            c.count('encodings')
        uri = [k for k, o in enumerate(i.ops) if frm(f.R, o, 'g_filename_to_uri')]
        if not uri:
            continue
        if n in LIMITED and n != 'memcpy' and f.R.range(i.ops[LIMITED[n][2]], i.b)[1] <= need:
            c.bad('writer', i.where(), 'an encoded path is copied with a limit')
        if n in ('snprintf', 'vsnprintf') and f.R.range(i.ops[1], i.b)[1] < need + 150:
            c.bad('writer', i.where(), 'an encoded path is printed into a buffer that is too small for it')
        fmt = next((o[1] for o in i.ops if o[0] == 's' and '%' in o[1]), None)
        if fmt and re.search(r'%[-+ #0]*\d*\.(\d+|\*)s', fmt) and not (lambda m: m and m.isdigit() and int(m) >= need)(re.search(r'\.(\d+|\*)s', fmt).group(1)):
            c.bad('writer', i.where(), 'an encoded path is printed with a limit')
    c.need('encodings')
    c.ok('writer: encoded paths are printed whole')


def between(c, L):
    """limited copies of texts in the functions a path passes through"""
    names = c.prog.reachable(['preload_spy_scan', 'preload_spy_update_model', 'preload_exe_new', 'preload_map_new', 'preload_state_register_exe']) - c.prog.reachable(['proc_foreach', 'proc_get_maps', 'preload_state_save'])
    for n in sorted(names):
        fn = c.prog.fns.get(n)
        if fn is None:
            continue
        f = P06.F(c, fn)
        c.count('functions a path passes through')
        for i in fn.instrs():
            if i.op != 'call' or i.b not in f.reach:
                continue
            k = f.name(i)
            if k in LIMITED and k != 'memcpy' and i.ops[LIMITED[k][1]][0] != 's':
                if f.R.range(i.ops[LIMITED[k][2]], i.b)[1] < L:
                    c.bad('shortened', i.where(), '%s copies a text with a limit below %d' % (k, L))
            if k == 'snprintf' and i.ops[2][0] == 's' and re.search(r'%s', i.ops[2][1]) and not i.ops[2][1].startswith('/proc/') and f.R.range(i.ops[1], i.b)[1] < L:
                c.bad('shortened', i.where(), 'a text is printed with a limit below %d' % L)
            if k in ('g_strdup_printf', 'snprintf') and any(o[0] == 's' and re.search(r'%[-+ #0]*\d*\.(\d+|\*)s', o[1]) for o in i.ops):
                c.bad('shortened', i.where(), 'a text is printed with a limit')


def run(c):
    c.L, c.sites, c.inv, c.again = set(), set(), {}, False
    for r in ('proc_get_maps', 'proc_foreach'):
        before = c.counts.get('admissions of a path analysed', 0)
        c.sim(loops_once(c.flat(r)), Admit(), [], cap=60000, depth=60)
        if c.counts.get('admissions of a path analysed', 0) == before:
            raise Broken('%s admits nothing' % r)
        c.ok('%s: paths are admitted whole' % r)
    c.need('texts scanned')
    c.need('links read')
    L = int(max(c.L))
    c.count('largest admitted length', L)
    reader(c, L)
    writer(c, L)
    between(c, L)
    c.ok('no limited copy on the way')
