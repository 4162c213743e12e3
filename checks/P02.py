"""Agreement of the two directions of the state file. The writer is flattened and followed along every path on which no step fails, with each
walk taken zero times or once and each single walk up to twice; the texts handed to the channel are put together and cut into records of literal characters and conversions whose arguments
are traced to the model attribute they were loaded from. Every element of the tables of maps and programs, every use of a map by a program and
every chain at exactly one of its ends must give exactly one record, the header comes first and records come after those they refer to.
Each record kind is then scanned symbolically by the flattened reader (every sscanf directive consumes the literal characters and conversions
of the written line, with %n and offsets tracked), and on every accepting path the attribute each value is restored to must be the one it was
written from, through a width that loses nothing; references must be resolved through the table keyed by the restored identity. The tree
export is checked per node: own fresh number, number of the parent, count and program, children under the number of their parent, root 0;
the import stores them back. Identities are drawn from an increasing counter."""
BOUNDS = '''Walks of the writer are taken at most once each (each single one at most twice), which covers all combinations of elements of different kinds; the line of
the reader is the header followed by one record of the kind at hand. Decimal conversions of doubles are compared as conversions (%lg to %lg), not digit by digit.
If the tree is not exported by a function that calls itself for each child, the rule for its numbering is not applied.'''
from walk import *

W = ['write preload_state_write_file unroll stop=vomm_export_state']
CONS = {'preload_map_new': 'MAP', 'preload_exe_new': 'EXE', 'preload_exemap_new_from_exe': 'EXEMAP', 'preload_markov_new': 'MARKOV', 'vomm_import_node': 'VOMMNODE'}
RSTOP = list(CONS) + ['preload_map_ref', 'preload_map_unref', 'preload_map_free', 'preload_exe_free', 'preload_markov_foreach', 'preload_state_register_exe', 'vomm_import_done']
JOBS = W + ['read preload_state_read_file unroll stop=' + ','.join(RSTOP), 'mapnew preload_map_new', 'exenew preload_exe_new', 'emnew preload_exemap_new_from_exe',
            'import vomm_import_node', 'export vomm_export_state']
OUT = {'g_io_channel_write_chars', 'g_string_printf', 'g_string_append_printf', 'g_string_append', 'g_string_append_c', 'g_string_assign', 'g_string_truncate', 'g_string_append_len',
       'g_strdup_printf', 'snprintf', 'g_strconcat', 'vomm_export_state'}
SPEC = re.compile(r'%([-+ #0]*)(\*|\d*)(?:\.(\d+))?(hh|h|ll|l|q|L|z|j|t)?([a-zA-Z%])')
FP = ('double', 'f64', 'd', 'fp')
BITS = {None: 32, '': 32, 'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'q': 64, 'z': 64, 'j': 64, 't': 64, 'L': 64}


class Item(object):
    """a conversion in a written line: class 'd' (integer), 'g' (floating) or 's', bits, the attribute it shows"""
    def __init__(self, cls, bits, src, term):
        self.cls, self.bits, self.src, self.term, self.full = cls, bits, src, term, bits


def width(t):
    return int(t[1:]) if isinstance(t, str) and t[:1] == 'i' and t[1:].isdigit() else None


def attr(t):
    """(attribute name with indexes, base term, narrowed?) of a loaded value"""
    low = None
    while t.k == 'cast':
        if t.a[0] == 'trunc':
            low = min(low or 99, width(str(t.a[2])) or 99)
        t = t.a[3]
    if t.k == 'c' and t.a[1] in ('g_filename_to_uri', 'g_strdup'):
        n, b, l = attr(t.a[2])
        return (n + ':uri' if n and t.a[1] == 'g_filename_to_uri' else n), b, l
    if t.k == 'arg':
        return 'arg%s' % t.a[0], t, low
    l = unload(t)
    if l is None:
        return None, None, low
    return place(l) + (low,)


def place(l):
    ix = ''
    while l.k == 'idx':
        ix = '[%s]' % show(l.a[1]) + ix
        l = l.a[0]
    if l.k != 'fld':
        return None, None
    # the first member of an array
    return tag(l.a[1]) + ix, l.a[0]


def norm(n, prog):
    return n


class Bad(Exception):
    pass


class Text(object):
    """the text that reaches the channel, from the events of a path"""
    def __init__(self, prog):
        self.prog, self.buf, self.out = prog, {}, []

    def fmt(self, f, args, types):
        if f.k != 's':
            raise Bad('a format is not constant: %s' % show(f))
        o, pos, n = [], 0, 0
        f = f.a[0]
        for m in SPEC.finditer(f):
            o += list(f[pos:m.start()])
            pos = m.end()
            if m.group(5) == '%':
                o.append('%')
                continue
            if m.group(2) == '*' or n >= len(args):
                raise Bad('a conversion has no argument in %r' % f)
            a, ty = args[n], types[n]
            n += 1
            c = m.group(5)
            if a.k == 's' and c == 's':
                o += list(a.a[0])
            elif a.k == 'i' and c in 'di':
                o += list(str(a.a[0]))
            elif c in 'diuxX':
                bits = BITS[m.group(4)]
                if width(ty) not in (None, max(bits, 32)):
                    raise Bad('a value of %s bits is printed by %s' % (width(ty), m.group(0)))
                if c in 'xX':
                    raise Bad('a value is printed in hexadecimal')
                o.append(Item('d', bits, None, a))
            elif c in 'eEfFgGaA':
                o.append(Item('g', 64 if m.group(3) is None or int(m.group(3)) >= 6 else int(m.group(3)), None, a))
            elif c == 's':
                if self.strings(a) is not None:
                    o += self.strings(a)
                else:
                    if m.group(3) is not None:
                        raise Bad('a text is cut by %s' % m.group(0))
                    o.append(Item('s', 0, None, a))
            else:
                raise Bad('unknown conversion %s' % m.group(0))
        return o + list(f[pos:])

    def strings(self, t):
        """content of a text value, or None"""
        if t.k == 's':
            return list(t.a[0])
        l = unload(t)
        if l is not None and isfld(l, 'GString.str'):
            return list(self.buf.get(l.a[0], ()))
        return self.buf.get(t)

    def event(self, e):
        _, name, a, ret, types = e
        if name == 'g_io_channel_write_chars':
            s = self.strings(a[1])
            if s is None:
                raise Bad('an unknown text is written: %s' % show(a[1]))
            n = a[2]
            if not (n.k == 'i' and (n.a[0] < 0 or all(isinstance(x, str) for x in s) and n.a[0] == len(s))
                    or isload(n, 'GString.len') and isload(a[1], 'GString.str') and unload(n).a[0] is unload(a[1]).a[0]
                    or uncast(n).k == 'pure' and uncast(n).a[0] == 'strlen' and same(uncast(n).a[1], a[1])):
                raise Bad('a text is written in part only: %s' % show(n))
            self.out += s
        elif name in ('g_string_printf', 'g_string_append_printf'):
            t = self.fmt(a[1], a[2:], types[2:])
            self.buf[a[0]] = (self.buf.get(a[0], []) if 'append' in name else []) + t
        elif name in ('g_string_assign', 'g_string_append'):
            s = self.strings(a[1])
            self.buf[a[0]] = (self.buf.get(a[0], []) if 'append' in name else []) + (s if s is not None else [Item('s', 0, None, a[1])])
        elif name == 'g_string_append_c':
            self.buf[a[0]] = self.buf.get(a[0], []) + ([chr(a[1].a[0] & 255)] if a[1].k == 'i' else [Item('s', 0, None, a[1])])
        elif name == 'g_string_truncate':
            if a[1] is not ZERO:
                raise Bad('a text is cut')
            self.buf[a[0]] = []
        elif name == 'g_strdup_printf':
            self.buf[ret] = self.fmt(a[0], a[1:], types[1:])
        elif name == 'snprintf':
            self.buf[a[0]] = self.fmt(a[2], a[3:], types[3:])
        elif name == 'g_strconcat':
            o = []
            for x in a:
                if x is not ZERO:
                    s = self.strings(x)
                    o += s if s is not None else [Item('s', 0, None, x)]
            self.buf[ret] = o
        else:
            return False
        return True


class Line(object):
    def __init__(self, toks, at):
        self.toks, self.at = toks, at
        s = ''
        for x in toks:
            if not isinstance(x, str) or x.isspace():
                break
            s += x
        self.tag = s

    def items(self):
        return [x for x in self.toks if not isinstance(x, str)]


class Writer(Walk):
    def __init__(self, do, names=OUT):
        Walk.__init__(self)
        self.do, self.names = do, names

    def pre_call(self, S, i, name, args, label):
        if label == 'err':
            return False

    def call(self, S, i, name, args, ret, label):
        Walk.call(self, S, i, name, args, ret, label)
        if name in self.names or name == '?':
            ty = []
            for o in i.ops:
                ty.append(i.fn.ins[o[1]].ty if o[0] == 'v' and o[1] in i.fn.ins else None)
            self.add(S, ('call', name, tuple(args), ret, tuple(ty)))

    def ret(self, S, i, v):
        self.do(self, S, i, v)


def lines(prog, ev):
    """records written along a path: [Line], text left over, other calls"""
    t = Text(prog)
    res, n0, rest = [], 0, []
    for n, e in enumerate(ev):
        if e[0] != 'call':
            continue
        if not t.event(e):
            rest.append((n, e))
            continue
        while '\n' in t.out:
            k = t.out.index('\n')
            res.append(Line(t.out[:k], n))
            t.out = t.out[k + 1:]
    return res, t.out, rest


# what a record must hold: attribute -> how the reader may restore it is checked separately
NEED = {'MAP': {'map.seq', 'map.path:uri', 'map.offset', 'map.length', 'map.update_time'}, 'EXE': {'exe.seq', 'exe.path:uri', 'exe.update_time', 'exe.time'},
        'EXEMAP': {'exe.seq', 'map.seq', 'exemap.prob'},
        'MARKOV': {'a.exe.seq', 'b.exe.seq', 'markov.time'} | {'markov.time_to_leave[%d]' % k for k in range(4)} | {'markov.weight[%d][%d]' % (j, k) for j in range(4) for k in range(4)},
        'PRELOAD': {'state.time'}}
AFTER = {'EXEMAP': ('MAP', 'EXE'), 'MARKOV': ('EXE',), 'VOMMNODE': ('EXE',)}


def full(n):
    """indexes of first members are left out in places"""
    if n == 'markov.time_to_leave':
        return n + '[0]'
    if n and n.startswith('markov.weight'):
        return n + '[0]' * (2 - n.count('['))
    return n


def source(prog, it):
    """(attribute, object it belongs to) of a written value; the object of an exemap's map is the exemap"""
    n, b, low = attr(it.term)
    if n is None:
        return None, None
    n = full(n)
    if n in ('map.path:uri', 'exe.path:uri'):
        return n, b
    if not n.startswith('arg'):
        f = n.split('[')[0]
        ft = prog.field_type('_preload_' + f.replace('.', '_t.')) if '.' in f else None
        while isinstance(ft, list):
            ft = ft[2]
        it.full = width(ft) or 64
        if it.cls == 'd' and min(it.bits, low or 99) < it.full:
            raise Bad('%s has %d bits and is written with %d' % (n, it.full, min(it.bits, low or 99)))
        if it.cls == 'g' and it.bits < 64:
            raise Bad('%s is written with %d digits' % (n, it.bits))
        if it.cls == 'd' and ft in FP or it.cls == 'g' and ft not in FP:
            raise Bad('%s is written by a conversion of another type' % n)
    if n == 'map.seq':
        for f in ('exemap.map',):
            if isload(b, f):
                return n, unload(b).a[0]
    if n == 'exe.seq':
        for f in ('a', 'b'):
            if isload(b, 'markov.' + f):
                return f + '.exe.seq', unload(b).a[0]
    return n, b


def run(c):
    c.kinds, c.cb, roles = {}, set(), set()

    def judge(cl, S, i, v):
        bad = lambda r, m: cl.bad(S, i, r, m)
        if not S.isnull(v) or not S.auto or not any(e[0] == 'call' for e in S.auto):
            return
        ev = S.auto
        c.count('paths of a successful save')
        try:
            ls, left, rest = lines(c.prog, ev)
            if left:
                return bad('record', 'the last record is not ended')
            own = {}
            for l in ls:
                k = c.kinds.setdefault(l.tag, [])
                srcs = []
                base = None
                for it in l.items():
                    n, b = source(c.prog, it)
                    it.src = n
                    srcs.append((n, b))
                l.srcs = srcs
                shape = [x if isinstance(x, str) else (x.cls, x.bits, x.src) for x in l.toks]
                if not any(shape == y[0] for y in k):
                    k.append((shape, l))
                need = NEED.get(l.tag)
                if need is not None:
                    got = [n for n, b in srcs if n]
                    for n in sorted(need - set(got)):
                        bad('saved', 'a %s record does not hold %s' % (l.tag, n))
                # the object the record is about
                if l.tag == 'EXEMAP':
                    objs = {b for n, b in srcs if n in ('map.seq', 'exemap.prob')}
                    l.of = next((b for n, b in srcs if n == 'exe.seq'), None)
                else:
                    objs = {b for n, b in srcs if n is not None and b is not None}
                if need is not None and len(objs) > 1:
                    bad('record', 'a %s record mixes values of several objects' % l.tag)
                l.obj = next(iter(objs), None)
            if not ls or ls[0].tag != 'PRELOAD' or len([l for l in ls if l.tag == 'PRELOAD']) != 1:
                bad('order', 'the saved state does not start with one header')
            # order
            vo = [n for n, e in rest if e[1] == 'vomm_export_state']
            if len(vo) != 1:
                bad('complete', 'the sequence tree is exported %d times' % len(vo))
            else:
                e = ev[vo[0]]
                f = e[2][0]
                if f.k == 'fn':
                    c.cb.add((f.a[0]))
                if any(l.tag in ('EXE',) and l.at > vo[0] for l in ls):
                    bad('order', 'the sequence tree is written before the programs it refers to')
            for l in ls:
                for d in AFTER.get(l.tag, ()):
                    if any(x.tag == d and x.at > l.at for x in ls):
                        bad('order', 'a %s record is written before a %s record' % (l.tag, d))
            # completeness
            walks = hashwalks(ev)
            for tab, tagname, what in (('state.maps', 'MAP', 'map'), ('state.exes', 'EXE', 'program')):
                ws = [w for w in walks if isload(w[0], tab) and w[2]]
                rec = [l for l in ls if l.tag == tagname]
                if not ws:
                    bad('complete', 'not every %s is visited by a save' % what)
                    continue
                obj = {l.obj for l in rec}
                if len(obj) != len(rec):
                    bad('complete', 'a %s is written twice' % what)
                if not any(len(w[1]) == len(rec) and all(any(same(o, kv[0]) or same(o, kv[1]) for kv in w[1]) for o in obj) for w in ws):
                    bad('complete', 'a save writes %d records for %s %ss of the model' % (len(rec), '/'.join(sorted({str(len(w[1])) for w in ws})), what))
                for o in obj:
                    c.count('%ss written' % what)
            arr = arrwalks(S, ev)
            exws = [w for w in walks if isload(w[0], 'state.exes') and w[2]]
            em = [l for l in ls if l.tag == 'EXEMAP']
            used = set()
            for lst, what in (('exe.exemaps', 'uses of maps'), ('exe.markovs', 'chains')):
                found = False
                # one of the walks must look at the list of every program
                for w in exws:
                    ok = True
                    for key, exe in w[1]:
                        A = [(a, x) for a, x in arr.items() if isload(a, lst) and same(unload(a).a[0], exe)]
                        if A and A[0][1][1] or empty(S, lst, exe):
                            continue
                        ok = False
                    found = found or ok
                if not found:
                    bad('complete', 'not all %s are visited by a save' % what)
            for a, (els, comp) in arr.items():
                if not (isload(a, 'exe.exemaps') or isload(a, 'exe.markovs')):
                    continue
                exe = unload(a).a[0]
                for x in els.values():
                    if isload(a, 'exe.exemaps'):
                        n = [l for l in em if l.obj is not None and same(l.obj, x) and l.of is not None and same(l.of, exe)]
                        c.count('uses of a map written')
                        if len(n) != 1:
                            bad('complete', 'a use of a map by a program is written %d times' % len(n))
                    else:
                        n = [l for l in ls if l.tag == 'MARKOV' and l.obj is not None and same(l.obj, x)]
                        f = {r: S.truth(cmp_term('eq', *p)) for r, p in ends(S, x, exe).items()}
                        c.count('chains judged')
                        if len(n) > 1:
                            bad('complete', 'a chain is written %d times' % len(n))
                        r = {r for r, t in f.items() if t is (True if n else False)}
                        if not r:
                            bad('complete', 'whether a chain is written does not depend on which end is visited')
                        roles.add(frozenset((x, bool(n)) for x in r))
            for l in em:
                if not any(isload(a, 'exe.exemaps') and any(same(x, l.obj) for x in els.values()) for a, (els, comp) in arr.items()):
                    bad('complete', 'a record of a use of a map is of no use of the model')
        except Bad as e:
            bad('record', str(e))

    f = c.flat('write')
    loops = {}
    for h, body, _ in f.loops():
        loops[h] = loops.get(h, frozenset()) | body
    for two in [None] + sorted(loops):
        # everything once, or one walk twice with the walks around it
        around = {h for h in loops if two is not None and loops[h] >= loops[two]}
        k = {h: 1 for h in loops} if two is None else {h: 2 if h == two else 1 if h in around else 0 for h in loops}
        c.sim(unfold(f, 1, 400000, loopk=k), Writer(judge), cap=60000, depth=60)
    for k in ('maps written', 'programs written', 'uses of a map written', 'chains judged'):
        c.need(k)
    ends_ok = {e for r in roles for e, w in r}
    if roles and not any(all((e, True) in r or (e, False) in r for r in roles) for e in ends_ok):
        c.bad('complete', 'preload_state_write_file', 'chains are not written at one of their two ends')
    for t in sorted(set(NEED) - set(c.kinds)):
        if not c.viols:
            c.bad('complete', 'preload_state_write_file', 'no %s record is written' % t)
    for t, k in c.kinds.items():
        if len(k) > 1:
            c.bad('record', 'preload_state_write_file', '%s records are written in %d different ways' % (t, len(k)))
    c.ok('every successful save: complete, ordered')
    if c.viols:
        return
    node(c)
    if c.viols:
        return
    reader(c)
    others(c)


def empty(S, lst, exe):
    for f in list(S.facts) + list(S.mem.values()):
        for t in subterms(f):
            if t.k == 'ld' and t.a[1].k == 'fld' and t.a[1].a[1] == '_GPtrArray.len' and isload(t.a[1].a[0], lst) and same(unload(t.a[1].a[0]).a[0], exe) and S.rng(t)[1] == 0:
                return True
            if isload(t, lst) and same(unload(t).a[0], exe) and S.isnull(t):
                return True
    return False


def ends(S, m, exe):
    out = {}
    for f in S.facts:
        if f.k == 'cmp' and f.a[0] == 'eq':
            for p, q in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                for r in ('a', 'b'):
                    l = unload(p)
                    if isload(p, 'markov.' + r) and same(l.a[0], m) and same(q, exe):
                        out[r] = (f.a[1], f.a[2])
    return out


def node(c):
    """the callback that writes a tree node"""
    c.vrec = None
    for cb in sorted(c.cb):
        if cb not in c.prog.fns:
            raise Broken('the tree is written by %s, which is not in the program' % cb)
        c.load(JOBS + ['cb %s' % cb])

        def judge(cl, S, i, v):
            try:
                ls, left, rest = lines(c.prog, S.auto)
                if left:
                    return cl.bad(S, i, 'record', 'a tree node record is not ended')
                if not ls:
                    if not any(isload(f, 'write_context_t.err') or 'err' in show(f) and S.nonnull(f) for f in S.facts if unload(f) is not None and S.nonnull(f)):
                        cl.bad(S, i, 'complete', 'a tree node is not written')
                    return
                if len(ls) != 1:
                    return cl.bad(S, i, 'complete', '%d records are written for a tree node' % len(ls))
                c.count('tree nodes written')
                l = ls[0]
                for it in l.items():
                    it.src = attr(it.term)[0]
                    a = uncast(it.term)
                    w = width(c.flat('cb').args[a.a[0]][1]) if a.k == 'arg' and len(c.flat('cb').args[a.a[0]]) > 1 else None
                    if it.cls != 'd' or w and it.bits < w or attr(it.term)[2]:
                        cl.bad(S, i, 'record', 'a number of a tree node is written in %d bits' % it.bits)
                    it.full = it.bits
                c.kinds.setdefault(l.tag, [([x if isinstance(x, str) else (x.cls, x.bits, x.src) for x in l.toks], l)])
                c.vrec = l
            except Bad as e:
                cl.bad(S, i, 'record', str(e))
        c.sim(unfold(c.flat('cb'), 1), Writer(judge), cap=20000, depth=60)
        c.need('tree nodes written')
    if c.vrec is None:
        raise Broken('the writer of tree nodes was not found')


def scan(fmt, toks, pos):
    """symbolic sscanf: ([(kind, value, bits, toks index)] per stored directive, position) ; kind 'd','g','s','n'"""
    out = []
    k = 0
    sp = lambda x: isinstance(x, str) and x.isspace()
    while k < len(fmt):
        ch = fmt[k]
        if ch.isspace():
            while pos < len(toks) and sp(toks[pos]):
                pos += 1
            k += 1
            continue
        if ch != '%':
            if pos >= len(toks) or toks[pos] != ch:
                return out, pos, False
            pos += 1
            k += 1
            continue
        m = re.match(r'%(\*?)(\d*)(hh|h|ll|l|q|L|z|j|t)?(\[\^?\]?[^\]]*\]|.)', fmt[k:])
        k += m.end()
        star, w, mod, cv = m.groups()
        if cv == '%':
            if pos >= len(toks) or toks[pos] != '%':
                return out, pos, False
            pos += 1
            continue
        if cv == 'n':
            out.append(('n', pos, 32, None))
            continue
        if cv not in 'c' and cv[0] != '[':
            while pos < len(toks) and sp(toks[pos]):
                pos += 1
        if pos >= len(toks):
            return out, pos, False
        t = toks[pos]
        val = None
        if cv in 'diu':
            if isinstance(t, str):
                s = ''
                while pos < len(toks) and isinstance(toks[pos], str) and (toks[pos].isdigit() or not s and toks[pos] in '+-'):
                    s += toks[pos]
                    pos += 1
                if not s or s in '+-':
                    return out, pos, False
                val = int(s)
            else:
                if t.cls != 'd':
                    if t.cls == 'g':
                        raise Bad('%s is written with a fraction and read as an integer' % t.src)
                    return out, pos, False
                val = t
                pos += 1
                if pos < len(toks) and not sp(toks[pos]) and (not isinstance(toks[pos], str) or toks[pos].isdigit()):
                    raise Bad('%s is not set apart from what follows' % t.src)
            if w:
                raise Bad('a number is read with at most %s characters' % w)
            kind, bits = 'd', BITS[mod]
        elif cv in 'eEfgGa':
            if isinstance(t, str):
                m2 = re.match(r'[-+]?[\d.]+(e[-+]?\d+)?', ''.join(x if isinstance(x, str) else '\0' for x in toks[pos:]))
                if not m2:
                    return out, pos, False
                pos += m2.end()
                val = float(m2.group(0))
            else:
                if t.cls == 's':
                    return out, pos, False
                val = t
                pos += 1
            if w:
                raise Bad('a number is read with at most %s characters' % w)
            kind, bits = 'g', 64 if mod == 'l' else 32
        elif cv == 's' or cv[0] == '[':
            if cv == 's':
                stop = lambda x: sp(x)
            else:
                neg = cv[1] == '^'
                body = cv[2 if neg else 1:-1]
                stop = lambda x: isinstance(x, str) and ((x in body) if neg else (x not in body))
            p0 = pos
            while pos < len(toks) and not stop(toks[pos]) and not (w and pos - p0 >= int(w)):
                pos += 1
            if pos == p0:
                return out, pos, False
            val = tuple(toks[p0:pos])
            kind, bits = 's', int(w or 0)
        else:
            raise Broken('unknown directive %s' % m.group(0))
        if not star:
            out.append((kind, val, bits, pos))
    return out, pos, True


def linear(S, t):
    """constant value of an offset, or None"""
    while t.k == 'cast':
        t = t.a[3]
    if t.k == 'op' and t.a[0] == 'add':
        a, b = linear(S, t.a[1]), linear(S, t.a[2])
        return None if a is None or b is None else a + b
    lo, hi, _ = S.rng(t)
    return int(lo) if lo == hi else None


def literal(val):
    return ''.join(val) if isinstance(val, (list, tuple)) and all(isinstance(x, str) for x in val) else None


class Reader(Walk):
    """drives the reader along the header and one more record"""
    STORES = {'map.update_time', 'exe.update_time', 'exe.time', 'exemap.prob', 'markov.time', 'markov.time_to_leave', 'markov.weight', 'state.time', 'map.offset', 'map.length'}
    READL = {'g_io_channel_read_line_string'}

    def __init__(self, lines, do):
        Walk.__init__(self, calls=set(CONS) | {'g_hash_table_insert', 'g_hash_table_lookup', 'g_hash_table_replace'}, stores=self.STORES)
        self.lines, self.do = lines, do

    # auto: events, among them ('line', n) ('val', term, (kind, value, bits)) ('buf', place, value) ('uri', term, value)
    def cur(self, S):
        n = None
        for e in S.auto:
            if e[0] == 'line':
                n = e[1]
        return n

    def text(self, S, t):
        """(tokens, position) a string value points to"""
        off = 0
        while t.k == 'idx':
            v = linear(S, t.a[1])
            if v is None:
                raise Bad('the reader looks at a position of the line that is not that of the next field')
            off += v
            t = t.a[0]
        if isload(t, 'GString.str'):
            n = self.cur(S)
            if n is None:
                return None
            return self.lines[n].toks, off
        b = self.buf(S, t)
        if b is not None:
            return b, off
        return None

    def buf(self, S, t):
        a = self.sim.addr_leaf(t)
        r = None
        for e in S.auto:
            if e[0] == 'buf' and e[1] is a:
                r = e[2]
        return r

    def pre_call(self, S, i, name, args, label):
        if name == 'g_io_channel_read_line_string':
            n = self.cur(S)
            n = -1 if n is None else n
            if label != ('ok' if n + 1 < len(self.lines) else 'eof'):
                return False
            return
        if label == 'err':
            return False
        if name == 'sscanf':
            try:
                t = self.text(S, args[0])
                if t is None or args[1].k != 's':
                    raise Broken('the reader scans an unknown text: %s' % show(args[0])[:200])
                out, pos, ok = scan(args[1].a[0], t[0], t[1])
            except Bad as e:
                self.bad(S, i, 'agree', str(e))
                return False
            n = len([o for o in out if o[0] != 'n'])
            S.refine(S.env[i.id], n, n, ())
            return
        cmpn = {'strcmp': 0, 'strncmp': 0, 'g_str_equal': 1, 'g_strcmp0': 0, 'g_ascii_strcasecmp': 0}
        if name in cmpn:
            x = []
            for a in args[:2]:
                if a.k == 's':
                    x.append(a.a[0])
                else:
                    t = self.text(S, a)
                    l = literal(t[0][t[1]:]) if t else None
                    x.append(l)
            if None not in x:
                if name == 'strncmp' and args[2].k == 'i':
                    x = [y[:args[2].a[0]] for y in x]
                eq = x[0] == x[1]
                zero = eq != bool(cmpn[name])
                return S.refine(S.env[i.id], *((0, 0, ()) if zero else (-INF, INF, (0,))))
        if name == 'strlen':
            t = self.text(S, args[0])
            l = t and t[0][t[1]:]
            if l and all(isinstance(x, str) for x in l):
                S.refine(S.env[i.id], len(l), len(l), ())
        if name == 'g_str_has_prefix' and args[1].k == 's':
            t = self.text(S, args[0])
            if t:
                l = t[0][t[1]:][:len(args[1].a[0])]
                eq = all(isinstance(x, str) for x in l) and ''.join(l) == args[1].a[0]
                return S.refine(S.env[i.id], *((-INF, INF, (0,)) if eq else (0, 0, ())))
        return Walk.pre_call(self, S, i, name, args, label) if hasattr(Walk, 'pre_call') else None

    def call(self, S, i, name, args, ret, label):
        if name == 'g_io_channel_read_line_string':
            n = self.cur(S)
            if label == 'ok':
                self.add(S, ('line', 0 if n is None else n + 1))
            return
        if name == 'sscanf':
            t = self.text(S, args[0])
            out, pos, ok = scan(args[1].a[0], t[0], t[1])
            for k, (kind, val, bits, p) in enumerate(out):
                if k + 2 >= len(args):
                    return self.bad(S, i, 'agree', 'a conversion of the reader has no place to go to')
                a = args[k + 2]
                leaf = self.sim.addr_leaf(a)
                if kind == 's':
                    self.add(S, ('buf', leaf, val))
                    if bits and any(not isinstance(x, str) for x in val) and bits < 300:
                        self.bad(S, i, 'agree', 'a path is read with at most %d characters' % bits)
                    continue
                if kind == 'n':
                    S.mem[leaf] = I(val - t[1])
                    continue
                if isinstance(val, (int, float)):
                    S.mem[leaf] = I(val) if isinstance(val, int) and kind == 'd' else S.mem.get(leaf, mk('o', i.id, k))
                    continue
                v = mk('o', i.id, k)
                S.mem[leaf] = v
                self.add(S, ('val', v, val, bits, kind))
            return
        if name == 'g_filename_from_uri':
            t = self.text(S, args[0])
            self.add(S, ('uri', ret, t and (tuple(t[0]), t[1])))
            return
        if name in ('g_hash_table_lookup',):
            self.add(S, ('call', name, tuple(args), ret, label))
            return
        if name in ('strtod', 'atoi', 'strtol', 'g_ascii_strtod', 'g_ascii_strtoull', 'atof', 'g_ascii_strtoll'):
            t = (args[0].a[0], 0) if args[0].k == 's' else self.text(S, args[0])
            m = t and re.match(r'\s*(\d+)(\.\d+)?', ''.join(x if isinstance(x, str) else '\0' for x in t[0][t[1]:]))
            if m:
                S.env[i.id] = mk('f', m.group(0)) if name in ('strtod', 'g_ascii_strtod', 'atof') else I(m.group(1))
        Walk.call(self, S, i, name, args, ret, label)

    def load(self, S, i, loc, v):
        # characters of the line looked at directly
        p, off = loc, 0
        while p.k == 'idx':
            k = linear(S, p.a[1])
            if k is None:
                return Walk.load(self, S, i, loc, v)
            off += k
            p = p.a[0]
        toks = None
        if isload(p, 'GString.str') and self.cur(S) is not None:
            toks = self.lines[self.cur(S)].toks
        elif p.k in ('A', 'fld'):
            toks = self.buf(S, p)
        if toks is not None and off <= len(toks) and i.ty == 'i8':
            x = toks[off] if off < len(toks) else '\0'
            if isinstance(x, str):
                S.refine(v, ord(x), ord(x), ())
        return Walk.load(self, S, i, loc, v)

    def value(self, S, t):
        """(item of the line or None, narrowest width on the way)"""
        low = 99
        while t.k == 'cast':
            if t.a[0] == 'trunc':
                low = min(low, width(str(t.a[2])) or 99)
            elif t.a[0] in ('sext', 'zext'):
                low = min(low, width(str(t.a[1])) or 99)
            elif t.a[0] in ('fptrunc', 'fpext'):
                low = min(low, 32)
            t = t.a[3]
        l = unload(t)
        for e in reversed(S.auto):
            if e[0] == 'val' and e[1] is t:
                return e[2], min(low, e[3]), e[4]
            if e[0] == 'uri' and e[1] is t and e[2]:
                r = e[2][0][e[2][1]:]
                return (r[0] if len(r) == 1 and not isinstance(r[0], str) else None), 99, 's'
        return None, low, None

    def ret(self, S, i, v):
        self.do(self, S, i, v)


def reader(c):
    head = c.kinds['PRELOAD'][0][1]
    tables = {}
    fn = c.flat('read')
    heads = [h for h, body, _ in fn.loops() if any(i.op == 'call' and api.ALIAS.get(i.callee(), i.callee()) in Reader.READL for b in body for i in fn.blocks[b])]
    if not heads:
        raise Broken('no loop reads the lines of the state file')
    WANT = {'PRELOAD': ({}, {'state.time': 'state.time'}),
            'MAP': ({0: 'map.path:uri', 1: 'map.offset', 2: 'map.length'}, {'map.update_time': 'map.update_time'}),
            'EXE': ({0: 'exe.path:uri'}, {'exe.update_time': 'exe.update_time', 'exe.time': 'exe.time'}),
            'EXEMAP': ({0: ('EXE', 'exe.seq'), 1: ('MAP', 'map.seq')}, {'exemap.prob': 'exemap.prob'}),
            'MARKOV': ({0: ('EXE', 'a.exe.seq'), 1: ('EXE', 'b.exe.seq')}, dict([('markov.time', 'markov.time')] + [(x, x) for x in NEED['MARKOV'] if '[' in x])),
            'VOMMNODE': ({0: 'arg0', 1: ('EXE', 'arg1'), 2: 'arg2', 3: 'arg3'}, {})}
    done = {}

    def judge(kind):
        def do(cl, S, i, v):
            bad = lambda r, m: cl.bad(S, i, r, m)
            if not S.isnull(v):
                return
            if not any(e[0] == 'line' and e[1] == len(cl.lines) - 1 for e in S.auto):
                return
            ev = S.auto
            cons, stores = WANT[kind]
            made = [e for e in ev if e[0] == 'call' and e[1] in CONS and CONS[e[1]] == kind]
            if kind != 'PRELOAD' and len(made) != 1:
                # records that are passed over: the references of a tree node may be unknown
                look = [e for e in ev if e[0] == 'call' and e[1] == 'g_hash_table_lookup']
                if not made and kind == 'VOMMNODE' and any(S.isnull(e[3]) for e in look):
                    return
                return bad('restored', 'a %s record restores %d objects' % (kind, len(made)))
            c.count('accepting paths judged')
            done[kind] = done.get(kind, 0) + 1
            obj = made[0][3] if made else None

            def check(t, want, what):
                it, bits, k = cl.value(S, t)
                if it is None or it.src != want:
                    return bad('agree', '%s is restored from %s instead of %s' % (what, it.src if it is not None else show(t)[:80], want))
                if it.cls == 'd' and (k != 'd' or bits < it.full):
                    bad('agree', '%s has %d bits and is restored through %s' % (what, it.full, '%d' % bits if k == 'd' else 'a conversion of another type'))
                if it.cls == 'g' and (k != 'g' or bits < 64):
                    bad('agree', '%s loses precision when it is restored' % what)
                c.count('attributes restored')
            for n, want in sorted(cons.items()):
                t = made[0][2][n]
                if isinstance(want, tuple):
                    t0 = uncast(t)
                    e = next((e for e in ev if e[0] == 'call' and e[1] == 'g_hash_table_lookup' and e[3] is t0), None)
                    if e is None:
                        bad('agree', 'a reference of a %s record is not looked up' % kind)
                        continue
                    tab = unload(e[2][0]) or e[2][0]
                    if want[0] in tables and tab is not tables[want[0]]:
                        bad('agree', 'a reference of a %s record is looked up in the wrong table' % kind)
                    check(e[2][1], want[1], 'a reference of a %s record' % kind)
                else:
                    check(t, want, '%s of %s' % (want if not want.startswith('arg') else ('the number', '', 'the count', 'the number of the parent')[int(want[3])], 'a %s record' % kind))
            if kind in ('MAP', 'EXE'):
                ins = [e for e in ev if e[0] == 'call' and e[1] in ('g_hash_table_insert', 'g_hash_table_replace') and uncast(e[2][2]) is obj]
                if len(ins) != 1:
                    return bad('restored', 'a %s record is entered %d times under its identity' % (kind, len(ins)))
                tables[kind] = unload(ins[0][2][0]) or ins[0][2][0]
                check(ins[0][2][1], kind.lower() + '.seq', 'the identity of a %s record' % kind)
            last = {}
            for e in ev:
                if e[0] == 'store':
                    n, b = place(e[3])
                    last[full(n), b] = e[2]
            for n, want in sorted(stores.items()):
                vs = [x for (a, b), x in last.items() if a == n and (obj is None or b is obj)]
                if not vs:
                    bad('restored', '%s is not restored from a %s record' % (n, kind))
                    continue
                check(vs[0], want, n)
            for (n, b), x in last.items():
                if b is obj and n not in stores and (n in cons.values()):
                    bad('restored', '%s is overwritten after it was restored' % n)
        return do
    order = ['PRELOAD', 'MAP', 'EXE', 'EXEMAP', 'MARKOV', 'VOMMNODE']
    for kind in order:
        if kind not in c.kinds:
            raise Broken('no %s record' % kind)
        rec = c.kinds[kind][0][1]
        ls = [head] if kind == 'PRELOAD' else [head, rec]
        u = unfold(fn, 1, 200000, loopk={h: 3 for h in heads})
        n0 = len(c.viols)
        c.sim(u, Reader(ls, judge(kind)), cap=60000, depth=60)
        if not done.get(kind) and len(c.viols) == n0:
            c.bad('agree', 'preload_state_read_file', 'a %s record as it is written is never accepted' % kind)
    if 'MAP' in tables and tables.get('MAP') is tables.get('EXE'):
        c.bad('agree', 'preload_state_read_file', 'maps and programs share one table of identities')
    c.ok('every record kind: what is written is what is restored')


def others(c):
    # constructors keep what they are given
    def keeps(root, want, text):
        class K(Trace):
            def ret(self, S, i, v):
                if v is None or S.isnull(v):
                    return
                c.count('constructions')
                for f, n in want.items():
                    t = S.mem.get(mk('fld', v, f))
                    a = mk('arg', n, self.sim.fn.args[n][0])
                    if t is not None and t.k == 'c' and t.a[1] in ('g_strdup', 'strdup', 'g_strndup'):
                        t = t.a[2]
                    if t is None or uncast(t) is not a:
                        self.bad(S, i, 'construct', '%s is not set to what %s was given' % (tag(f), text))
        c.sim(unfold(c.flat(root), 1), K(stores={tag(f) for f in want}), [('F', f) for f in want], cap=20000, depth=60)
    keeps('mapnew', {'_preload_map_t.path': 0, '_preload_map_t.offset': 1, '_preload_map_t.length': 2}, 'preload_map_new')
    keeps('exenew', {'_preload_exe_t.path': 0}, 'preload_exe_new')
    keeps('emnew', {'_preload_exemap_t.map': 1}, 'preload_exemap_new_from_exe')
    c.need('constructions', 3)
    c.ok('constructors keep what they are given')
    # identities
    for f, what in (('_preload_map_t.seq', 'map'), ('_preload_exe_t.seq', 'program')):
        n0 = c.counts.get('identities drawn', 0)

        class N(Trace):
            def store(self, S, i, loc, v):
                if loc.k == 'fld' and loc.a[1] == f:
                    self.add(S, ('seq', v))
                elif v.k == 'op' and v.a[0] == 'add':
                    self.add(S, ('cnt', loc, v))

            def ret(self, S, i, v):
                for e in S.auto:
                    if e[0] != 'seq' or e[1] is ZERO:
                        continue
                    c.count('identities drawn')
                    up = lambda t, l: t.k == 'op' and t.a[0] == 'add' and any(unload(p) is l and q.k == 'i' and q.a[0] > 0 for p, q in ((t.a[1], t.a[2]), (t.a[2], t.a[1])))
                    if not any(g[0] == 'cnt' and up(g[2], g[1]) and (e[1] is g[2] or unload(e[1]) is g[1]) for g in S.auto):
                        self.bad(S, i, 'identity', 'the identity of a %s is not drawn from a counter that goes up' % what)
        for g in c.prog.fns.values():
            if any(i.op == 'fld' and c.prog.field(*i.x) == f and any(j.op == 'store' and ['v', i.id] in j.ops for j in g.instrs()) for i in g.instrs()):
                c.sim(unfold(g, 1, 100000), N(), cap=20000, depth=60)
        if c.counts.get('identities drawn', 0) == n0:
            c.bad('identity', 'preload_state', 'no %s is given an identity' % what)
    c.ok('identities go up')
    # the tree
    rec = [f for f in c.prog.fns.values() if any(True for _ in f.calls(f.name)) and f.name in c.prog.reachable(['vomm_export_state'])]
    if len(rec) == 1:
        export(c, rec[0])
    imported(c)


def export(c, f):
    c.load(JOBS + ['rec %s' % f.name])
    fl = c.flat('rec')
    A = [mk('arg', n, a[0]) for n, a in enumerate(fl.args)]

    def judge(cl, S, i, v):
        ev = S.auto
        bad = lambda r, m: cl.bad(S, i, r, m)
        wr = [e for e in ev if e[0] == 'call' and e[1] != f.name]
        rc = [e for e in ev if e[0] == 'call' and e[1] == f.name]
        me = next((a for a in A if any(isload(t, 'vomm_node.children', a) or isload(t, 'vomm_node_t.children', a) for e in ev for t in terms(e)) or
                   any(isload(e[2][1], x, unload(e[2][1]).a[0]) for e in wr for x in ()) ), None)
        walks = hashwalks(ev)
        ch = [w for w in walks if unload(w[0]) is not None and unload(w[0]).k == 'fld' and unload(w[0]).a[1].endswith('.children')]
        node = A[0]
        if S.isnull(node):
            return
        c.count('tree exports judged')
        if not ch or not ch[0][2]:
            if not any(unload(t) is not None and unload(t).k == 'fld' and unload(t).a[1].endswith('.children') and S.isnull(t) for t in S.facts):
                return bad('tree', 'the children of a tree node are not all exported')
            ch = []
        if ch and unload(ch[0][0]).a[0] is not node:
            return bad('tree', 'the children of another node are exported')
        isroot = None
        for t in S.facts:
            if t.k == 'cmp' and t.a[0] == 'eq' and node in (t.a[1], t.a[2]):
                o = t.a[2] if t.a[1] is node else t.a[1]
                if unload(o) is not None and unload(o).k == 'fld' and unload(o).a[1].endswith('.root'):
                    isroot = S.truth(t)
        if isroot is None:
            return
        if isroot:
            if wr:
                bad('tree', 'the root of the tree is written as a node')
            num = ZERO
        else:
            noexe = any(unload(t) is not None and unload(t).k == 'fld' and unload(t).a[1].endswith('.exe') and unload(t).a[0] is node and S.isnull(t) for t in S.facts)
            if noexe and not wr:
                return
            if len(wr) != 1:
                return bad('tree', 'a tree node is written %d times' % len(wr))
            num, seq, cnt, par = [wr[0][2][k] for k in range(4)]
            c.count('nodes judged')
            base = num
            if not (base.k == 'op' and base.a[0] == 'add' and base.a[2].k == 'i' and base.a[2].a[0] > 0 and unload(base.a[1]) is not None or base.k == 'op' and base.a[0] == 'add' and base.a[1].k == 'i' and base.a[1].a[0] > 0 and unload(base.a[2]) is not None):
                bad('tree', 'a tree node is not numbered by a counter that goes up')
            else:
                l = unload(base.a[1]) or unload(base.a[2])
                if not any(e[0] == 'cnt' and e[1] is l and e[2] is num for e in ev) and S.mem.get(l) is not num and not any(e[0] == 'cnt' and e[2] is num for e in ev):
                    bad('tree', 'the number of a tree node is not used up')
            if not (isload(seq, 'exe.seq') and unload(unload(seq).a[0]) is not None and unload(unload(seq).a[0]).a[0] is node):
                bad('tree', 'a tree node is not written with its program')
            if not (unload(cnt) is not None and unload(cnt).k == 'fld' and unload(cnt).a[1].endswith('.count') and unload(cnt).a[0] is node):
                bad('tree', 'a tree node is not written with its count')
            if uncast(par).k != 'arg' or attr(par)[2]:
                bad('tree', 'a tree node is not written with the number of its parent')
            else:
                pn = uncast(par).a[0]
                c.parent = pn
        if ch:
            kids = ch[0][1]
            for key, kid in kids:
                n = [e for e in rc if e[2][0] is kid]
                if len(n) != 1:
                    bad('tree', 'a child of a tree node is exported %d times' % len(n))
                    continue
                if wr and ev.index(n[0]) < ev.index(wr[0]):
                    bad('tree', 'a child is written before its parent')
                if hasattr(c, 'parent') and n[0][2][c.parent] is not num:
                    bad('tree', 'a child is exported under another number than that of its parent')

    def terms(e):
        for x in e[1:]:
            if isinstance(x, Term):
                yield x

    class X(Writer):
        def store(self, S, i, loc, v):
            if v.k == 'op' and v.a[0] == 'add':
                self.add(S, ('cnt', loc, v))
            Writer.store(self, S, i, loc, v)

        def call(self, S, i, name, args, ret, label):
            Walk.call(self, S, i, name, args, ret, label)
            if name == f.name or name is None or name not in c.prog.fns and name not in api.WRITES and name not in api.PURE and len(args) >= 4 and not name.startswith('g_'):
                self.add(S, ('call', name, tuple(args), ret, ()))
    for _ in range(2):
        c.sim(unfold(fl, 2), X(judge), cap=20000, depth=60)
    c.need('tree exports judged')
    c.need('nodes judged')
    c.ok('tree export: own number, program, count and number of the parent; every child')


def imported(c):
    fl = c.flat('import')
    A = [mk('arg', n, a[0]) for n, a in enumerate(fl.args)]

    class M(Trace):
        def ret(self, S, i, v):
            ev = S.auto
            ins = [e for e in ev if e[0] == 'call']
            kid = [e for e in ins if unload(e[2][0]) is not None and unload(e[2][0]).k == 'fld' and unload(e[2][0]).a[1].endswith('.children')]
            if not kid:
                return
            c.count('nodes restored')
            node = kid[0][2][2]
            par = unload(kid[0][2][0]).a[0]
            reg = [e for e in ins if e[2][2] is node and e is not kid[0]]
            st = {e[1].split('.')[-1]: e[2] for e in ev if e[0] == 'store' and e[3].a[0] is node}
            if uncast(st.get('count', ZERO)) is not A[2]:
                self.bad(S, i, 'tree', 'the count of a tree node is not restored')
            if uncast(st.get('exe', ZERO)) is not A[1]:
                self.bad(S, i, 'tree', 'the program of a tree node is not restored')
            key = lambda t: uncast(t)
            if not reg or key(reg[0][2][1]) is not A[0]:
                self.bad(S, i, 'tree', 'a restored tree node is not entered under its number')
            p = uncast(par)
            if not (p.k == 'c' and p.a[1] == 'g_hash_table_lookup' and key(p.a[3]) is A[3]):
                self.bad(S, i, 'tree', 'a restored tree node is not put under the node its record names')
            elif reg and (unload(p.a[2]) or p.a[2]) is not (unload(reg[0][2][0]) or reg[0][2][0]) and not same(p.a[2], reg[0][2][0]):
                self.bad(S, i, 'tree', 'the parent of a restored tree node is looked up elsewhere')
    fields = {tag(s + '.' + f[0]) if isinstance(f, (list, tuple)) and isinstance(f[0], str) else '' for s in () for f in ()}
    m = M(calls={'g_hash_table_insert', 'g_hash_table_replace'}, stores={'vomm_node.count', 'vomm_node.exe', 'vomm_node_t.count', 'vomm_node_t.exe', '_vomm_node_t.count', '_vomm_node_t.exe'})
    c.sim(unfold(fl, 2), m, cap=20000, depth=60)
    c.need('nodes restored')
    c.ok('tree import: number, parent, count and program stored back')
