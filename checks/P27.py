"""Constant/term propagation through preload_conf_load, one setting at a time: with exactly one documented key present, with exactly one
missing, with all present and with all missing, the value finally stored in each member of the configuration is compared, as a term, with the
value read under the documented group and key times the documented unit, or with the documented default (oracle: the shipped configuration
file).  Each documented key must be read once, with the documented type, and nothing else may be read.  The dump is turned into the sequence of
literals and values it prints, per path, and each setting's value must follow its own name under its own group."""
from confload import *
from unfold import unfold
from sim import static_key

JOBS = ['load preload_conf_load', 'dump preload_conf_dump_log']


def default(kind, text):
    if kind == 'boolean':
        return I(int(text == 'true'))
    if kind == 'integer':
        return I(int(text))
    return None


def run(c):
    doc = documented()
    lk = livekeys(c.prog)
    for g in sorted(doc):
        if 'struct._conf_' + g[0] not in c.prog.structs or not any(c.prog.field('struct._conf_' + g[0], n).endswith('.' + g[1]) for n in range(len(c.prog.structs['struct._conf_' + g[0]]['f']))):
            c.bad('setting', 'preload_conf_load', 'there is no setting for the documented key %s.%s' % g)

    def scen(label, outcome, conffile='file'):
        n = [0]

        def done(cl, S, i):
            n[0] += 1
            own, freed, gets, logs = S.auto
            fin = final(S)
            seen = {}
            for grp, key, name, ret, want in gets:
                if (grp, key) not in doc:
                    cl.bad(S, i, 'undocumented', '%s.%s is read but not documented' % (grp, key))
                    continue
                if (grp, key) in seen:
                    cl.bad(S, i, 'once', '%s.%s is read twice' % (grp, key))
                seen[(grp, key)] = (name, ret, want)
            for g, (kind, text, unit) in sorted(doc.items()):
                v = fin.get(g)
                if conffile == 'file':
                    if g not in seen:
                        cl.bad(S, i, 'read', 'the documented key %s.%s is never read' % g)
                        continue
                    k, ret, want = seen[g]
                    if k != kind:
                        cl.bad(S, i, 'type', '%s.%s is documented as %s but read as %s' % (g + (kind, k)))
                    c.count('documented keys followed')
                    if want == 'ok':
                        if v is None or not times(S, v, ret, UNITS[unit]):
                            cl.bad(S, i, 'value', '%s.%s becomes %s instead of what is read under its name' % (g + ('nothing' if v is None else show(v),)))
                        continue
                else:
                    c.count('defaults followed')
                if v is None:
                    cl.bad(S, i, 'default', '%s.%s is not set' % g)
                elif kind == 'string':
                    t = uncast(v)
                    if not (t.k == 'c' and t.a[1] in ('g_strdup', 'g_strndup') and t.a[2].k == 's' and t.a[2].a[0] == text.strip('"')):
                        cl.bad(S, i, 'default', 'the default of %s.%s is %s instead of %s' % (g + (show(v), text)))
                elif kind == 'string_list':
                    if v is not ZERO:
                        cl.bad(S, i, 'default', 'the default of %s.%s is %s instead of empty' % (g + (show(v),)))
                elif not times(S, v, default(kind, text), UNITS[unit]):
                    cl.bad(S, i, 'default', 'the default of %s.%s is %s instead of %s' % (g + (show(v), text)))
        c.sim('load', Load(outcome, 'ok', done), lk, state=start(1, conffile), cap=20000, depth=60)
        if not n[0]:
            c.bad('value', 'preload_conf_load', 'loading never succeeds when ' + label)
        c.count('outcomes of a load analysed')

    scen('there is no configuration file', lambda g, k, t: 'ok', 'none')
    scen('every key is present', lambda g, k, t: 'ok')
    scen('every key is missing', lambda g, k, t: 'missing')
    for K in sorted(doc):
        scen('only %s.%s is present' % K, lambda g, k, t, K=K: 'ok' if (g, k) == K else 'missing')
        scen('only %s.%s is missing' % K, lambda g, k, t, K=K: 'missing' if (g, k) == K else 'ok')
    c.need('documented keys followed', 100)
    c.ok('preload_conf_load: every documented key and default')
    used(c, doc)
    dump(c, doc)


def used(c, doc):
    """every setting is consulted by some function of the daemon that neither loads nor dumps settings"""
    own = c.prog.reachable(['preload_conf_load']) | c.prog.reachable(['preload_conf_dump_log'])
    names = set()
    for f in c.prog.fns.values():
        if f.name in own:
            continue
        for i in f.instrs():
            if i.op == 'load':
                k = static_key(c.prog, f, i.ops[0])
                if k[0] == 'F':
                    names.add(k[1])
            if i.op == 'fld' and i.x[0].startswith('struct._conf_'):
                names.add(c.prog.field(*i.x))
            for o in i.ops:
                # members addressed by a constant expression
                t = cexpr(c.prog, o)
                if t:
                    names.add(t)
    for g in sorted(doc):
        if '_conf_%s.%s' % g not in names:
            c.bad('used', 'preload_conf_load', 'nothing in the daemon consults %s.%s' % g)
        c.count('settings consulted')
    c.ok('every setting is consulted')


def cexpr(prog, o):
    if not (isinstance(o, list) and o and o[0] == 'cg' and o[2][0] == 'g' and o[2][1] == 'conf'):
        return None
    ty = o[1]
    t = None
    if ty == 'i8' and len(o) == 4:
        off = o[3][1]
        ty = prog.globals['conf']['ty']
        while True:
            if isinstance(ty, list) and ty[0] == 'arr':
                ty = ty[2]
            elif isinstance(ty, str) and ty in prog.structs:
                n = max(n for n, (b, _) in enumerate(prog.structs[ty]['f']) if b <= off)
                b, fty = prog.structs[ty]['f'][n]
                t, ty, off = prog.field(ty, n), fty, off - b
            else:
                return t
    for x in o[4:]:
        if isinstance(ty, list) and ty[0] == 'arr':
            ty = ty[2]
        elif isinstance(ty, str) and ty in prog.structs and x[0] == 'i':
            t = prog.field(ty, x[1])
            ty = prog.structs[ty]['f'][x[1]][1]
    return t


def times(S, v, r, n):
    v, r = v, uncast(r)
    if r.k == 'i':
        lo, hi, ne = S.rng(v)
        return lo == hi == r.a[0] * n
    if uncast(v) is r:
        return n == 1
    try:
        return all(evali(v, lambda t: x if t is r else None) == x * n for x in (-7, -1, 0, 1, 2, 13, 100))
    except (ValueError, KeyError):
        return False


PRINT = {'fprintf': (0, 1, 2), '__fprintf_chk': (0, 2, 3)}


class Dump(Client):
    """auto: tuple of pieces printed: strings and (conversion, term)"""

    def init(self):
        return ()

    def keep_atoms(self, S):
        a = {a for f in S.facts for a in f.atoms}
        for p in S.auto:
            if not isinstance(p, str):
                a |= p[1].atoms
        return a

    def put(self, S, p):
        if isinstance(p, str) and S.auto and isinstance(S.auto[-1], str):
            S.auto = S.auto[:-1] + (S.auto[-1] + p,)
        elif p != '':
            S.auto = S.auto + (p,)

    def call(self, S, i, name, args, ret, label):
        if name in PRINT:
            f, m, r = PRINT[name]
            if args[m].k != 's':
                raise Broken('format of %s is not constant' % i.where())
            rest = list(args[r:])
            for w in re.split(r'(%(?:%|[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z]))', args[m].a[0]):
                if w == '%%':
                    self.put(S, '%')
                elif w.startswith('%') and len(w) > 1:
                    if not rest:
                        self.bad(S, i, 'dump', 'a conversion has no value')
                        return
                    self.value(S, w, rest.pop(0))
                else:
                    self.put(S, w)
        elif name == 'fputs':
            self.value(S, '%s', args[0])
        elif name in ('fputc', 'putc', '_IO_putc', 'putc_unlocked', 'fputc_unlocked'):
            if args[0].k != 'i':
                raise Broken('character written is not constant')
            self.put(S, chr(args[0].a[0]))
        elif name == 'fwrite':
            if args[0].k != 's':
                raise Broken('fwrite of a value')
            self.put(S, args[0].a[0])
        elif name in ('printf', 'puts', 'vfprintf', 'g_printerr', 'g_print', 'dprintf', 'write'):
            raise Broken('%s in the dump is not modelled' % name)

    def value(self, S, w, t):
        if t.k == 's' and w == '%s':
            self.put(S, t.a[0])
        elif t.k == 'i':
            self.put(S, str(t.a[0]))
        else:
            self.put(S, (w, t))
            if t.k == 'c' and t.a[1] in ('ctime', 'asctime'):
                self.put(S, '\n')

    def ret(self, S, i, v):
        self.judge(self, S, i)


def element(t):
    """(location of the list, position) when t is an element of a string vector"""
    l = unload(t)
    n = 0
    while l is not None and l.k == 'idx' and l.a[1].k == 'i':
        n, l = n + l.a[1].a[0], l.a[0]
    l = unload(l) if l is not None else None
    return (l, n) if l is not None else None


def dump(c, doc):
    U = unfold(c.flat('dump'), 2)
    seen = [0]

    def judge(cl, S, i):
        seen[0] += 1
        c.count('paths of the dump')
        grp, done, bad = None, [], lambda m: cl.bad(S, i, 'dump', m)
        lines, cur = [], []
        for p in S.auto:
            if isinstance(p, str):
                w = p.split('\n')
                cur.append(w[0])
                for x in w[1:]:
                    lines.append(cur)
                    cur = [x]
            else:
                cur.append(p)
        for l in lines:
            l = [x for x in l if x != '']
            if not l or not isinstance(l[0], str):
                continue
            m = re.match(r'\[(\w+)\]$', l[0])
            if m:
                grp = m.group(1)
                continue
            m = re.match(r'(\w+) *= *(.*)$', l[0])
            if not m or l[0].startswith('#'):
                continue
            g, vals = (grp, m.group(1)), ([m.group(2)] if m.group(2) else []) + l[1:]
            if g not in doc:
                bad('%s is printed under [%s]' % (g[1], g[0]))
                continue
            if g in done:
                bad('%s.%s is printed twice' % g)
            done.append(g)
            kind, text, unit = doc[g]
            fld = lambda t: unload(t) is not None and conffield(unload(t)) == g
            if kind == 'integer':
                n = UNITS[unit]
                ok = len(vals) == 1 and not isinstance(vals[0], str) and vals[0][0][-1] in 'di'
                if ok:
                    leaf = [x for x in subterms(vals[0][1]) if x.k == 'ld']
                    try:
                        ok = bool(leaf) and all(conffield(x.a[1]) == g for x in leaf) and all(evali(vals[0][1], lambda t: x * n if t in leaf else None) == x for x in (-3, 0, 1, 5, 60))
                    except (ValueError, KeyError):
                        ok = n == 1 and fld(vals[0][1])
                if not ok:
                    bad('%s.%s is not printed as its value' % g)
            elif kind == 'boolean':
                v = vals[0] if len(vals) == 1 else None
                if isinstance(v, str):
                    f = [S.isnull(x) for x in S.facts if fld(x)]
                    nn = [S.nonnull(x) for x in S.facts if fld(x)]
                    if not (v == 'true' and any(nn) or v == 'false' and any(f)):
                        bad('%s.%s is printed as %s whatever it is' % (g + (v,)))
                elif v is None or v[1].k != 'sel' or not all(fld(x) for x in subterms(v[1].a[0]) if x.k == 'ld') or not selected(v[1], fld):
                    bad('%s.%s is not printed as its value' % g)
            elif kind == 'string':
                if len(vals) != 1 or isinstance(vals[0], str) or vals[0][0] != '%s' or not fld(vals[0][1]):
                    bad('%s.%s is not printed as its value' % g)
            else:
                n = 0
                flat = []
                for x in vals:
                    if isinstance(x, str):
                        flat.append(x)
                        continue
                    e = element(x[1])
                    if e is None or conffield(e[0]) != g:
                        bad('%s.%s is printed as %s' % (g + (show(x[1]),)))
                        break
                    if e[1] != n:
                        bad('an element of %s.%s is left out or repeated' % g)
                    n += 1
                    flat.append('@')
                last = [t for t, f in S.facts.items() if f[0] == f[1] == 0 and (t.k == 'idx' or (lambda e: e is not None and e[1] == n and conffield(e[0]) == g)(element(t)))]
                if n and not last:
                    bad('the list %s.%s is left before its end' % g)
                if n and not re.match(r'@(;@)*;?$', ''.join(flat)):
                    bad('the elements of %s.%s are not separated' % g)
                c.count('list elements printed', n)
        for g in sorted(doc):
            if g not in done:
                bad('%s.%s is not printed' % g)
    cl = Dump()
    cl.judge = judge
    c.sim(U, cl, livekeys(c.prog), cap=20000, depth=60)
    c.need('paths of the dump', 4)
    c.need('list elements printed', 4)
    c.ok('preload_conf_dump_log: every setting under its own name')


def selected(t, fld):
    """t is field ? "true" : "false" """
    try:
        p, q = t.a[1], t.a[2]
        for x in (0, 1):
            v = evali(t.a[0], lambda y: x if fld(y) or y.k == 'ld' else None)
            r = p if v else q
            if not (r.k == 's' and r.a[0] == ('true' if x else 'false')):
                return False
        return True
    except (ValueError, KeyError):
        return False
