"""Program representation: functions as SSA over basic blocks, interned value terms, struct layouts, loops, dominators."""
import re
from functools import lru_cache


class Term(object):
    """Interned (hash-consed) value term; equality is identity."""
    __slots__ = ('k', 'a', 'atoms', 'depth', 'n')
    table = {}

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


NONE = frozenset()


def mk(k, *a):
    key = (k,) + a
    t = Term.table.get(key)
    if t is None:
        t = Term()
        t.k, t.a = k, a
        at = set()
        d = 0
        for x in a:
            if isinstance(x, Term):
                at |= x.atoms
                d = max(d, x.depth)
        if k in ('ld', 'c', 'o', 'old', 'A', 'out', 'arg'):
            at.add((k, a[0]))
        if k == 'sl':
            at = {a for a in at if a[0] == 'A'}
            at.add(('sl', a[0]))
        t.atoms = frozenset(at) if at else NONE
        t.depth = d + 1
        t.n = len(Term.table)
        Term.table[key] = t
    return t


def I(n):
    return mk('i', int(n))


ZERO = I(0)


def is_const(t):
    return t.k in ('i', 's', 'fn', 'f', 'g')


FRESH = ('g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'malloc', 'calloc', 'g_strdup', 'g_strdup_printf', 'g_strconcat',
         'g_slice_alloc', 'g_slice_alloc0', 'g_memdup', 'g_memdup2')


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 9:
        return '..'
    s = lambda x: show(x, d + 1)
    k, a = t.k, t.a
    if k == 'i':
        return str(a[0])
    if k == 's':
        return '"%s"' % a[0].replace('\n', '\\n')
    if k in ('g', 'fn'):
        return a[0]
    if k == 'arg':
        return a[1] or 'arg%d' % a[0]
    if k == 'A':
        return '&' + (a[1] or 'local%d' % a[0])
    if k == 'fld':
        return '%s->%s' % (s(a[0]), a[1].split('.')[-1])
    if k == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if k in ('ld', 'old'):
        return '*(%s)' % s(a[1]) if a[1].k not in ('fld', 'idx') else s(a[1]) + ("'" if k == 'old' else '')
    if k == 'c':
        return '%s(%s)' % (a[1], ','.join(s(x) for x in a[2:])) if len(a) > 2 else a[1] + '()'
    if k == 'out':
        return 'out:%s' % (a[1],)
    if k == 'sl':
        return s(a[0]) + '~'
    if k == 'o':
        return 'v%s' % (a[0],)
    if k == 'op':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if k == 'cmp':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    return '%s(%s)' % (k, ', '.join(s(x) for x in a))


class Instr(object):
    __slots__ = ('id', 'op', 'ty', 'ops', 'x', 'loc', 'b', 'i', 'fn')

    def where(self):
        for f, file, line in self.loc or ():
            if file and not file.endswith('models.c') and '/glib' not in file:
                return '%s:%d (%s)' % (re.sub(r'^src/', '', file), line, f)
        return self.fn.name

    def srcfn(self):
        for f, file, line in self.loc or ():
            if file and not file.endswith('models.c'):
                return f
        return self.fn.name

    def callee(self):
        if self.op != 'call':
            return None
        if self.x[0] == 'fn':
            return self.x[1]
        return None

    def __repr__(self):
        return '<%d %s %s @%s>' % (self.id, self.op, self.x if self.op == 'call' else '', self.where())


class Fn(object):
    def __init__(self, d, prog):
        self.prog = prog
        self.name, self.file, self.line, self.internal = d['name'], d['file'], d['line'], d['internal']
        self.args, self.ret = d['args'], d['ret']
        self.blocks = []
        self.ins = {}
        for bi, b in enumerate(d['blocks']):
            out = []
            for i, r in enumerate(b):
                n = Instr()
                n.id, n.op, n.ty, n.ops, n.x, n.loc = r
                n.b, n.i, n.fn = bi, i, self
                out.append(n)
                self.ins[n.id] = n
            self.blocks.append(out)
        self.succ = [self._succ(b) for b in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for s in ss:
                if b not in self.pred[s]:
                    self.pred[s].append(b)

    def _succ(self, b):
        t = b[-1]
        if t.op == 'br':
            return list(dict.fromkeys(t.x))
        if t.op == 'switch':
            return list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
        return []

    def __repr__(self):
        return 'Fn(%s)' % self.name

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self, *names):
        for i in self.instrs():
            if i.op == 'call':
                c = i.callee()
                if not names or c in names:
                    yield i

    # -- reachability -----------------------------------------------------
    def reach_from(self, b, avoid=()):
        seen, w = set(), [b]
        while w:
            x = w.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            w.extend(self.succ[x])
        return seen

    def rpo(self):
        if not hasattr(self, '_rpo'):
            seen, out = set(), []
            st = [(0, iter(self.succ[0]))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    out.append(b)
                    st.pop()
            self._rpo = out[::-1]
        return self._rpo

    def doms(self):
        if not hasattr(self, '_dom'):
            r = self.rpo()
            allb = set(r)
            dom = {b: allb for b in r}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in r[1:]:
                    ps = [dom[p] for p in self.pred[b] if p in allb]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._dom = dom
        return self._dom

    def dominates(self, x, y):
        """instruction x dominates instruction y"""
        if x.b == y.b:
            return x.i < y.i
        return x.b in self.doms().get(y.b, ())

    def loops(self):
        """natural loops: list of (header, frozenset(blocks), latches)"""
        if not hasattr(self, '_loops'):
            dom = self.doms()
            hs = {}
            for b in self.rpo():
                for s in self.succ[b]:
                    if s in dom[b]:
                        hs.setdefault(s, []).append(b)
            out = []
            for h, ls in hs.items():
                body, w = {h}, list(ls)
                while w:
                    x = w.pop()
                    if x in body:
                        continue
                    body.add(x)
                    w.extend(p for p in self.pred[x] if p in dom)
                out.append((h, frozenset(body), ls))
            out.sort(key=lambda l: len(l[1]))
            self._loops = out
        return self._loops

    def back_edges(self):
        if not hasattr(self, '_be'):
            self._be = {(l, h) for h, _, ls in self.loops() for l in ls}
        return self._be

    # -- liveness -----------------------------------------------------------
    def livein(self):
        if hasattr(self, '_live'):
            return self._live
        n = len(self.blocks)
        use, dfn, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
        for b, ins in enumerate(self.blocks):
            for i in ins:
                if i.op == 'phi':
                    for o, p in zip(i.ops, i.x):
                        if o[0] == 'v':
                            phiuse[p].add(o[1])
                    dfn[b].add(i.id)
                    continue
                for o in i.ops:
                    if o[0] == 'v' and o[1] not in dfn[b]:
                        use[b].add(o[1])
                if i.op == 'call' and i.x[0] == 'v' and i.x[1] not in dfn[b]:
                    use[b].add(i.x[1])
                dfn[b].add(i.id)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo()):
                o = set(phiuse[b])
                for s in self.succ[b]:
                    o |= live[s]
                x = use[b] | (o - dfn[b])
                if x != live[b]:
                    live[b] = x
                    ch = True
        # values of phis are bound on entry to their block
        for b, ins in enumerate(self.blocks):
            for i in ins:
                if i.op == 'phi':
                    live[b] = live[b] | {i.id}
        self._live = live
        return live


class Prog(object):
    def __init__(self, db, srcs):
        self.srcs = srcs
        self.structs, self.di, self.globals = {}, db['di'], db['globals']
        for n, s in db['structs'].items():
            self.structs.setdefault(n, s)
        self.decls = set(db['decls'])
        self.fns = {d['name']: Fn(d, self) for d in db['functions'] if not d['file'].endswith('models.c')}
        self.flat = {d['name']: Fn(d, self) for d in db['flat']}
        self._fld = {}

    def field(self, sname, idx):
        """LLVM struct name + index -> 'struct_tag.member'"""
        k = (sname, idx)
        r = self._fld.get(k)
        if r:
            return r
        tag = sname.split('.', 1)[1] if '.' in sname else sname
        off = None
        s = self.structs.get(sname)
        if s:
            off = s['f'][idx][0]
        d = self.di.get(tag)
        r = None
        if d and off is not None:
            for m in d['m']:
                if m[1] == off:
                    r = '%s.%s' % (tag, m[0])
                    break
        if not r:
            r = '%s.#%d' % (tag, idx)
        self._fld[k] = r
        return r

    def sizeof(self, ty):
        if isinstance(ty, list) and ty and ty[0] == 'arr':
            n = self.sizeof(ty[2])
            return None if n is None else n * ty[1]
        if ty == 'p' or ty == 'f64':
            return 8
        if isinstance(ty, str) and ty[:1] == 'i' and ty[1:].isdigit():
            return max(1, int(ty[1:]) // 8)
        if isinstance(ty, str) and ty in self.structs:
            f = self.structs[ty]['f']
            if not f:
                return 0
            n = self.sizeof(f[-1][1])
            return None if n is None else (f[-1][0] + n + self.align(ty) - 1) // self.align(ty) * self.align(ty)
        return None

    def align(self, ty):
        if isinstance(ty, list) and ty and ty[0] == 'arr':
            return self.align(ty[2])
        if isinstance(ty, str) and ty in self.structs:
            return max([1] + [self.align(t) for _, t in self.structs[ty]['f']])
        return self.sizeof(ty) or 8

    def sized(self, n):
        """structures of that size"""
        if not hasattr(self, '_sized'):
            self._sized = {}
            for s in self.structs:
                self._sized.setdefault(self.sizeof(s), []).append(s)
        return self._sized.get(n, ())

    def field_type(self, name):
        if not hasattr(self, '_ft'):
            self._ft = {}
            for s, d in self.structs.items():
                for n, (_, ty) in enumerate(d['f']):
                    self._ft.setdefault(self.field(s, n), ty)
        return self._ft.get(name)

    def leaf_field(self, name):
        ty = self.field_type(name)
        while isinstance(ty, list) and ty[0] == 'arr':
            ty = ty[2]
        if isinstance(ty, str) and ty in self.structs:
            return self.leaf_field(self.field(ty, 0))
        return name

    def first_leaf(self, t, ty):
        """descend to the first scalar of an aggregate type, extending location t"""
        while True:
            if isinstance(ty, list) and ty[0] == 'arr':
                ty = ty[2]
                if isinstance(ty, list):
                    t = mk('idx', t, ZERO)
            elif isinstance(ty, str) and ty in self.structs:
                f = self.field(ty, 0)
                t = mk('fld', t, f)
                ty = self.structs[ty]['f'][0][1]
            else:
                return t, ty

    def user_fns(self):
        return self.fns

    # call graph over the un-flattened program: direct calls + address-taken functions passed to externals
    def callgraph(self):
        if hasattr(self, '_cg'):
            return self._cg
        cg = {}
        for f in self.fns.values():
            s = set()
            for i in f.instrs():
                for o in list(i.ops) + ([i.x] if i.op == 'call' else []):
                    if isinstance(o, list) and o and o[0] == 'fn':
                        s.add(o[1])
            cg[f.name] = s
        # functions stored in globals
        self._cg = cg
        return cg

    def reachable(self, roots):
        cg = self.callgraph()
        seen, w = set(), list(roots)
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            w.extend(cg.get(x, ()))
        return seen
