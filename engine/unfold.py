"""Acyclic unfolding of a flattened function: every loop body is copied up to K times, further iterations are cut."""
from ir import Fn, Instr


class UFn(Fn):
    def __init__(self, fn, blocks):
        self.prog, self.name, self.file, self.line, self.internal, self.args, self.ret = fn.prog, fn.name, fn.file, fn.line, fn.internal, fn.args, fn.ret
        self.blocks, self.ins = blocks, {}
        for b, ins in enumerate(blocks):
            for n, i in enumerate(ins):
                i.b, i.i, i.fn = b, n, self
                self.ins[i.id] = i
        self.succ = [self._succ(b) for b in blocks]
        self.pred = [[] for _ in blocks]
        for b, ss in enumerate(self.succ):
            for s in ss:
                if b not in self.pred[s]:
                    self.pred[s].append(b)


def unfold(fn, K=3, maxblocks=20000, only=None, loopk=None):
    """only: blocks to copy (edges into others are cut); loopk: {header: K} for loops with a bound of their own"""
    loopk = loopk or {}
    heads = {}
    for h, body, _ in fn.loops():
        heads[h] = heads.get(h, frozenset()) | body
    be = fn.back_edges()

    def nextkey(k, frm, to):
        if only is not None and to not in only:
            return None
        d = dict(k)
        if to in heads:
            if (frm, to) in be:
                d[to] = d.get(to, 0) + 1
                if d[to] > loopk.get(to, K):
                    return None
            else:
                d[to] = 0
            # inner loops of a new iteration start afresh
            for h in list(d):
                if h != to and h in heads[to]:
                    del d[h]
        return tuple(sorted(d.items()))
    # discover nodes in topological order
    order, index, state = [], {}, {}
    start = (0, nextkey((), None, 0) if 0 in heads else ())
    st = [(start, 0)]
    post = []
    seen = {start}
    stack = [(start, iter(fn.succ[0]))]
    while stack:
        n, it = stack[-1]
        for s in it:
            k = nextkey(n[1], n[0], s)
            if k is None:
                continue
            m = (s, k)
            if m not in seen:
                seen.add(m)
                if len(seen) > maxblocks:
                    raise ValueError('unfolding too large')
                stack.append((m, iter(fn.succ[s])))
                break
        else:
            post.append(n)
            stack.pop()
    order = post[::-1]
    index = {n: i for i, n in enumerate(order)}
    ncut = len(order)
    blocks = [[] for _ in range(ncut + 1)]
    preds = {n: [] for n in order}
    for n in order:
        for s in fn.succ[n[0]]:
            k = nextkey(n[1], n[0], s)
            if k is not None:
                preds[(s, k)].append(n)
    env = {}
    nid = [1]
    origin = {}

    def copy(i):
        c = Instr()
        c.id, c.op, c.ty, c.loc = nid[0], i.op, i.ty, i.loc
        nid[0] += 1
        origin[c.id] = i.id
        return c
    for n in order:
        ps = preds[n]
        e = dict(env[ps[0]]) if ps else {}
        for p in ps[1:]:
            q = env[p]
            for v in list(e):
                if q.get(v) != e[v]:
                    del e[v]
        for i in fn.blocks[n[0]]:
            c = copy(i)
            e2 = e

            def m(o):
                if isinstance(o, list) and o and o[0] == 'v':
                    return ['v', e2[o[1]]] if o[1] in e2 else ['u']
                return o
            if i.op == 'phi':
                ops, xs = [], []
                for o, pb in zip(i.ops, i.x):
                    for p in ps:
                        if p[0] == pb:
                            if o[0] == 'v':
                                ops.append(['v', env[p][o[1]]] if o[1] in env[p] else ['u'])
                            else:
                                ops.append(o)
                            xs.append(index[p])
                c.ops, c.x = ops, xs
                blocks[index[n]].append(c)
                e = dict(e)
                e['phi', i.id] = c.id
                continue
            # bind phis of this block now that all of them were mapped
            for k in [k for k in e if isinstance(k, tuple)]:
                e[k[1]] = e.pop(k)
            e2 = e
            c.ops = [m(o) for o in i.ops]
            c.x = i.x
            if i.op == 'call' and i.x[0] == 'v':
                c.x = m(i.x)
            if i.op == 'br':
                def tgt(s):
                    k = nextkey(n[1], n[0], s)
                    return ncut if k is None else index[(s, k)]
                c.x = [tgt(s) for s in i.x]
            elif i.op == 'switch':
                def tgt(s):
                    k = nextkey(n[1], n[0], s)
                    return ncut if k is None else index[(s, k)]
                c.x = [tgt(i.x[0]), [[cv, tgt(s)] for cv, s in i.x[1]]]
            e = dict(e) if i.ty != 'v' else e
            e[i.id] = c.id
            blocks[index[n]].append(c)
        env[n] = e
    cut = Instr()
    cut.id, cut.op, cut.ty, cut.ops, cut.x, cut.loc = nid[0], 'cut', 'v', [], None, None
    blocks[ncut] = [cut]
    u = UFn(fn, blocks)
    u.origin = origin
    u.keys = order
    return u
