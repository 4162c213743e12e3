"""Common parts of the checks: program access, obligations, violations, evidence."""
import json, os, re, sys, time
import frontend
from frontend import Broken
from ir import Prog, mk, I, ZERO, Term, show, is_const
from sim import Sim, Client, State, root, key_of, cmp_term, not_, op_term
import api

INF = float('inf')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tag(t):
    """'_preload_map_t.path' -> 'map.path'"""
    return re.sub(r'^_?(preload_)?', '', t).replace('_t.', '.')


def fname(t):
    """short field name of a location term, or None"""
    return tag(t.a[1]) if isinstance(t, Term) and t.k == 'fld' else None


def isfld(t, name, base=None):
    return isinstance(t, Term) and t.k == 'fld' and tag(t.a[1]) == name and (base is None or t.a[0] is base)


def isglob(t, name):
    r = t
    return r.k == 'g' and r.a[0] == name


def unload(t):
    """location a loaded value came from (through casts), or None"""
    while t.k == 'cast' or t.k == 'old' and False:
        t = t.a[3]
    if t.k == 'ld':
        return t.a[1]
    if t.k == 'old' and t.a[1].k == 'ld':
        return t.a[1].a[1]
    return None


def uncast(t):
    while t.k == 'cast':
        t = t.a[3]
    return t


def isload(t, name, base=None):
    """t is a value loaded from field name"""
    l = unload(t)
    return l is not None and isfld(l, name, base)


def subterms(t):
    yield t
    for x in t.a:
        if isinstance(x, Term):
            for y in subterms(x):
                yield y


def running_atom(t):
    """the executable term x when t is the comparison 'x was not seen in the last scan', else None"""
    if t.k == 'cmp' and t.a[0] == 'slt' and isload(t.a[1], 'exe.running_timestamp') and isload(t.a[2], 'state.last_running_timestamp'):
        return unload(t.a[1]).a[0]
    return None


def running(S, x):
    """True/False/None: is exe x known to be running on this path?"""
    for f, (lo, hi, ne) in S.facts.items():
        if f.k == 'cmp' and f.a[0] == 'slt' and lo == hi:
            a, b = f.a[1], f.a[2]
            if isload(a, 'exe.running_timestamp', x) and isload(b, 'state.last_running_timestamp'):
                return not lo
            if isload(b, 'exe.running_timestamp', x) and isload(a, 'state.last_running_timestamp'):
                if lo:
                    return True
    return None


def evali(t, f):
    """integer value of a term; f(term) gives the values of atoms (None: not an atom)"""
    v = f(t)
    if v is not None:
        return v
    if t.k == 'i':
        return t.a[0]
    if t.k == 'cast':
        v = evali(t.a[3], f)
        if t.a[0] == 'sext':
            return -v if t.a[1] == 'i1' else v
        n = str(t.a[2] if t.a[0] == 'trunc' else t.a[1])
        if t.a[0] in ('trunc', 'zext') and n[:1] == 'i' and n[1:].isdigit() and isinstance(v, int):
            n = int(n[1:])
            v %= 2 ** n
            if t.a[0] == 'trunc' and n > 1 and v >= 2 ** (n - 1):
                v -= 2 ** n
        return v
    if t.k == 'not':
        return 1 - evali(t.a[0], f)
    if t.k == 'sel':
        return evali(t.a[1] if evali(t.a[0], f) else t.a[2], f)
    if t.k == 'cmp':
        x, y = evali(t.a[1], f), evali(t.a[2], f)
        return int({'eq': x == y, 'slt': x < y, 'ult': x % 2 ** 64 < y % 2 ** 64}[t.a[0]])
    if t.k == 'op':
        x, y = evali(t.a[1], f), evali(t.a[2], f)
        return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                'shl': lambda: x << y, 'ashr': lambda: x >> y, 'lshr': lambda: x >> y}[t.a[0]]()
    raise ValueError(show(t))


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts, self.viols, self.notes, self.assumptions = {}, [], [], []
        self.items = []
        self.sims = 0
        self.fnsused = {}

    def load(self, jobs):
        db, srcs = frontend.load(jobs)
        self.prog = Prog(db, srcs)
        self.srcs = srcs
        # properties of GLib containers the program names: globals initialised elsewhere
        for j in jobs:
            n = j.split()[0]
            if n not in self.prog.flat:
                raise Broken('anchor function %s not found in the program' % j.split()[1])

    def flat(self, n):
        f = self.prog.flat.get(n)
        if f is None:
            raise Broken('no analysed root %s' % n)
        self.fnsused[n] = (len(f.blocks), sum(len(b) for b in f.blocks))
        return f

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, k, n=1, what=None):
        if self.counts.get(k, 0) < n:
            raise Broken('%s: expected at least %d, found %d' % (what or k, n, self.counts.get(k, 0)))

    def ok(self, text):
        self.count('obligations discharged')
        if text not in self.items:
            self.items.append(text)

    def bad(self, rule, where, msg, trace=()):
        k = (rule, where, msg)
        if k not in [v[:3] for v in self.viols]:
            self.viols.append((rule, where, msg, list(trace)))

    def check(self, cond, rule, where, msg, okmsg=None):
        if cond:
            self.ok(okmsg or ('%s: %s' % (rule, where)))
        else:
            self.bad(rule, where, msg)
        return cond

    def sim(self, fn, client, live_keys=(), **kw):
        if isinstance(fn, str):
            fn = self.flat(fn)
        client.ctx = self
        s = Sim(fn, client, live_keys, **kw)
        try:
            s.run()
        finally:
            for v in s.viol.values():
                self.bad(v.rule, v.ins.where() if v.ins else fn.name, v.msg, v.path)
        self.count('abstract states analysed', s.steps)
        self.count('instructions reached', len(s.visited_ins))
        return s

    def assume(self, *t):
        for x in t:
            if x not in self.assumptions:
                self.assumptions.append(x)


def finish(ctx, mod, t0, broken=None):
    known = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) rule=(\S+) fn=(\S+) (.*)$', line.strip())
            if m and m.group(1) == ctx.pid:
                known.append(m.groups())
    except OSError:
        pass
    new = []
    for v in ctx.viols:
        fn = re.search(r'\((\w+)\)', v[1])
        fn = fn.group(1) if fn else v[1]
        if any(k[1] == v[0] and k[2] == fn and k[3] in v[2] for k in known):
            print('KNOWN-FINDING: property=%s %s in %s: %s' % (ctx.pid, v[0], fn, v[2]))
        else:
            new.append(v)
    ev = {
        'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'other',
        'coverage': dict({'explanation': (mod.__doc__ or '').strip(), 'rules and obligations': sorted(ctx.items)[:200],
                          'translation units': len(getattr(ctx, 'srcs', ())),
                          'analysed roots (name: blocks, instructions)': {k: list(v) for k, v in ctx.fnsused.items()}}, **ctx.counts),
        'wall_s': round(time.time() - t0, 2),
        'assumptions': ctx.assumptions + ['library functions behave as declared in engine/api.py', 'distinct heap objects are reached through distinct owners; raw-pointer writes do not overlap named structure fields'],
        'violations': [{'rule': v[0], 'where': v[1], 'what': v[2], 'path': v[3]} for v in new],
    }
    if broken:
        ev['coverage']['analysis incomplete'] = broken
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(VERIF, 'evidence', ctx.pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('rule %s\n  at %s\n  %s\n' % v[:3])
                if v[3]:
                    f.write('  along: ' + ' -> '.join(v[3][-25:]) + '\n')
        for v in new[:10]:
            print('%s at %s: %s' % v[:3])
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    if broken:
        print('analysis could not be completed: ' + broken)
        return 2
    print('%s: no violation (%s)' % (ctx.pid, ', '.join('%d %s' % (v, k) for k, v in sorted(ctx.counts.items()))))
    return 0


def main(argv):
    import importlib
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    mod = importlib.import_module(pid)
    ctx = Ctx(pid, tier, seed)
    t0 = time.time()
    broken = None
    try:
        if tier == 'thorough':
            Sim.CAP = 160
        ctx.load(list(mod.JOBS))
        mod.run(ctx)
    except Broken as e:
        broken = str(e)
    except Exception:
        import traceback
        traceback.print_exc()
        broken = 'internal error: ' + traceback.format_exc()[-800:]
    return finish(ctx, mod, t0, broken)
