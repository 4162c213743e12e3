"""Evidence analysis of preload_cleanup_invalid_entries (flattened, unfolded): on every path, every executable that is removed was
reached by the walk over the table of executables, is known not to be running, and its own path was found to be gone - stat failed
and errno, read before any other call, is ENOENT or ENOTDIR, or stat succeeded and the mode is not that of a regular file; and every
executable of the table is judged. preload_state_save runs the cleanup on every path."""
from walk import *

JOBS = ['cl preload_cleanup_invalid_entries lists stop=preload_state_unregister_exe', 'save preload_state_save stop=preload_cleanup_invalid_entries,preload_state_write_file']
GONE = {2, 20}            # ENOENT, ENOTDIR
S_IFMT, S_IFREG = 0o170000, 0o100000
STATS = ('stat', 'lstat')
ERRNO = mk('pure', '__errno_location')


class Cl(Walk):
    def load(self, S, i, loc, v):
        if loc is ERRNO:
            self.add(S, ('errno', v))
        return Walk.load(self, S, i, loc, v)

    def ret(self, S, i, v):
        ev = S.auto
        tabs = [t for t, elems, comp, a, b in hashwalks(ev) if self.exes(t)]
        rem = [(n, e) for n, e in enumerate(ev) if e[0] == 'call' and e[1] == 'preload_state_unregister_exe']
        nulls = [a for a in ('exes', 'maps') if any(S.isnull(f) for f in S.facts if f.k == 'arg')]
        if nulls:
            if rem:
                self.bad(S, i, 'removed', 'an executable is removed although no table was given')
            return
        walks = [w for w in hashwalks(ev) if self.exes(w[0])]
        if not any(w[2] for w in walks):
            return self.bad(S, i, 'walk', 'not every executable of the model is considered')
        seen = {x[1] for w in walks for x in w[1]}
        for n, e in rem:
            y = e[2][0]
            self.ctx.count('removals judged')
            if not any(same(y, x) for x in seen):
                self.bad(S, i, 'removed', 'an executable that was not reached by the walk over the model is removed')
                continue
            if running(S, y) is not False:
                self.bad(S, i, 'running', 'an executable that may be running is removed')
            if not self.gone(S, ev[:n], y):
                self.bad(S, i, 'evidence', 'an executable is removed although its file is not known to be gone')
            if len([1 for m, f in rem if f[2][0] is y]) > 1:
                self.bad(S, i, 'removed', 'an executable is removed twice')
        for y in seen:
            self.ctx.count('executables judged')
            if any(same(e[2][0], y) for n, e in rem):
                continue
            r = running(S, y)
            if r is True:
                continue
            if r is None:
                self.bad(S, i, 'considered', 'an executable is passed over without asking whether it runs')
            elif not self.asked(ev, y) and not self.nopath(S, y):
                self.bad(S, i, 'considered', 'an executable that is not running is kept without looking at its file')
            elif self.gone(S, ev, y) and not self.nopath(S, y) and not self.unlisted(S, ev, y):
                self.bad(S, i, 'kept', 'an executable whose file is known to be gone is kept')

    @staticmethod
    def exes(t):
        return t.k == 'arg' and t.a[0] == 0 or isload(t, 'state.exes') or t.k == 'old' and t.a[1].k == 'arg'

    def pathof(self, t, y):
        return isload(t, 'exe.path') and same(unload(t).a[0], y)

    def nopath(self, S, y):
        for f in S.facts:
            for t in subterms(f):
                if self.pathof(t, y) and S.isnull(t):
                    return True
                if t.k == 'ld' and self.pathof(t.a[1], y) and 47 not in self.vals(S, t):
                    return True
                if t.k == 'ld' and t.a[1].k == 'idx' and self.pathof(t.a[1].a[0], y) and 47 not in self.vals(S, t):
                    return True
        return False

    @staticmethod
    def vals(S, t):
        lo, hi, ne = S.rng(t)
        return set() if lo > 47 or hi < 47 or 47 in ne else {47}

    def unlisted(self, S, ev, y):
        """the table does not hold it (any more)"""
        for e in ev:
            if e[0] == 'call' and e[1] in ('g_hash_table_lookup', 'g_hash_table_contains') and self.pathof(e[2][1], y) and (S.isnull(e[3]) or S.rng(e[3])[1] <= 0):
                return True
        return False

    def asked(self, ev, y):
        return any(e[0] == 'call' and e[1] in STATS and self.pathof(e[2][0], y) for e in ev)

    def gone(self, S, ev, y):
        for n, e in enumerate(ev):
            if e[0] == 'call' and e[1] in STATS and self.pathof(e[2][0], y):
                self.ctx.count('stat results followed')
                if e[4] == 'err':
                    for f in ev[n + 1:]:
                        if f[0] == 'call':
                            break
                        if f[0] == 'errno':
                            lo, hi, ne = S.rng(f[1])
                            if all(x in GONE for x in range(int(max(lo, -1)), int(min(hi, 300)) + 1) if x not in ne) and lo >= 0 and hi < 300:
                                return True
                elif e[4] == 'ok' and self.irregular(S, e, n, ev):
                    return True
        return self.nopath(S, y)

    def irregular(self, S, e, n, ev):
        """the mode that this stat call delivered is known not to be that of a regular file"""
        modes = []
        for f in ev[n + 1:]:
            if f[0] == 'call' and f[1] in STATS + ('fstat',) and f[2][1] is e[2][1]:
                break
            if f[0] == 'load' and f[1] == 'stat.st_mode' and f[3].a[0] is e[2][1]:
                modes.append(f[2])

        def masked(t):
            t = uncast(t)
            return t.k == 'op' and t.a[0] == 'and' and t.a[2].k == 'i' and t.a[2].a[0] & S_IFMT == S_IFMT and any(uncast(t.a[1]) is uncast(m) for m in modes)
        for f, (lo, hi, ne) in S.facts.items():
            if masked(f) and (not lo <= S_IFREG <= hi or S_IFREG in ne):
                return True
            if f.k == 'cmp':
                for p, q in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if q.k == 'i' and q.a[0] == S_IFREG and masked(p) and S.truth(cmp_term('eq', f.a[1], f.a[2])) is False:
                        return True
        return False


class Save(Trace):
    def ret(self, S, i, v):
        n = [e for e in S.auto if e[0] == 'call']
        self.ctx.count('save paths')
        if not n:
            return self.bad(S, i, 'save', 'a save does not run the cleanup')
        a = n[-1][2]
        if not (isload(a[0], 'state.exes') and isload(a[1], 'state.maps')):
            self.bad(S, i, 'save', 'the cleanup of a save does not look at the model')


def run(c):
    cl = Cl(calls=lambda n: n not in api.PURE, loads={'stat.st_mode'})
    c.sim(unfold(c.flat('cl'), 2), cl, cap=20000, depth=60)
    for x in ('removals judged', 'executables judged', 'stat results followed'):
        c.need(x)
    c.sim('save', Save(calls={'preload_cleanup_invalid_entries'}), cap=20000)
    c.need('save paths')
    # no other way to a removal
    cg = c.prog.callgraph()
    seen, w = set(), ['main']
    while w:
        x = w.pop()
        if x not in seen and x != 'preload_cleanup_invalid_entries':
            seen.add(x)
            w.extend(cg.get(x, ()))
    if 'preload_state_unregister_exe' in seen:
        who = sorted(f for f in seen if 'preload_state_unregister_exe' in cg.get(f, ()))
        c.bad('removed', who[0] if who else 'main', 'executables are also removed outside the cleanup')
    c.ok('only idle executables with a vanished file are removed')
    c.ok('every executable is judged at every save')
