"""Typestate analysis of the whole save operation (preload_state_write_file with everything it calls inlined).
A finite automaton over open/write/flush/sync/rename/unlink events and their success or failure outcomes is propagated along
every feasible path: the rename over the state file must be preceded by an exclusively created sibling that was written, flushed
and synced (in this order, nothing after) without a failed step; a failed step must remove the temporary file and return an error."""
from lib import *

JOBS = ['write preload_state_write_file']


class C(Client):
    # auto: (tmp path term, fd term, phase, failed, unlinked, renamed)   phase: -1 no name given, 0 nothing, 1 dirty, 2 flushed, 3 synced
    def init(self):
        return (None, None, 0, 0, 0, 0)

    def keep_atoms(self, S):
        a = set()
        for t in S.auto[:2]:
            if t is not None:
                a |= t.atoms
        return a

    def target(self):
        return mk('arg', 0, self.sim.fn.args[0][0])

    def sibling(self, p):
        t = self.target()
        if p.k == 'c' and p.a[1] in ('g_strconcat', 'g_strdup_printf', 'g_build_filename'):
            a = p.a[2:]
            if p.a[1] == 'g_strconcat':
                return len(a) >= 2 and a[0] is t and all(x.k == 's' or x is ZERO for x in a[1:]) and any(x.k == 's' and x.a[0] and '/' not in x.a[0] for x in a[1:])
            if p.a[1] == 'g_strdup_printf':
                return a and a[0].k == 's' and re.match(r'%s[^%/]+$', a[0].a[0]) and a[1] is t
        return False

    def branch(self, S, i, cond, taken):
        t = self.target()
        if S.auto[2] == 0 and S.auto[0] is None:
            if S.isnull(t) or any(unload(f) is t and S.isnull(f) for f in S.facts):
                S.auto = (None, None, -1, 0, 0, 0)

    def call(self, S, i, name, args, ret, label):
        tmp, fd, ph, fail, unl, ren = S.auto
        bad = lambda r, m: self.bad(S, i, r, m)
        if name in ('open', 'creat', 'fopen', 'g_io_channel_new_file', 'mkstemp', 'g_file_set_contents', 'truncate', 'symlink', 'link'):
            if name != 'open':
                if name in ('fopen', 'g_io_channel_new_file') and len(args) > 1 and args[1].k == 's' and args[1].a[0][:1] == 'r' and '+' not in args[1].a[0]:
                    return
                return bad('exclusive', 'the save writes through %s, which is not an exclusively created temporary file' % name)
            fl = args[1]
            if fl.k == 'i' and fl.a[0] & 3 == 0:
                return
            self.ctx.count('write opens')
            if args[0] is self.target():
                bad('state-file-untouched', 'the state file itself is opened for writing')
            if not (fl.k == 'i' and fl.a[0] & 0o300 == 0o300):
                bad('exclusive', 'the temporary file is not opened with O_CREAT|O_EXCL')
            if not self.sibling(args[0]):
                bad('sibling', 'the temporary file %s is not the state file name plus a constant suffix' % show(args[0]))
            if label == 'ok':
                S.auto = (args[0], ret, 0, fail, 0, 0)
            return
        if name in ('g_io_channel_write_chars', 'write', 'fprintf', 'fwrite', 'fputs') and not (name == 'fprintf' and args and isload(args[0], 'stderr')):
            if name == 'fprintf':
                return
            if ren:
                bad('order', 'data is written after the rename')
            f = fail
            if label == 'err' or (label is None):
                f = 1
            S.auto = (tmp, fd, 1, f, unl, ren)
            return
        if name == 'g_filename_to_uri' and label == 'err':
            S.auto = (tmp, fd, ph, 1, unl, ren)
            return
        if name in ('g_io_channel_flush', 'g_io_channel_shutdown'):
            if label == 'err':
                S.auto = (tmp, fd, ph, 1, unl, ren)
            elif ph < 2:
                S.auto = (tmp, fd, 2, fail, unl, ren)
            return
        if name == 'fsync':
            if label == 'err':
                S.auto = (tmp, fd, ph, 1, unl, ren)
            elif args[0] is fd and ph == 2:
                S.auto = (tmp, fd, 3, fail, unl, ren)
            return
        if name == 'rename':
            self.ctx.count('rename sites')
            if args[1] is not self.target() or args[0] is not tmp:
                bad('rename-target', 'rename(%s, %s) does not move the temporary file over the state file' % (show(args[0]), show(args[1])))
            if fail:
                bad('rename-after-failure', 'the temporary file replaces the state file although writing, flushing or syncing it failed')
            elif ph < 2:
                bad('flush-before-rename', 'the temporary file replaces the state file before its buffered data was flushed')
            elif ph < 3:
                bad('sync-before-rename', 'the temporary file replaces the state file before it was synced to disk')
            S.auto = (tmp, fd, ph, 1 if label == 'err' else fail, unl, 1 if label == 'ok' else ren)
            return
        if name == 'unlink':
            if args[0] is self.target():
                bad('state-file-untouched', 'the state file itself is removed')
            if ren and args[0] is tmp:
                pass
            if args[0] is tmp or self.sibling(args[0]):
                if tmp is not None:
                    S.auto = (tmp, fd, ph, fail, 1, ren)
            else:
                bad('unlink-target', 'a file other than the temporary file is removed: %s' % show(args[0]))
            return

    def ret(self, S, i, v):
        tmp, fd, ph, fail, unl, ren = S.auto
        self.ctx.count('returns analysed')
        if S.isnull(v):
            if tmp is None:
                # nothing was attempted: only for an absent or empty name
                if ph != -1:
                    self.bad(S, i, 'false-success', 'the save reports success without having opened a temporary file')
                return
            if not ren:
                self.bad(S, i, 'false-success', 'the save reports success although the state file was not replaced')
            elif fail:
                self.bad(S, i, 'false-success', 'the save reports success although a step failed')
        elif S.nonnull(v):
            if ren:
                self.bad(S, i, 'false-failure', 'an error is returned although the state file was replaced')
            elif tmp is not None and not unl:
                self.bad(S, i, 'temporary-left', 'the save fails without removing the temporary file')
        else:
            self.bad(S, i, 'result', 'the result of the save is not known to be an error or success: %s' % show(v))

    def dead(self, S, i):
        self.bad(S, i, 'ends-process', 'a save can end the process')


def run(c):
    f = c.flat('write')
    cl = C()
    c.sim(f, cl)
    for k in ('write opens', 'returns analysed'):
        c.need(k)
    if not c.counts.get('rename sites'):
        c.bad('rename', 'preload_state_write_file', 'the state file is never replaced by a rename')
    for r in ('exclusive', 'sibling', 'rename-target', 'flush-before-rename', 'sync-before-rename', 'rename-after-failure', 'false-success', 'temporary-left', 'state-file-untouched'):
        c.ok('rule ' + r)
