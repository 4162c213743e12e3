"""Ownership analysis of preload_conf_load under every outcome of a load that matters: no file, unreadable file, all keys read, all keys
missing, and for each key an invalid value while the other keys are read or missing, both for the initial load and for a reload.  On a failure
no setting in effect is written or released, the error is logged, everything acquired is released exactly once, and the process ends exactly in
the initial load; on success every setting is replaced, each previous string is released exactly once and nothing that stays in effect is."""
from confload import *

JOBS = ['load preload_conf_load']


def run(c):
    doc = documented()
    lk = livekeys(c.prog)
    strings = [g for g, (k, d, u) in doc.items() if k in ('string', 'string_list')]

    def scen(label, outcome, file, fail, ok, conffile=None):
        n = [0]

        def done(cl, S, i):
            n[0] += 1
            own, freed, gets, logs = S.auto
            fin = final(S)
            what = ('initial load' if fail else 'reload') + ' with ' + label
            if not ok and not fail and any(conffield(unload(t)) for t in freed if unload(t) is not None):
                cl.bad(S, i, 'unchanged', 'a setting in effect is released in a %s' % what)
            if not ok:
                for g, v in sorted(fin.items()):
                    if not unchanged(v, g):
                        cl.bad(S, i, 'unchanged', '%s.%s is changed in a %s' % (g + (what,)))
                if fail:
                    cl.bad(S, i, 'fatal', 'an %s does not end the daemon' % what)
                for t in own:
                    cl.bad(S, i, 'leak', '%s is not released in a %s' % (show(t), what))
                if not any(l.k == 'i' and l.a[0] in (4, 8, 16) for l in logs):
                    cl.bad(S, i, 'reported', 'nothing is reported in a %s' % what)
                return
            for g in doc:
                if g not in fin or unchanged(fin[g], g):
                    cl.bad(S, i, 'replaced', '%s.%s keeps its old value in a %s' % (g + (what,)))
            held = [uncast(v) for v in fin.values()]
            for t in own:
                if t not in held:
                    cl.bad(S, i, 'leak', '%s is not released in a %s' % (show(t), what))
            for t in freed:
                if t in held:
                    cl.bad(S, i, 'released', '%s stays in effect but is released in a %s' % (show(t), what))
            for g in strings:
                if g in fin and len([1 for t in freed if unchanged(t, g)]) != 1:
                    # known to have been absent
                    if any(unload(f) is not None and conffield(unload(f)) == g and S.isnull(f) for f in S.facts):
                        continue
                    cl.bad(S, i, 'leak', 'the previous value of %s.%s is not released in a %s' % (g + (what,)))
            for g, v in fin.items():
                v = uncast(v)
                if v.k == 'c' and v.a[1] in ALLOC and v not in own:
                    cl.bad(S, i, 'released', '%s.%s holds a value that is not its own in a %s' % (g + (what,)))

        def ended(cl, S, i):
            n[0] += 1
            if ok or not fail:
                cl.bad(S, i, 'fatal', 'a %s ends the daemon' % (('initial load' if fail else 'reload') + ' with ' + label))
            fin = final(S)
            if not any(l.k == 'i' and l.a[0] & 4 for l in S.auto[3]) and i.callee() != 'g_log':
                cl.bad(S, i, 'reported', 'the daemon ends without a message')
        cl = Load(outcome, file, done, ended)
        c.sim('load', cl, lk, state=start(fail, conffile), cap=20000, depth=60)
        if not n[0]:
            raise Broken('no path for ' + label)
        c.count('outcomes of a load analysed')
        c.count('paths judged', n[0])

    for fail in (1, 0):
        scen('no file', lambda g, k, t: 'ok', 'ok', fail, True, 'none')
    # an empty file name means no file: the path condition on the name separates the paths, so outcomes with a file are judged on paths that open it
    for fail in (1, 0):
        for label, outcome, file, ok in [('every key present', lambda g, k, t: 'ok', 'ok', True), ('every key missing', lambda g, k, t: 'missing', 'ok', True)] + [
                x for K in sorted(doc) for err in (('invalid', 'encoding') if doc[K][0] in ('string', 'string_list') else ('invalid',)) for oth in ('ok', 'missing') for x in [
                    ('%s.%s invalid (%s) and the other keys %s' % (K + (err, 'present' if oth == 'ok' else 'missing')), lambda g, k, t, K=K, oth=oth, err=err: err if (g, k) == K else oth, 'ok', False)]] + [
                ('an unreadable file', lambda g, k, t: 'ok', 'err', False)] + [
                ('only %s.%s missing' % K, lambda g, k, t, K=K: 'missing' if (g, k) == K else 'ok', 'ok', True) for K in sorted(doc)] + [
                ('only %s.%s present' % K, lambda g, k, t, K=K: 'ok' if (g, k) == K else 'missing', 'ok', True) for K in sorted(doc)]:
            scen(label, outcome, file, fail, ok, 'file')
    c.need('outcomes of a load analysed', 60)
    c.ok('preload_conf_load: every outcome')

