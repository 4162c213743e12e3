"""Phase analysis of one prediction.  preload_prophet_predict is flattened (bids opaque) and its loops unfolded; on every path, at the moment
the maps are handed on for reading: every executable and every map had its score set to zero before the bids, by complete walks over the
executable table and the map array; after the bids a complete walk over the executables reached each of its map uses and added to each of
those maps, once, the executable's score - or a positive vote where the path knows the program is running; the map array was sorted after
that, no score was changed after sorting, and exactly that array is handed on."""
from walk import *
from poly import poly, Poly
import P17

JOBS = ['pr preload_prophet_predict stop=preload_prophet_readahead,vomm_predict,preload_markov_foreach', 'ra preload_prophet_readahead stop=proc_get_memstat,preload_readahead']
BIDS = ('vomm_predict', 'preload_markov_foreach')
SORTS = {'g_ptr_array_sort': 0, 'qsort': 0, 'g_qsort_with_data': 0, 'g_ptr_array_sort_with_data': 0, 'g_ptr_array_sort_values': 0}


def stateful(t, f):
    l = unload(t)
    return l is not None and isfld(l, f)


def run(c):
    fn = c.flat('pr')
    # the verbosity switch only prints; keep those walks out
    u = unfold(fn, 2, maxblocks=60000)
    c.fnsused['pr unfolded x2'] = (len(u.blocks), sum(len(b) for b in u.blocks))
    hits, cmps = {}, {}

    class P(Walk):
        def load(self, S, i, loc, v):
            if loc.k == 'g' and loc.a[0] == 'preload_log_level':
                S.mem[loc] = ZERO
                S.env[i.id] = ZERO
                return
            return Walk.load(self, S, i, loc, v)

        def call(self, S, i, name, args, ret, label):
            r = Walk.call(self, S, i, name, args, ret, label)
            if name in BIDS:
                for k in list(S.mem):
                    if isfld(k, 'exe.lnprob') or isfld(k, 'map.lnprob'):
                        del S.mem[k]
            if name == 'preload_prophet_readahead':
                judge(self, S, i, args[0])
            return r

        def store(self, S, i, loc, v):
            if isfld(loc, 'exe.lnprob') or isfld(loc, 'map.lnprob'):
                self.add(S, ('store', fname(loc), v, loc, S.mem.get(loc)))

        def ret(self, S, i, v):
            self.paths += 1
            if not any(e[:2] == ('call', 'preload_prophet_readahead') for e in S.auto):
                self.bad(S, i, 'phases', 'a prediction ends without choosing maps')
    cl = P(calls=set(SORTS) | set(BIDS) | {'preload_prophet_readahead', 'preload_is_vomm_algorithm'})

    def judge(cl, S, i, arr):
        c.count('predictions judged')
        ev = S.auto
        bids = [n for n, e in enumerate(ev) if e[0] == 'call' and e[1] in BIDS]
        sorts = [n for n, e in enumerate(ev) if e[0] == 'call' and e[1] in SORTS]
        bad = lambda r, m: cl.bad(S, i, r, m)
        if not bids:
            return bad('bids', 'maps are chosen without any bid having been collected')
        for n in bids:
            hits[ev[n][1]] = hits.get(ev[n][1], 0) + 1
            c.count('bid phases')
        b0, b1 = bids[0], bids[-1]
        if len({ev[n][1] for n in bids}) > 1 or len(bids) > 1:
            return bad('bids', 'bids are collected more than once')
        if not stateful(arr, 'state.maps_arr'):
            return bad('sorted', 'what is handed on is not the map array')
        # zeroing
        ok = False
        for w in hashwalks(ev, 0, b0):
            if not stateful(w[0], 'state.exes') or not w[2]:
                continue
            if all(last_store(ev[:b0], 'exe.lnprob', v) is True for k, v in w[1]):
                ok = True
                c.count('executables zeroed', len(w[1]))
        if not ok:
            return bad('zeroed', 'bids start although the scores of all executables have not been set to zero')
        aw = arrwalks(S, ev, 0, b0)
        ok = False
        for A, (els, full) in aw.items():
            if stateful(A, 'state.maps_arr') and full and all(last_store(ev[:b0], 'map.lnprob', v) is True for v in els.values()):
                ok = True
                c.count('maps zeroed', len(els))
        if not ok and arr_empty(S, ev[:b0]):
            ok = True
        if not ok:
            for w in hashwalks(ev, 0, b0):
                if stateful(w[0], 'state.maps') and w[2] and all(last_store(ev[:b0], 'map.lnprob', k) is True for k, v in w[1]):
                    ok = True
        if not ok:
            return bad('zeroed', 'bids start although the scores of all maps have not been set to zero')
        # propagation
        if not sorts:
            return bad('sorted', 'maps are chosen without being sorted')
        s = sorts[-1]
        for n in range(s, len(ev)):
            if ev[n][0] == 'store':
                return bad('sorted', 'a score changes after the maps have been sorted')
        for n in range(b1, len(ev)):
            if ev[n][0] == 'store' and ev[n][1] == 'exe.lnprob':
                return bad('propagate', 'the score of an executable changes after the bids')
        key = ev[s][2][SORTS[ev[s][1]]]
        f = ev[s][2][P17.SORTS[ev[s][1]][1]]
        if f.k == 'fn':
            cmps[f.a[0]] = ev[s][1]
        if not (stateful(key, 'state.maps_arr') or unload(key) is not None and unload(key).k == 'fld' and unload(key).a[1] == '_GPtrArray.pdata'):
            return bad('sorted', 'what is sorted is not the map array')
        ws = [w for w in hashwalks(ev, b1, s) if stateful(w[0], 'state.exes') and w[2]]
        stores = [e for e in ev[b1:s] if e[0] == 'store' and e[1] == 'map.lnprob']
        used = 0
        full = False
        for w in ws:
            exp = []
            good = True
            for k, x in w[1]:
                ems = None
                for A, (els, comp) in arrwalks(S, ev, b1, s).items():
                    l = unload(A)
                    if l is not None and isfld(l, 'exe.exemaps', x):
                        ems = (list(els.values()), comp)
                for w2 in hashwalks(ev, b1, s):
                    l = unload(w2[0])
                    if l is not None and isfld(l, 'exe.exemaps', x):
                        ems = ([a for a, b in w2[1]], w2[2])
                if ems is None:
                    # an empty collection leaves no element events
                    if exemaps_empty(S, x):
                        continue
                    good = False
                    continue
                if not ems[1]:
                    good = False
                exp += [(x, em) for em in ems[0]]
            if not good:
                continue
            full = True
            used = check_stores(cl, S, bad, exp, list(stores))
            if used is None:
                return
        if not full:
            return bad('propagate', 'the scores are not propagated from every executable to each of its maps')
        c.count('propagations proved', used)

    def check_stores(cl, S, bad, exp, stores):
        # the vote for each expected (exe, exemap)
        n = 0
        for x, em in exp:
            hit = [e for e in stores if unload(e[3].a[0]) is not None and isfld(unload(e[3].a[0]), 'exemap.map', em)]
            if not hit:
                bad('propagate', 'a map used by an executable receives no vote from it')
                return None
            if len(hit) > 1:
                bad('propagate', 'a map receives more than one vote for one use')
                return None
            e = hit[0]
            stores.remove(e)
            loc, v = e[3], e[2]
            p = poly(v)
            old = [a for a in p.atoms() if (a.k in ('ld', 'old') and isload(a, 'map.lnprob')) or a.k == 'ld' and a.a[1] is loc]
            if e[4] is not None and not old:
                q = p - poly(e[4])
            elif len(old) == 1 and p.m.get((old[0],)) == 1:
                q = p - Poly.atom(old[0])
            else:
                bad('propagate', 'the vote for a map does not add to the votes before it')
                return None
            r = running(S, x)
            if q.isconst():
                if q.c() <= 0:
                    bad('propagate', 'a map is voted for (or not against) by a constant')
                    return None
                if r is not True:
                    bad('propagate', 'a map is voted against although the program using it is not known to be running')
                    return None
                c.count('votes against')
            else:
                if not (len(q.m) == 1 and list(q.m.values())[0] == 1 and len(list(q.m)[0]) == 1 and isload(list(q.m)[0][0], 'exe.lnprob', x)):
                    bad('propagate', 'the vote for a map is not the score of the executable using it')
                    return None
                if r is not False:
                    bad('propagate', 'a program that may be running votes for its maps')
                    return None
                c.count('votes for')
            n += 1
        if stores:
            bad('propagate', 'a map receives a vote that belongs to no use of it')
            return None
        return n

    def last_store(ev, f, base):
        r = None
        for e in ev:
            if e[0] == 'store' and e[1] == f and e[3].a[0] is base:
                r = e[2] is ZERO or e[2].k == 'f' and float(e[2].a[0]) == 0
        return r

    def arr_empty(S, ev):
        for f, (lo, hi, ne) in S.facts.items():
            for x in subterms(f):
                if x.k == 'ld' and x.a[1].k == 'fld' and x.a[1].a[1] == '_GPtrArray.len' and stateful(x.a[1].a[0], 'state.maps_arr') and S.rng(x)[1] <= 0:
                    return True
        return False

    def exemaps_empty(S, x):
        for f in list(S.facts):
            for t in subterms(f):
                if t.k == 'ld' and t.a[1].k == 'fld' and t.a[1].a[1] == '_GPtrArray.len':
                    l = unload(t.a[1].a[0])
                    if l is not None and isfld(l, 'exe.exemaps', x) and S.rng(t)[1] <= 0:
                        return True
        return False
    c.sim(u, cl, cap=100000, depth=80)
    if not c.viols:
        for k in ('predictions judged', 'bid phases', 'executables zeroed', 'maps zeroed', 'votes for', 'votes against', 'propagations proved'):
            c.need(k)
        if len(hits) < 2:
            c.bad('bids', 'preload_prophet_predict', 'one of the two prediction algorithms is never used')
    choose(c)
    direction(c, cmps)
    c.ok('zero, bid, propagate, sort, choose - in this order on every path')
    c.assume('every further iteration of a walk executes the same code as the unfolded ones')


def choose(c):
    """what is handed to the reader is the head of the sorted array, each map in it known to have evidence of need"""
    u = unfold(c.flat('ra'), 3 if c.tier == 'thorough' else 2)

    class R(Trace):
        def keep_atoms(self, S):
            return {a for f in S.facts for a in f.atoms}

        def store(self, S, i, loc, v):
            b = loc.a[0] if loc.k == 'idx' else loc
            l = unload(b) if b.k == 'ld' else None
            if l is not None and l.k == 'fld' and l.a[1] == '_GPtrArray.pdata' or isfld(loc, 'map.lnprob'):
                self.bad(S, i, 'order', 'the sorted maps are rearranged while maps are being chosen')

        def call(self, S, i, name, args, ret, label):
            if name != 'preload_readahead':
                if name in SORTS or name.startswith('g_ptr_array_'):
                    self.bad(S, i, 'order', 'the sorted maps are rearranged while maps are being chosen')
                return
            c.count('choices judged')
            l = unload(args[0])
            if l is None or l.k != 'fld' or l.a[1] != '_GPtrArray.pdata':
                return self.bad(S, i, 'order', 'what is read is not the head of the sorted maps')
            k = args[1]
            if k.k != 'i':
                raise Broken('number of chosen maps is not determined')
            need = set()
            for f, (lo, hi, ne) in S.facts.items():
                if f.k == 'cmp' and f.a[0] == 'olt' and lo == 1 and (f.a[2] is ZERO or f.a[2].k == 'f' and float(f.a[2].a[0]) <= 0) and isload(f.a[1], 'map.lnprob'):
                    e = elemloc(unload(unload(f.a[1]).a[0])) if unload(unload(f.a[1]).a[0]) is not None else None
                    if e:
                        need.add(e[1])
            for j in range(k.a[0]):
                if j not in need:
                    return self.bad(S, i, 'need', 'a map is chosen without evidence of need (its log-probability is not known to be negative)')
                c.count('chosen maps with evidence of need')
    c.sim(u, R(), cap=100000, depth=80)
    if not c.viols:
        c.need('chosen maps with evidence of need')


def direction(c, cmps):
    c.load(JOBS + ['cmp:%s %s' % (f, f) for f in cmps])
    for f, how in sorted(cmps.items()):
        s = P17.summarise(c, f, how in P17.VALUES)
        if s and not P17.priority(s, 'map.lnprob', 1):
            c.bad('order', f, 'the maps are not sorted most needed (lowest log-probability) first')
        c.count('comparators checked')
