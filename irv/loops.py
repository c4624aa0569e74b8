"""Loops summarised by inductive invariants.

Every such loop gets a ghost iteration counter k.  Header values that change by a
loop-invariant step are replaced by init + step*k; further invariants are candidate
formulas (from the contract, plus bounds read off the exit tests) of which the
largest inductive subset is kept (Houdini).  What is kept is assumed for an arbitrary
iteration; what the contract needs must then follow from it.
"""
import time
from .terms import *
from .terms import _fresh
from .mem import *
from .mem import _rid as rid_counter
from . import llir


class LView(object):
    def __init__(self, vc, k, st, phis, entry, f):
        self.vc, self.k, self.st, self.phis, self.entry, self.fn = vc, k, st, phis, entry, f

    def changes(self, *what):
        """header view: the loop changes one of these fields (region, name) or ghosts"""
        return any(((x[0].id, x[1]) if isinstance(x, tuple) else x) in self.mods for x in what)

    def rd(self, r, name):
        return self.vc.rd(self.st, r, name)

    def at_entry(self, r, name):
        return self.vc.rd(self.entry or self.st, r, name)

    def ghost(self, key):
        return self.st.ghost[key]

    def idx(self, p):
        """position, counted from 1, of the list node a pointer refers to; 0 for NULL"""
        from .exe import exact_div
        size = self.lastphi[p].size
        t = bv(0, 64)
        for g, b, o in self.phis[p].ts:
            t = ite(g, bv(0, 64) if b is INTB else add(exact_div(o, size), bv(1, 64)), t)
        return t


def is_inv(t, mark):
    """no variable created after mark"""
    for n in free_vars(t):
        i = n.rfind('!')
        if i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > mark:
            return False
    return True


def tr(k, w):
    return k if w == 64 else (trunc(k, w) if w < 64 else zext(k, w))


def inv_loop(vc, f, info, h, st0, excl=frozenset()):
    from .exe import norm, EngineError, exact_div
    name = norm(f.name)
    phis = [i for i in f.blocks[h] if i.op == 'phi']
    mark = _fresh[0]
    k = fresh('k_' + name, 64)
    rec0 = vc.recording
    nf0 = len(vc.facts)
    no0 = len(vc.obls)
    steps = {}
    noind = set()
    ptrbad = set()
    moved = set()
    several = set()
    modified = {}
    dropped = set()
    fresh_phi = {}
    havoc_cache = {}

    # candidate relations between leaves/phis are tried through the contract
    listphi = {}
    lastphi = {}          # pointers to any node of a list, or NULL

    def LV(*a):
        V = LView(*a)
        V.lastphi = lastphi
        return V
    for p in phis:
        v0 = st0.env[p.res]
        if isinstance(v0, PV) and len(v0.ts) > 1 and any(b is INTB for _, b, _o in v0.ts) and any(isinstance(b, Region) and b.kind == 'heap' for _, b, _o in v0.ts):
            # the path to the loop excludes NULL for checked allocations
            ts = [t for t in v0.ts if not (t[1] is INTB and vc.valid(st0, NOT(t[0]), 5000))]
            if ts and len(ts) < len(v0.ts):
                v0 = st0.env[p.res] = PV([(TRUE, ts[0][1], ts[0][2])] if len(ts) == 1 else ts)
        if isinstance(v0, PV):
            for shp in vc.list_shapes:
                if any(b is shp.region for g, b, o in v0.ts) and vc.valid(st0, pv_eq(v0, shp.at(bv(0, 64))), 5000):
                    listphi[p.res] = shp
                    break

    def header_state(with_k=True):
        st = st0.copy()
        st.iters = dict(st0.iters)
        st.iters[h] = 0
        ph = {}
        for p in phis:
            v0 = st0.env[p.res]
            if p.res in listphi:
                v = listphi[p.res].at(k)
            elif p.res in steps:
                s = steps[p.res]
                if isinstance(v0, PV):
                    v = pv_add(v0, mul(s, k))
                else:
                    v = add(v0, mul(s, tr(k, v0.w)))
            else:
                if p.res not in fresh_phi:
                    if isinstance(v0, PV):
                        if p.res in several and p.res not in ptrbad:
                            po = fresh('po', 64)
                            fresh_phi[p.res] = PV([(g_, b_, add(o_, scale(po, ptr_unit(b_, o_)))) for g_, b_, o_ in v0.ts])
                        elif p.res not in moved and not (len(v0.ts) == 1 and isinstance(v0.ts[0][1], Region)):
                            fresh_phi[p.res] = v0          # unless an iteration changes it
                        elif p.res in lastphi:
                            shp = lastphi[p.res]
                            q = fresh('lq', 64)
                            z = eq(q, bv(0, 64))
                            fresh_phi[p.res] = PV([(z, INTB, bv(0, 64)), (NOT(z), shp.region, scale(sub(q, bv(1, 64)), shp.size))])
                        elif len(v0.ts) == 1 and isinstance(v0.ts[0][1], Region) and p.res not in ptrbad:
                            fresh_phi[p.res] = PV([(TRUE, v0.ts[0][1], add(v0.ts[0][2], scale(fresh('po', 64), ptr_unit(v0.ts[0][1], v0.ts[0][2]))))])
                        else:
                            fresh_phi[p.res] = vc.unknown_ptr('phi_%s_%s!%d' % (name, p.res, bump()))
                    else:
                        fresh_phi[p.res] = fresh('phi_' + p.res.strip('%'), v0.w)
                v = fresh_phi[p.res]
            st.env[p.res] = v
            ph[p.res] = v
        later = []
        for (rid, key), r in modified.items():
            leaf = vc.leaf_of(r, key)
            d = adefs.get((rid, key))
            if d is not None and not isinstance(d, Inv):
                later.append(((rid, key), r, leaf, d))
                continue
            hk = (rid, key)
            if hk not in havoc_cache:
                nm = 'hv_%s.%s!%d' % (r.name, leaf.name, bump())
                if key[0] == 'c':
                    havoc_cache[hk] = vc.unknown_ptr(nm) if leaf.kind == 'ptr' else var(nm, 8 * leaf.size)
                elif leaf.kind == 'ptr' and isinstance(d, Inv) and d.shape is not None:
                    havoc_cache[hk] = Arr('fn', (lambda hb, shp: lambda i: shp.at(hb.select(i)))(base_arr(nm, 64), d.shape), 'p')
                elif leaf.kind == 'ptr':
                    havoc_cache[hk] = Arr('const', [vc.unknown_ptr('%s_%d' % (nm, i)) for i in range(leaf.count if isinstance(leaf.count, int) else 0)], 'p')
                else:
                    havoc_cache[hk] = base_arr(nm, 8 * leaf.esize)
            if d is not None:
                later.append(((rid, key), r, leaf, d))
            vc.set_leaf(st, r, key, havoc_cache[hk])
        glater = []
        for gk in gmod:
            g0 = st0.ghost.get(gk)
            d = adefs.get(gk)
            if d is not None and not isinstance(d, Inv):
                glater.append((gk, g0, d))
                continue
            kk = ('g', gk)
            if kk not in havoc_cache:
                if isinstance(g0, T):
                    havoc_cache[kk] = fresh('hg_' + str(gk), g0.w)
                elif isinstance(g0, Arr):
                    havoc_cache[kk] = base_arr('hg_%s!%d' % (gk, bump()), g0.w)
                else:
                    raise EngineError('ghost %s changes in a loop' % gk)
            st.ghost[gk] = havoc_cache[kk]
            if d is not None:
                glater.append((gk, g0, d))
        # contents given by definitions; they may refer to the rest of the state
        V = LV(vc, k, st, ph, st0, name)
        later.sort(key=lambda x: (isinstance(x[3], Inv), x[0][1][0] != 'c'))
        for (rid, key), r, leaf, d in later:
            if isinstance(d, Inv):
                v = d.wrap(V, havoc_cache[(rid, key)])
            elif key[0] == 'c':
                v = d(V)
            else:
                v = Arr('fn', d(V), 'p' if leaf.kind == 'ptr' else 8 * leaf.esize)
            vc.set_leaf(st, r, key, v)
        for gk, g0, d in glater:
            if isinstance(d, Inv):
                st.ghost[gk] = d.wrap(V, havoc_cache[('g', gk)])
            elif isinstance(g0, Arr):
                st.ghost[gk] = Arr('fn', d(V), g0.w)
            else:
                st.ghost[gk] = d(V)
        return st, ph

    def bump():
        _fresh[0] += 1
        return _fresh[0]

    gmod = set()
    adefs = {}
    if vc.array_defs:
        ent = LV(vc, bv(0, 64), st0, {p.res: st0.env[p.res] for p in phis}, None, name)
        for key, fn in (vc.array_defs(ent) or {}).items():
            if isinstance(key, tuple):
                r, nm = key
                lk, leaf = vc.find_leaf(r, nm)
                if (r.id, lk) in excl:
                    continue
                v0 = vc.get_leaf(st0, r, lk, leaf)
                if def_holds(vc, st0, fn, ent, v0, TRUE if lk[0] == 'c' else leaf.count_t()):
                    adefs[(r.id, lk)] = fn
                    modified[(r.id, lk)] = r
            elif key not in excl and key in st0.ghost:
                if def_holds(vc, st0, fn, ent, st0.ghost[key], TRUE):
                    adefs[key] = fn
                    gmod.add(key)

    vc.recording = False
    stay_conds = []

    mark_rid = [0]

    def run(st):
        """one iteration from the header; -> exits, latches, rets"""
        del stay_conds[:]
        mark_rid[0] = rid_counter[0]
        return vc.run_blocks(f, info, h, st, h)

    # ---- discovery of modified state and induction variables
    memo = getattr(vc, 'cand_memo', None)
    vc.cand_memo = None
    rough = getattr(vc, 'discovering', False)      # a surrounding loop only looks for what is modified
    vc.discovering = True
    import os
    dbg = (lambda *a: print('LOOP', f.name, rnd, *a, file=__import__('sys').stderr)) if os.environ.get('LDBG') else (lambda *a: None)
    v0_ = lambda p: st0.env[p.res]
    nolast = set()
    same = lambda p: isinstance(v0_(p), PV) and p.res not in moved and p.res not in listphi and not (len(v0_(p).ts) == 1 and isinstance(v0_(p).ts[0][1], Region))
    for rnd in range(12):
        del vc.facts[nf0:]
        vc.facts.append(ult(k, bv(1 << 62, 64)))
        st, ph = header_state()
        exits, latches, rets = run(st)
        changed = False
        for ls in latches:
            for rid, m in ls.mem.items():
                m0 = st.mem.get(rid)
                if m is m0:
                    continue
                r = m['__r']
                if r.id > reg_mark_of(st0, r):
                    pass
                for key in m:
                    if key == '__r':
                        continue
                    v0 = m0.get(key) if m0 else None
                    if v0 is None:
                        v0 = r.init.get(key)
                    if v0 is None or not vsame(v0, m[key]):
                        if (rid, key) not in modified and r.kind != 'tmp' and not created_in(r, st0, vc, mark_rid[0]):
                            modified[(rid, key)] = r
                            changed = True
                            dbg('mod', rid, key, r.name)
            for gk, gv in ls.ghost.items():
                g0 = st.ghost.get(gk)
                if g0 is not gv and gk not in gmod and not (g0 is not None and vsame(g0, gv)):
                    gmod.add(gk)
                    changed = True
                    dbg('ghost', gk)
            for p in phis:
                v, v1 = ph[p.res], ls.env[p.res]
                if p.res in listphi:
                    if not vc.valid(ls, pv_eq(listphi[p.res].at(add(k, bv(1, 64))), v1), 5000):
                        del listphi[p.res]
                        changed = True
                    continue
                if p.res in steps or p.res in noind:
                    if p.res in steps:
                        v0 = st0.env[p.res]
                        if isinstance(v0, PV):
                            want = pv_add(v0, mul(steps[p.res], add(k, bv(1, 64))))
                        else:
                            want = add(v0, mul(steps[p.res], tr(add(k, bv(1, 64)), v0.w)))
                        if not (vsame(want, v1) or (isinstance(want, T) and vc_valid_eq(vc, ls, want, v1))):
                            del steps[p.res]
                            noind.add(p.res)
                            changed = True
                    continue
                if isinstance(v, PV):
                    v0 = v0_(p)
                    if p.res in several and p.res not in ptrbad:
                        d = [sub(o1, o_) for (_, _b, o_), (_g, _b1, o1) in zip(v.ts, v1.ts)]
                        if same_targets(v, v1) and all(x is d[0] for x in d) and is_inv(d[0], mark):
                            steps[p.res] = d[0]
                        elif same_targets(v, v1):
                            noind.add(p.res)
                        else:
                            ptrbad.add(p.res)
                            noind.add(p.res)
                            fresh_phi.pop(p.res, None)
                        changed = True
                        continue
                    if p.res not in moved and len(v0.ts) > 1 and all(isinstance(b_, Region) for _, b_, _o in v0.ts) and same_targets(v0, v1) and not vsame(v, v1):
                        moved.add(p.res)
                        several.add(p.res)       # moves inside one of several objects
                        fresh_phi.pop(p.res, None)
                        changed = True
                        continue
                    if p.res not in moved and not (len(v0_(p).ts) == 1 and isinstance(v0_(p).ts[0][1], Region)):
                        if vsame(v, v1) or vc.valid(ls, pv_eq(v, v1), 5000):
                            continue
                        moved.add(p.res)
                        fresh_phi.pop(p.res, None)
                        changed = True
                    shp = in_list(vc, v0_(p), v1, v) if p.res not in nolast else None
                    if shp is not None and lastphi.get(p.res, shp) is shp:
                        if p.res not in lastphi:
                            lastphi[p.res] = shp
                            fresh_phi.pop(p.res, None)
                            changed = True
                        continue
                    if p.res in lastphi:
                        del lastphi[p.res]
                        nolast.add(p.res)
                        fresh_phi.pop(p.res, None)
                        changed = True
                        continue
                    if len(v.ts) == 1 and isinstance(v.ts[0][1], Region) and all(v.ts[0][1] is b for _, b, _o in v1.ts):
                        if len(v1.ts) > 1:
                            noind.add(p.res)     # moves inside the same object
                            changed = True
                            continue
                        d = sub(v1.ts[0][2], v.ts[0][2])
                    else:
                        noind.add(p.res)
                        ptrbad.add(p.res)
                        fresh_phi.pop(p.res, None)
                        changed = True
                        continue
                elif v.w == 0:
                    noind.add(p.res)
                    continue
                else:
                    d = sub(v1, v)
                if is_inv(d, mark):
                    steps[p.res] = d
                else:
                    noind.add(p.res)
                changed = True
        if not changed:
            break
    else:
        raise EngineError('loop state of %s does not stabilise' % name)

    vc.discovering = rough
    if rough:
        vc.recording = rec0
        del vc.facts[nf0:]
        del vc.obls[no0:]
        st, ph = header_state()
        exits, latches, rets = run(st)
        vc.cand_memo = memo
        return exits, rets
    # ---- candidates
    ent_ph = {p.res: st0.env[p.res] for p in phis}

    def view(kk, st, ph):
        return LV(vc, kk, st, ph, st0, name)

    cands = []   # (name, builder)
    cands.append(('k<2^32', lambda V: ult(V.k, bv(1 << 32, 64))))
    cands.append(('k<2^31', lambda V: ult(V.k, bv(1 << 31, 64))))
    generic = ('k<2^32', 'k<2^31')

    # bounds from exit tests: terms over k and loop-invariant values only
    def exit_terms():
        out = []
        st, ph = header_state()
        for b in info.loops[h]:
            pass
        for s in latches0:
            for c in s.pc[len(st0.pc):]:
                out.append(c)
        return out
    del vc.facts[nf0:]
    vc.facts.append(ult(k, bv(1 << 62, 64)))
    st, ph = header_state()
    vc.discovering = True
    exits, latches0, rets = run(st)
    vc.discovering = False
    lits = []
    for s in latches0:
        for c in s.pc[len(st0.pc):]:
            lits.extend(c.args if c.op == 'and' else [c])
    nn = 0
    for c in lits:
        inv_vars = [n for n in free_vars(c) if n != k.data and not is_inv(var(n, 1), mark)]
        if inv_vars:
            continue
        t = None
        if c.op == 'ult':
            t = ule(c.args[0], c.args[1])
        elif c.op == 'slt':
            t = sle(c.args[0], c.args[1])
        elif c.op in ('ule', 'sle'):
            t = c
        elif c.op in ('or', 'and', 'ite') or c.op == 'not' and c.args[0].op in ('and', 'or', 'ite'):   # comparison of pointers which have several targets
            t = weaken(c)
        elif c.op == 'not' and c.args[0].op == 'eq':
            x = sub(c.args[0].args[0], c.args[0].args[1])
            # rest - trunc(k) != 0
            w = x.w
            y = add(x, tr(k, w))
            z = sub(x, tr(k, w))
            if k.data not in free_vars(y):
                t = ule(k, zext(y, 64) if w <= 64 else y)
            elif k.data not in free_vars(z):
                t = ule(k, zext(neg(z), 64) if w <= 64 else z)
            elif w <= 64:
                # rest - k * step != 0 with an unchanging step
                x0 = subst(x, {k.id: bv(0, 64)})
                d = sub(x0, subst(x, {k.id: bv(1, 64)}))
                if k.data not in free_vars(d) and k.data not in free_vars(x0):
                    t = ule(times(k, d), zext(x0, 64))
        if t is None or t in (TRUE, FALSE):
            continue
        nn += 1

        def mkb(t):
            return lambda V: subst(t, {k.id: V.k})
        cands.append(('exit-bound%d' % nn, mkb(t)))
    for p in phis:
        if p.res in listphi:
            cands.append(('list-position', (lambda shp: lambda V: ule(V.k, shp.count))(listphi[p.res])))
            cands.append(('list-not-past-last', (lambda shp: lambda V: OR(eq(V.k, bv(0, 64)), ult(V.k, shp.count)))(listphi[p.res])))
    for p in lastphi:
        cands.append(('before', (lambda p: lambda V: ule(V.idx(p), V.k))(p)))
        cands.append(('just-before', (lambda p: lambda V: eq(V.idx(p), V.k))(p)))
    gfacts = []
    if vc.loop_cands:
        L = view(k, st, ph)
        L.other = [p.res for p in phis if p.res not in steps]
        L.steps = steps
        L.lasts = list(lastphi)
        L.h = h
        L.mods = {(r_.id, vc.leaf_of(r_, key_[1]).name) for key_, r_ in modified.items()} | gmod
        nfc = len(vc.facts)
        Ve = view(bv(0, 64), st0, ent_ph)
        Vk = view(k, st0, ent_ph)
        for nm, b in vc.loop_cands(L) or []:
            try:
                t_ = b(L)
                if t_ is b(Ve):
                    continue        # about state this loop does not change
            except EngineError:
                pass
            cands.append((nm, b))
        gfacts = vc.facts[nfc:]      # unfoldings of ghost definitions at k

    # ---- base
    del vc.facts[nf0:]
    vc.facts.extend(gfacts)
    alive = []
    V0 = view(bv(0, 64), st0, ent_ph)
    results = []
    # candidates which failed when the surrounding loop was looked at with at least as many assumptions
    failed = None
    if memo is not None:
        seen = memo[1]
        seen[(name, h)] = seen.get((name, h), 0) + 1
        failed = memo[0].setdefault((name, h, seen[(name, h)]), set())
        cands = [(nm, b) for nm, b in cands if nm not in failed]
    for nm, b in cands:
        try:
            t = b(V0)
        except EngineError:
            continue
        if vc.valid(st0, t, 10000):
            alive.append((nm, b))
        elif failed is not None:
            failed.add(nm)
            dbg('not at entry', nm)
        else:
            dbg('not at entry', nm)
    # ---- induction
    mine = ({}, {})
    while True:
        vc.cand_memo = mine
        mine[1].clear()
        if vc.deadline and time.time() > vc.deadline:
            raise EngineError('time limit (invariants)')
        del vc.facts[nf0:]
        vc.facts.append(ult(k, bv(1 << 62, 64)))
        vc.facts.extend(gfacts)
        st, ph = header_state()
        V = view(k, st, ph)
        alive = [(nm, b) for nm, b in alive if b(V) is not FALSE]
        for nm, b in alive:
            vc.assume(st, b(V))
        exits, latches, rets = run(st)
        bad = set()
        k1 = add(k, bv(1, 64))
        for ls in latches:
            lph = {p.res: ls.env[p.res] for p in phis}
            V1 = view(k1, ls, lph)
            for nm, b in alive:
                if nm in bad:
                    continue
                t1 = b(V1)
                if t1 is not b(V) and not vc.valid(ls, t1, 700 if nm in generic else 20000):
                    bad.add(nm)
                    dbg('not inductive', nm)
            if bad:
                continue
            for key in list(adefs):
                if isinstance(key, tuple):
                    r = modified[key]
                    leaf = vc.leaf_of(r, key[1])
                    a1 = vc.get_leaf(ls, r, key[1], leaf)
                    cnt = TRUE if key[1][0] == 'c' else leaf.count_t()
                else:
                    a1 = ls.ghost.get(key)
                    cnt = TRUE
                if not def_holds(vc, ls, adefs[key], V1, a1, cnt):
                    # the definition does not describe this loop: start over without it
                    vc.recording = rec0
                    vc.cand_memo = memo
                    if memo is not None:
                        memo[1][(name, h)] -= 1
                    del vc.facts[nf0:]
                    return inv_loop(vc, f, info, h, st0, excl | {key})
            # induction variables proved through the solver keep holding?
            for p in phis:
                if p.res in listphi:
                    if not vc.valid(ls, pv_eq(listphi[p.res].at(k1), lph[p.res]), 10000):
                        raise EngineError('list position %s of %s' % (p.res, name))
                elif p.res in steps:
                    v0 = st0.env[p.res]
                    if isinstance(v0, PV):
                        want = pv_add(v0, mul(steps[p.res], k1))
                        ok = vsame(want, lph[p.res]) or vc.valid(ls, pv_eq(want, lph[p.res]), 10000)
                    else:
                        want = add(v0, mul(steps[p.res], tr(k1, v0.w)))
                        ok = want is lph[p.res] or vc.valid(ls, eq(want, lph[p.res]), 10000)
                    if not ok:
                        raise EngineError('induction variable %s of %s' % (p.res, name))
                elif same(p):
                    if not (vsame(ph[p.res], lph[p.res]) or vc.valid(ls, pv_eq(ph[p.res], lph[p.res]), 10000)):
                        raise EngineError('pointer %s of %s' % (p.res, name))
                elif p.res in lastphi:
                    if in_list(vc, st0.env[p.res], lph[p.res], ph[p.res]) is not lastphi[p.res]:
                        raise EngineError('list pointer %s of %s' % (p.res, name))
                elif isinstance(ph[p.res], PV) and p.res not in noind:
                    raise EngineError('pointer %s of %s' % (p.res, name))
                elif p.res in several and p.res not in ptrbad:
                    if not same_targets(ph[p.res], lph[p.res]):
                        raise EngineError('pointer %s of %s leaves its objects' % (p.res, name))
                elif isinstance(ph[p.res], PV) and p.res not in ptrbad and any(b is not ph[p.res].ts[0][1] for _, b, _o in lph[p.res].ts):
                    raise EngineError('pointer %s of %s leaves its object' % (p.res, name))
        if bad:
            alive = [(nm, b) for nm, b in alive if nm not in bad]
            if failed is not None:
                failed |= bad
            continue
        break

    # ---- final pass with obligations recorded
    vc.recording = rec0
    mine[1].clear()
    del vc.facts[nf0:]
    del vc.obls[no0:]
    vc.facts.append(ult(k, bv(1 << 62, 64)))
    vc.facts.extend(gfacts)
    st, ph = header_state()
    V = view(k, st, ph)
    for nm, b in alive:
        vc.assume(st, b(V))
    exits, latches, rets = run(st)
    if rec0:
        for nm, b in alive:
            for ph_ in ('base', 'step'):
                vc.oblige(st0, TRUE, 'invariant', name, 'loop.%s.%s@%s' % (nm, ph_, name))
                vc.obls[-1].backend = 'z3'
        for p in listphi:
            vc.oblige(st0, TRUE, 'invariant', name, 'loop.list-node(%s)@%s' % (p, name))
            vc.obls[-1].backend = 'z3'
        for p in steps:
            vc.oblige(st0, TRUE, 'invariant', name, 'loop.induction-variable(%s)@%s' % (p, name))
        for key in adefs:
            vc.oblige(st0, TRUE, 'invariant', name, 'loop.content-definition@%s' % name)
            vc.obls[-1].backend = 'z3'
        if vc.termination:
            bounded = False
            for nm, b in alive:
                t = b(V)
                if t.op in ('ule', 'ult') and t.args[0] is k:
                    bounded = True
            if not bounded:
                # no bound on the number of iterations was proved
                vc.oblige(st0, FALSE, 'termination', name, 'loop.terminates@%s' % name)
            else:
                vc.oblige(st0, TRUE, 'termination', name, 'loop.terminates@%s' % name)
        vc.loops_proved += 1
        vc.loop_report.append('%s/%s: invariants %s; induction %s; summarised arrays %d' % (
            name, h, ', '.join(nm for nm, _ in alive), ', '.join(sorted(steps)), len(adefs)))
    vc.cand_memo = memo
    return exits, rets


def times(k, d):
    if d.op == 'ite':
        return ite(d.args[0], times(k, d.args[1]), times(k, d.args[2]))
    return scale(k, d.data) if d.op == 'c' else mul(k, zext(d, 64))


def weaken(c, pos=True):
    """a test with its strict bounds made non-strict"""
    if c.op == 'not':
        return NOT(weaken(c.args[0], not pos))
    if c.op in ('and', 'or'):
        return (AND if c.op == 'and' else OR)(*[weaken(x, pos) for x in c.args])
    if c.op == 'ite' and c.w == 0:
        return ite(c.args[0], weaken(c.args[1], pos), weaken(c.args[2], pos))
    if pos and c.op in ('ult', 'slt'):
        return (ule if c.op == 'ult' else sle)(c.args[0], c.args[1])
    if not pos and c.op in ('ule', 'sle'):
        return (ult if c.op == 'ule' else slt)(c.args[0], c.args[1])
    return c


def def_holds(vc, st, d, V, have, count):
    if isinstance(d, Inv):
        P = d.pred(V)
        if isinstance(have, Arr):
            i = fresh('ai', 64)
            v = have.select(i)
            return vc.valid(st, IMP(TRUE if count is TRUE else ult(i, count), AND(P(i, v), d.fits(v))), 20000)
        return vc.valid(st, P(have), 20000)
    want = d(V)
    if isinstance(have, Arr):
        i = fresh('ai', 64)
        return vc.valid(st, IMP(TRUE if count is TRUE else ult(i, count), val_eq(have.select(i), want(i))), 20000)
    return vc.valid(st, val_eq(have, want), 20000)


class Inv(object):
    """pointwise invariant of an array (or cell): pred(V)(i, value); default(V)(i) satisfies it"""

    def __init__(self, pred, default, shape=None):
        """shape: the values are pointers to nodes of this list, or NULL"""
        self.pred, self.default, self.shape = pred, default, shape

    def fits(self, v):
        if self.shape is None:
            return TRUE
        from .exe import exact_div, exact_div_ok
        c = []
        for g, b, o in v.ts:
            if b is INTB:
                c.append(IMP(g, eq(o, bv(0, 64))))
            elif b is self.shape.region and exact_div_ok(o, self.shape.size):
                c.append(IMP(g, ult(exact_div(o, self.shape.size), self.shape.count)))
            else:
                c.append(NOT(g))
        return AND(*c)

    def wrap(self, V, base):
        P, D = self.pred(V), self.default(V)
        if isinstance(base, Arr):
            def sel(i):
                v = base.select(i)
                return vite(P(i, v), v, D(i))
            return Arr('fn', sel, base.w)
        return vite(P(base), base, D)


def val_eq(a, b):
    if isinstance(a, PV):
        return pv_eq(a, b)
    return eq(a, b)


def vc_valid_eq(vc, st, a, b):
    return vc.valid(st, eq(a, b), 5000)


def reg_mark_of(st, r):
    return 1 << 60




def created_in(r, st0, vc, mark):
    """locals of functions called in the loop body do not exist at the header"""
    return r.kind == 'alloca' and r.id > mark


def ptr_unit(r, off):
    """granularity of pointers walking through r from off"""
    if r.lay is None:
        return 1
    cst, _ = lin_parts(off)
    cst = tosigned(cst, 64)
    for s in r.lay.secs:
        end = s.start + s.stride * s.count if isinstance(s.count, int) else None
        if cst >= s.start and (end is None or cst <= end):
            return s.stride
    return 1


def in_list(vc, v0, v1, v):
    """the list whose nodes (or NULL) the pointer refers to: NULL before the loop, and after any iteration"""
    from .exe import exact_div_ok
    if not all(b is INTB and vc_zero(o) for _, b, o in v0.ts):
        return None
    old = [b for _, b, _o in v.ts if b is not INTB]
    for shp in vc.list_shapes:
        if all((b is INTB and vc_zero(o)) or b is shp.region and exact_div_ok(o, shp.size) or (b in old and b is not shp.region) for _, b, o in v1.ts) and any(b is shp.region for _, b, o in v1.ts):
            return shp
    return None


def vc_zero(o):
    return o.op == 'c' and o.data == 0


def same_targets(a, b):
    """the same objects under the same conditions"""
    return len(a.ts) == len(b.ts) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(a.ts, b.ts))
