"""Contracts of BKContext: running units and clocks in time order, generating, reading, set-up and disposal."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal
from irv.loops import Inv
from contracts.c_clock import dispose_arrays, ptr_or_null

Z32, ONE, Z64_ = bv(0, 32), bv(1, 32), bv(0, 64)
FR = 1 << 20
T61 = 1 << 61
NCH = [('channels%d' % n, {'n': n}) for n in (1, 2, 8)]


def X(t):
    return sext(t, 64)


def U(t):
    return zext(t, 64)


def context(g, n):
    ctx = g.obj('ctx', 'BKContext')
    ch = g.structs('channels', 'BKBuffer', n)
    g.set(ctx, 'numChannels', n)
    g.set(ctx, 'channels', pv(ch))
    return ctx, ch


def index_of(g, shp, p):
    """position of the node at p in the list"""
    for gd, b, o in p.ts:
        if b is shp.region:
            return udiv(o, bv(shp.size, 64))
    return bv(1 << 40, 64)


def units(g, ctx, **cb):
    L = g.lst('units', 'BKUnit', 'nextUnit', 'prevUnit')
    for f, h in cb.items():
        g.set(L.region, f, Arr('fill', h, 'p'))
    g.set(ctx, 'firstUnit', L.first())
    g.set(ctx, 'lastUnit', L.last())
    return L


# ------------------------------------------------------------------ end of a run
@goal('C05', functions=['BKContextEnd', 'BKBufferShift'], variants=NCH)
def context_end(g, n):
    """ending a run takes the time off the context, every unit and every channel exactly once"""
    ctx, ch = context(g, n)
    end = g.sym('endTime', 32)
    g.ghost('ended', fill_arr(Z32, 32))
    g.ghost('ok', TRUE)
    g.ghost('runs', Z32)
    res, ahead = g.sym('runResult', 32, signed=True), g.sym('ahead', 32, 0, 1 << 30)

    def ended(g_, S, a):
        i = index_of(g, L, a[0])
        e = g.gget(S, 'ended')
        g.gset(S, 'ended', e.store(i, add(e.select(i), ONE)))
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), eq(a[1], end)))
    L = units(g, ctx, end=g.callback('vt_cb_unit_end', ended, ('p', 32), None))

    def run(g_, S, a):
        g.gset(S, 'runs', add(g.gget(S, 'runs'), ONE))
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), eq(a[1], end), pv_eq(a[0], pv(ctx))))
        g.put(S, a[0], 'BKContext', 'deltaTime', add(end, ahead))
        return res
    g.stub('BKContextRun', run)
    g.arrays(lambda V: {'ended': lambda V: (lambda i: ite(ult(i, V.k), ONE, Z32)), 'ok': lambda V: TRUE})
    t0 = [g.rd(ch, F(n, i, 'time')) for i in range(n)]
    cp = [g.rd(ch, F(n, i, 'capacity')) for i in range(n)]
    r = g.call('BKContextEnd', ctx, end)
    good = NOT(slt(res, Z32))
    g.ensure('one-run', AND(eq(g.gget(None, 'runs'), ONE), g.gget(None, 'ok')))
    g.ensure('reports-error', IMP(NOT(good), eq(r, res)))
    g.ensure('result', IMP(good, eq(r, end)))
    g.ensure('time-left', eq(g.rd(ctx, 'deltaTime'), ite(good, ahead, add(end, ahead))))
    E = g.gget(None, 'ended')
    g.forall('units-ended', L.count, lambda i: eq(E.select(i), ite(good, ONE, Z32)))
    for i in range(n):
        left = sub(scale(cp[i], FR), t0[i])
        g.ensure('channel%d-time' % i, eq(g.rd(ch, F(n, i, 'time')), ite(good, add(t0[i], ite(ult(left, end), left, end)), t0[i])))
    g.frame((ctx, 'deltaTime'), *[(ch, F(n, i, 'time')) for i in range(n)])


def F(n, i, f):
    return '[%d].%s' % (i, f)


# ------------------------------------------------------------------ reading
@goal('C04', functions=['BKContextRead', 'BKContextSize'], variants=NCH)
def context_read(g, n):
    """every channel is read once, interleaved, with the same number of frames"""
    ctx, ch = context(g, n)
    size = g.sym('size', 32)
    avail = g.sym('available', 32, 0, 4096)
    out = g.arr('out', 2, add(scale(U(avail), n), bv(n, 64)))
    g.ghost('ok', TRUE)
    g.ghost('mask', Z32)
    want = ite(ult(size, avail), size, avail)
    bsize = g.struct_size('BKBuffer')

    def read(g_, S, a):
        ok, m = g.gget(S, 'ok'), g.gget(S, 'mask')
        hit = FALSE
        for i in range(n):
            h = pv_eq(a[0], pv(ch, bv(i * bsize, 64)))
            ok = AND(ok, IMP(h, AND(pv_eq(a[1], pv(out, bv(2 * i, 64))), eq(band(m, bv(1 << i, 32)), Z32))))
            m = ite(h, bor(m, bv(1 << i, 32)), m)
            hit = OR(hit, h)
        g.gset(S, 'mask', m)
        g.gset(S, 'ok', AND(ok, hit, eq(a[3], bv(n, 32)), ule(want, a[2]), OR(ule(a[2], size), FALSE)))
        return ite(ult(a[2], avail), a[2], avail)
    g.stub('BKBufferRead', read)
    r = g.call('BKContextRead', ctx, out, size)
    g.ensure('every-channel-once-interleaved', AND(g.gget(None, 'ok'), eq(g.gget(None, 'mask'), bv((1 << n) - 1, 32))))
    g.ensure('frames-read', eq(r, want))
    g.frame()
    t, c = g.rd(ch, F(n, 0, 'time')), g.rd(ch, F(n, 0, 'capacity'))
    r = g.call('BKContextSize', ctx)
    g.ensure('size', IMP(ule(lshr(t, bv(20, 32)), c), eq(r, lshr(t, bv(20, 32)))))
    g.frame()


# ------------------------------------------------------------------ generate
@goal('C04', functions=['BKContextGenerate'], variants=[('channels%d' % n, {'n': n}) for n in (1, 2, 3, 4, 5, 6, 7, 8)])
def context_generate(g, n):
    """exactly the requested frames, one after the other, in runs of exactly as many frames; errors are reported"""
    ctx = g.obj('ctx', 'BKContext')
    g.set(ctx, 'numChannels', n)
    size = g.sym('size', 32, 0, (1 << 31) - 1)
    g.bound(size, 1600)
    out = g.arr('out', 2, scale(U(size), n))
    fail = g.arr('fail', 1, U(size))
    silent = g.symbool('noUnits')
    err = g.sym('error', 32, -(1 << 31), -1, signed=True)
    FA = g.rd(fail, 'data')
    g.ghost('ok', TRUE)
    g.ghost('done', Z32)          # frames delivered
    g.ghost('ready', Z32)
    g.ghost('failed', FALSE)

    def end(g_, S, a):
        done = g.gget(S, 'done')
        f = ne(FA.select(U(done)), bv(0, 8))
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), NOT(g.gget(S, 'failed')), eq(band(a[1], bv(FR - 1, 32)), Z32), ule(a[1], bv(1 << 30, 32)),
                            eq(g.gget(S, 'ready'), Z32), pv_eq(a[0], pv(ctx))))
        g.gset(S, 'failed', f)
        g.gset(S, 'ready', lshr(a[1], bv(20, 32)))
        return ite(f, err, a[1])

    def read(g_, S, a):
        done, ready = g.gget(S, 'done'), g.gget(S, 'ready')
        here = pv_eq(a[1], pv(out, scale(U(done), 2 * n)))
        # nothing is run that is not asked for
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), NOT(g.gget(S, 'failed')), here, eq(a[2], ready), ule(ready, sub(size, done)), pv_eq(a[0], pv(ctx))))
        g.gset(S, 'done', ite(silent, done, add(done, ready)))
        g.gset(S, 'ready', Z32)
        return ite(silent, Z32, ready)
    g.stub('BKContextEnd', end)
    g.stub('BKContextRead', read)

    def cands(L):
        ps = L.other + list(L.steps)
        out_ = [('ok', lambda V: V.ghost('ok')), ('not-failed', lambda V: NOT(V.ghost('failed'))), ('ready', lambda V: eq(V.ghost('ready'), Z32)),
                ('done<=size', lambda V: ule(V.ghost('done'), size)), ('k<=done', lambda V: ule(V.k, U(V.ghost('done')))),
                ('not-silent', lambda V: OR(eq(V.k, Z64_), NOT(silent))),
                ('left', lambda V: OR(eq(V.k, Z64_), ult(V.ghost('done'), size))),
                ('k<=size', lambda V: ule(V.k, U(size))), ('none', lambda V: IMP(eq(V.k, Z64_), eq(V.ghost('done'), Z32)))]
        for p in ps:
            for nm, f in (('rest', lambda V: sub(size, V.ghost('done'))), ('done', lambda V: V.ghost('done'))):
                def b(V, p=p, f=f):
                    v = V.phis[p]
                    if isinstance(v, PV):
                        return FALSE
                    w = f(V)
                    return eq(v, w) if v.w == 32 else eq(v, U(w)) if v.w == 64 else FALSE
                out_.append((p + '=' + nm, b))

            def b(V, p=p):
                v = V.phis[p]
                return pv_eq(v, pv(out, scale(U(V.ghost('done')), 2 * n))) if isinstance(v, PV) else FALSE
            out_.append((p + '=out', b))
        return out_
    g.cands(cands)
    r = g.call('BKContextGenerate', ctx, out, size)
    failed, done = g.gget(None, 'failed'), g.gget(None, 'done')
    g.ensure('runs-and-reads-match', g.gget(None, 'ok'))
    g.ensure('error-reported', IMP(failed, eq(r, err)))
    g.ensure('result-is-frames-written', IMP(NOT(failed), eq(r, done)))
    g.ensure('all-frames', IMP(NOT(OR(failed, silent)), eq(r, size)))
    g.frame()


@goal('C04', functions=['BKContextGenerateToTime'], variants=[('channels%d' % n, {'n': n}) for n in (1, 2, 8)])
def context_generate_to_time(g, n):
    """runs exactly up to the time, in runs the buffers can take, and delivers every frame once and in order"""
    ctx = g.obj('ctx', 'BKContext')
    g.set(ctx, 'numChannels', n)
    ahead = g.range(ctx, 'deltaTime', 0, 1 << 30)
    t0 = g.sym('reached', 64, 0, T61)
    g.set(ctx, 'currentTime', add(t0, U(ahead)))
    E = g.sym('distance', 64, -(1 << 60), 1 << 49, signed=True)
    D = ite(slt(Z64_, E), E, Z64_)
    endTime = add(t0, E)
    g.bound(D, 1600 << 20)
    R0 = g.sym('left', 64, 0, 4096 << 20)
    failAt, badWrite = g.sym('failAt', 64), g.sym('badWrite', 64)
    some = g.sym('atLeast', 32, 1, 1 << 12)
    err = g.sym('error', 32, -(1 << 31), -1, signed=True)
    code = g.sym('writeResult', 32)
    info = g.obj('info', 'BKCallback')
    P20 = bv(20, 64)
    for k, v in (('run', Z64_), ('ready', R0), ('done', Z64_), ('pending', Z64_), ('ok', TRUE), ('failed', FALSE), ('refused', FALSE), ('buf', Z64_)):
        g.ghost(k, v)

    def also(S, *c):
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), NOT(g.gget(S, 'failed')), NOT(g.gget(S, 'refused')), *c))

    def end(g_, S, a):
        run, p = g.gget(S, 'run'), U(a[1])
        f = ule(failAt, run)
        # all frames of the run before are fetched, so that the buffers can take this one
        also(S, pv_eq(a[0], pv(ctx)), ule(a[1], bv(1024 << 20, 32)), ule(add(run, p), D), OR(eq(run, Z64_), ult(g.gget(S, 'ready'), bv(FR, 64))), eq(g.gget(S, 'pending'), Z64_))
        g.gset(S, 'failed', f)
        g.gset(S, 'run', ite(f, run, add(run, p)))
        g.gset(S, 'ready', ite(f, g.gget(S, 'ready'), add(g.gget(S, 'ready'), p)))
        return ite(f, err, a[1])
    g.stub('BKContextEnd', end)

    def size(g_, S, a):
        return trunc(lshr(g.gget(S, 'ready'), P20), 32)
    g.stub('BKContextSize', size)

    def read(g_, S, a):
        av = trunc(lshr(g.gget(S, 'ready'), P20), 32)
        also(S, pv_eq(a[0], pv(ctx)), ule(a[2], bv(1024, 32)), eq(g.gget(S, 'pending'), Z64_))
        r = ite(ult(a[2], av), a[2], av)
        g.gset(S, 'ready', sub(g.gget(S, 'ready'), shl(U(r), P20)))
        g.gset(S, 'pending', U(r))
        g.gset(S, 'buf', pv_addr(a[1]))
        return r
    g.stub('BKContextRead', read)

    def write(g_, S, a):
        done = g.gget(S, 'done')
        also(S, eq(pv_addr(a[0]), g.gget(S, 'buf')), eq(U(a[1]), g.gget(S, 'pending')), ult(Z32, a[1]), pv_eq(a[2], pv(info)))
        bad = AND(ule(badWrite, done), ne(code, Z32))
        g.gset(S, 'refused', bad)
        g.gset(S, 'pending', Z64_)
        g.gset(S, 'done', add(done, U(a[1])))
        return ite(bad, code, Z32)
    w = g.callback('vt_cb_write3', write, ('p', 32, 'p'), 32)

    def cands(L):
        gh = lambda V, x: V.ghost(x)
        total = lambda V: add(shl(gh(V, 'done'), P20), gh(V, 'ready'))
        out = [('ok', lambda V: gh(V, 'ok')), ('not-failed', lambda V: NOT(gh(V, 'failed'))), ('not-refused', lambda V: NOT(gh(V, 'refused'))),
               ('pending', lambda V: eq(gh(V, 'pending'), Z64_)), ('total', lambda V: eq(total(V), add(R0, gh(V, 'run')))),
               ('run<=D', lambda V: ule(gh(V, 'run'), D)), ('done-bound', lambda V: ule(gh(V, 'done'), bv(1 << 30, 64))),
               ('fetched', lambda V: OR(eq(V.k, Z64_), ult(gh(V, 'ready'), bv(FR, 64)))),
               ('ready-bound', lambda V: ult(gh(V, 'ready'), bv(1 << 33, 64))),
               ('none', lambda V: IMP(eq(V.k, Z64_), eq(gh(V, 'done'), V.entry.ghost['done']))),
               ('run-same', lambda V: eq(gh(V, 'run'), V.entry.ghost['run'])),
               ('before', lambda V: OR(eq(gh(V, 'run'), D), eq(gh(V, 'run'), scale(V.k, 1024 << 20)))),
               ('ready0', lambda V: IMP(eq(V.k, Z64_), eq(gh(V, 'run'), Z64_))),
               ('k<=D', lambda V: ule(V.k, add(lshr(D, bv(30, 64)), bv(1, 64)))),
               ('k*1024<D', lambda V: OR(eq(V.k, Z64_), ult(scale(sub(V.k, bv(1, 64)), 1024 << 20), D))),
               ('k<=frames', lambda V: ule(V.k, lshr(V.entry.ghost['ready'], P20)) if 'ready' in V.entry.ghost else FALSE),
               ('k+ready', lambda V: ule(add(V.k, lshr(gh(V, 'ready'), P20)), lshr(V.entry.ghost['ready'], P20)))]
        for p in L.other + list(L.steps):
            for nm, f in (('time', lambda V: add(t0, gh(V, 'run'))), ('left', lambda V: sub(D, gh(V, 'run'))), ('done', lambda V: gh(V, 'done'))):
                def b(V, p=p, f=f):
                    v = V.phis[p]
                    if isinstance(v, PV):
                        return FALSE
                    return eq(v, trunc(f(V), 32)) if v.w == 32 else eq(v, f(V)) if v.w == 64 else FALSE
                out.append((p + '=' + nm, b))
        return out
    g.cands(cands)
    r = g.call('BKContextGenerateToTime', ctx, endTime, w, info)
    failed, refused, done, run = [g.gget(None, x) for x in ('failed', 'refused', 'done', 'run')]
    g.ensure('runs-reads-writes-match', g.gget(None, 'ok'))
    g.ensure('error-reported', IMP(failed, eq(r, err)))
    g.ensure('write-error-reported', IMP(refused, slt(r, Z32)))
    fine = NOT(OR(failed, refused))
    g.ensure('time-reached', IMP(fine, eq(run, D)))
    g.ensure('all-frames-delivered', IMP(fine, eq(done, ite(eq(D, Z64_), Z64_, lshr(add(R0, D), P20)))))
    g.ensure('result-is-frames-written', IMP(fine, eq(r, trunc(done, 32))))
    g.frame()


# ------------------------------------------------------------------ running clocks and units
def region_of(v):
    return v.ts[0][1] if isinstance(v, PV) and v.ts else None


@goal('C05', functions=['BKClocksAdvance'], variants=[('clocks', {'reset': 0})])
def clocks_advance(g, reset):
    """any number of clocks: every due clock ticks, then all advance by the same time, at most up to the next tick of any clock"""
    ctx = g.obj('ctx', 'BKContext')
    C = g.lst('clocks', 'BKClock', 'nextClock', 'prevClock')
    R = C.region
    g.assume(ule(bv(1, 64), C.count))
    cur0 = g.range(ctx, 'currentTime', 0, T61)
    g.arange(R, 'time', 0, T61)
    t0 = g.rd(R, 'time')
    gap = g.arr('gap', 8, C.count, signed=True)
    g.arange(gap, 'data', 0, T61)
    G = g.rd(gap, 'data')
    g.set(R, 'nextTime', Arr('fn', lambda i: add(t0.select(i), G.select(i)), 64))
    g.arange(R, 'period', 1, T61)
    g.ghost('ok', TRUE)
    g.ghost('step', Z32)
    g.ghost('seen', fill_arr(Z32, 32))
    resetAt = g.sym('resetAt', 64)
    which = g.sym('which', 64)
    if reset:
        g.assume(ult(which, C.count))
        g.ghost('resets', Z32)

    def tick(g_, S, a):
        t, n = g.get(S, a[0], 'BKClock', 'time'), g.get(S, a[0], 'BKClock', 'nextTime')
        i = index_of(g, C, a[0])
        due = eq(t, n)
        if g.sym_mode:
            x = g.fresh('next', 64)
            g.fact(AND(slt(t, x), sle(x, add(t, bv(T61, 64)))))
        else:
            x = add(t, g.get(S, a[0], 'BKClock', 'period'))
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), sle(t, n), ult(i, C.count)))     # never late
        g.put(S, a[0], 'BKClock', 'nextTime', ite(due, x, n))
        g.gset(S, 'seen', g.gget(S, 'seen').store(i, ONE))
        g.gset(S, 'step', Z32)
        if reset:
            # the callback of the clock resets a clock (C08)
            doit = AND(due, eq(i, resetAt), eq(g.gget(S, 'resets'), Z32))
            g.gset(S, 'resets', ite(doit, ONE, g.gget(S, 'resets')))
            other = C.at(which)
            for f in ('time', 'nextTime'):
                g.put(S, other, 'BKClock', f, ite(doit, Z64_, g.get(S, other, 'BKClock', f)))
            fl = g.get(S, pv(ctx), 'BKContext', 'flags')
            g.put(S, pv(ctx), 'BKContext', 'flags', ite(doit, bor(fl, ONE), fl))
        return None
    g.stub('BKClockTick', tick)

    def advance(g_, S, a):
        t = g.get(S, a[0], 'BKClock', 'time')
        g.put(S, a[0], 'BKClock', 'time', add(t, U(a[1])))
        g.gset(S, 'step', a[1])
        return None
    g.stub('BKClockAdvance', advance)
    E = lambda V: V.entry or V.st
    tnow = lambda q, i: ite(AND(ne(q, Z32), eq(i, which)), Z64_, t0.select(i))

    def arrays(V):
        ph = [p for p, v in V.phis.items() if not isinstance(v, PV) and v.w == 64]
        inlist = R in [region_of(v) for v in V.phis.values()]
        d = {'ok': lambda V: TRUE}
        d['seen'] = lambda V: (lambda i: ite(ult(i, V.k), ONE, E(V).ghost['seen'].select(i)) if ph and inlist else E(V).ghost['seen'].select(i))
        if not inlist:
            d.pop('seen')
            if reset:
                d[(R, 'time')] = lambda V: (lambda q: lambda i: tnow(q, i))(V.ghost('resets'))

                def pred0(V):
                    T = V.rd(R, 'time')
                    return lambda i, v: AND(sle(T.select(i), v), sle(v, add(T.select(i), bv(1 << 62, 64))))
                d[(R, 'nextTime')] = Inv(pred0, lambda V: (lambda T: lambda i: T.select(i))(V.rd(R, 'time')))
            return d

        def tdef(V):
            e, q = V.at_entry(R, 'time'), V.ghost('step')
            if reset and ph:
                z = ne(V.ghost('resets'), E(V).ghost['resets'])
                return lambda i: ite(AND(z, eq(i, which)), Z64_, e.select(i))
            if ph:
                return e.select
            return lambda i: ite(ult(i, V.k), add(e.select(i), U(q)), e.select(i))
        d[(R, 'time')] = tdef
        if ph:
            def pred(V):
                T, N = V.rd(R, 'time'), V.at_entry(R, 'nextTime')
                ch = ne(V.ghost('resets'), E(V).ghost['resets']) if reset else FALSE

                def P(i, v):
                    t = T.select(i)
                    z = AND(ch, eq(i, which))
                    c = [slt(t, v), sle(v, add(t, bv(1 << 62, 64)))] + [sle(V.phis[p], sub(v, t)) for p in ph]
                    return ite(ult(i, V.k), OR(AND(z, eq(v, Z64_)), AND(*c)), eq(v, ite(z, Z64_, N.select(i))))
                return P

            def dflt(V):
                T, N = V.rd(R, 'time'), V.at_entry(R, 'nextTime')
                ch = ne(V.ghost('resets'), E(V).ghost['resets']) if reset else FALSE
                return lambda i: ite(AND(ch, eq(i, which)), Z64_, ite(ult(i, V.k), add(T.select(i), bv(1 << 62, 64)), N.select(i)))
            d[(R, 'nextTime')] = Inv(pred, dflt)
        return d
    g.arrays(arrays)

    def cands(L):
        out = [('step=0', lambda V: OR(eq(V.k, Z64_), eq(V.ghost('step'), Z32)))]
        for p in L.other + list(L.steps):
            def b(V, p=p):
                v = V.phis[p]
                return AND(OR(eq(V.k, Z64_), sle(v, bv(1 << 62, 64))), slt(Z64_, v)) if not isinstance(v, PV) and v.w == 64 else FALSE
            out.append((p + '>0', b))
        if reset:
            out += [('resets', lambda V: ule(V.ghost('resets'), ONE)), ('k<=resets', lambda V: ule(V.k, U(V.ghost('resets')))), ('k<=1', lambda V: ule(V.k, bv(1, 64))),
                    ('flag', lambda V: IFF(ne(V.ghost('resets'), E(V).ghost['resets']), ne(band(V.rd(ctx, 'flags'), ONE), Z32))),
                    ('once', lambda V: ule(E(V).ghost['resets'], V.ghost('resets')))]
        for nm in V_env(L):
            def b(V, nm=nm):
                return OR(eq(V.k, Z64_), eq(V.ghost('step'), V.st.env[nm]))
            out.append(('step=' + nm, b))
        return out
    g.cands(cands)
    err = g.arr('error', 4, 1)
    r = g.call('BKClocksAdvance', ctx, C.first(), err)
    T, N, SE = g.rd(R, 'time'), g.rd(R, 'nextTime'), g.gget(None, 'seen')
    g.ensure('never-late', g.gget(None, 'ok'))
    g.ensure('progress', AND(ult(Z32, r), ule(r, bv((1 << 31) // 3, 32))))
    g.ensure('current-time', eq(g.rd(ctx, 'currentTime'), add(cur0, U(r))))
    g.forall('every-clock-looked-at', C.count, lambda i: eq(SE.select(i), ONE))
    g.forall('advance-equally', C.count, lambda i: eq(T.select(i), add(tnow(g.gget(None, 'resets'), i) if reset else t0.select(i), U(r))))
    g.forall('no-tick-missed', C.count, lambda i: sle(T.select(i), N.select(i)))
    g.frame((ctx, 'currentTime'), (ctx, 'flags'), (R, 'time'), (R, 'nextTime'), (err, 'data'))


@goal('C05', functions=['BKContextRun'])
def context_run(g):
    """any number of units: every unit is run to every point of time the clocks reach, in order, at least up to the end"""
    ctx = g.obj('ctx', 'BKContext')
    clock = g.obj('clock', 'BKClock')
    g.set(ctx, 'firstClock', pv(clock))
    end = g.sym('endTime', 32, 0, 1 << 30)
    g.bound(U(end), 1 << 16)
    d0 = g.range(ctx, 'deltaTime', 0, 1 << 30)
    cur0 = g.range(ctx, 'currentTime', 0, T61)
    g.ghost('ok', TRUE)
    g.ghost('last', fill_arr(d0, 32))
    steps = g.arr('steps', 4, add(U(end), bv(1, 64)))
    g.arange(steps, 'data', 1, (1 << 31) // 3)
    ST = g.rd(steps, 'data')
    now = lambda S: trunc(add(U(d0), sub(S, cur0)), 32)

    def advance(g_, S, a):
        c = g.get(S, pv(ctx), 'BKContext', 'currentTime')
        t = now(c)
        p = ST.select(U(t))
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), pv_eq(a[0], pv(ctx)), pv_eq(a[1], pv(clock)), ult(t, end)))   # not asked for when ahead
        g.put(S, pv(ctx), 'BKContext', 'currentTime', add(c, U(p)))
        return p
    g.stub('BKClocksAdvance', advance)
    UL = g.lst('units', 'BKUnit', 'nextUnit', 'prevUnit')

    def run(g_, S, a):
        i = index_of(g, UL, a[0])
        e = g.gget(S, 'last')
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), ule(e.select(i), a[1]), eq(a[1], now(g.get(S, pv(ctx), 'BKContext', 'currentTime')))))
        g.gset(S, 'last', e.store(i, a[1]))
        return Z32
    g.set(UL.region, 'run', Arr('fill', g.callback('vt_cb_unit_run', run, ('p', 32), 32), 'p'))
    g.set(ctx, 'firstUnit', UL.first())
    g.set(ctx, 'lastUnit', UL.last())

    def arrays(V):
        inlist = UL.region in [region_of(v) for v in V.phis.values()]
        d = {'ok': lambda V: TRUE}
        if inlist:
            d['last'] = lambda V: (lambda c, e: lambda i: ite(ult(i, V.k), now(c), e.select(i)))(V.rd(ctx, 'currentTime'), (V.entry or V.st).ghost['last'])
        else:
            d['last'] = lambda V: (lambda c: lambda i: ite(ult(i, UL.count), now(c), d0))(V.rd(ctx, 'currentTime'))
        return d
    g.arrays(arrays)

    def cands(L):
        C = lambda V: V.rd(ctx, 'currentTime')
        out = [('cur', lambda V: AND(sle(cur0, C(V)), sle(C(V), add(cur0, bv(1 << 31, 64))))),
               ('now', lambda V: OR(ult(now(C(V)), end), ule(now(C(V)), bv((1 << 30) + (1 << 31) // 3, 32)))),
               ('k<=passed', lambda V: ule(V.k, sub(C(V), cur0))),
               ('k<=end', lambda V: ule(V.k, U(end))),
               ('d0', lambda V: ite(eq(V.k, Z64_), eq(C(V), V.at_entry(ctx, 'currentTime')), ult(d0, end)))]
        for p in L.other + list(L.steps):
            def b(V, p=p):
                v = V.phis[p]
                return eq(v, now(C(V))) if not isinstance(v, PV) and v.w == 32 else FALSE
            out.append((p + '=now', b))
        return out
    g.cands(cands)
    r = g.call('BKContextRun', ctx, end)
    started = ult(d0, end)
    d1, cur1 = g.rd(ctx, 'deltaTime'), g.rd(ctx, 'currentTime')
    g.ensure('in-order-and-on-time', g.gget(None, 'ok'))
    g.ensure('result', eq(r, end))
    g.ensure('reaches-end', ule(end, d1))
    g.ensure('not-run-when-ahead', IMP(NOT(started), eq(d1, d0)))
    g.ensure('current-time', eq(sub(cur1, cur0), U(sub(d1, d0))))
    LA = g.gget(None, 'last')
    g.forall('units-run-to-the-time-reached', UL.count, lambda i: eq(LA.select(i), d1))
    g.frame((ctx, 'deltaTime'), (ctx, 'currentTime'))


@goal('C05', functions=['BKContextRun'])
def context_run_no_clock(g):
    """without clocks time passes just so and every unit is run to the end"""
    ctx = g.obj('ctx', 'BKContext')
    g.set(ctx, 'firstClock', NULLP)
    end = g.sym('endTime', 32, 0, 1 << 30)
    d0 = g.range(ctx, 'deltaTime', 0, 1 << 30)
    cur0 = g.range(ctx, 'currentTime', 0, T61)
    g.ghost('runs', fill_arr(Z32, 32))
    UL = g.lst('units', 'BKUnit', 'nextUnit', 'prevUnit')

    def run(g_, S, a):
        i = index_of(g, UL, a[0])
        e = g.gget(S, 'runs')
        g.gset(S, 'runs', e.store(i, add(e.select(i), ite(eq(a[1], end), ONE, bv(100, 32)))))
        return Z32
    g.set(UL.region, 'run', Arr('fill', g.callback('vt_cb_unit_run', run, ('p', 32), 32), 'p'))
    g.set(ctx, 'firstUnit', UL.first())
    g.set(ctx, 'lastUnit', UL.last())
    g.arrays(lambda V: {'runs': lambda V: (lambda i: ite(ult(i, V.k), ONE, Z32))})
    r = g.call('BKContextRun', ctx, end)
    RU = g.gget(None, 'runs')
    passed = ite(ult(d0, end), sub(end, d0), Z32)
    g.ensure('result', eq(r, end))
    g.ensure('time', AND(eq(g.rd(ctx, 'deltaTime'), add(d0, passed)), eq(g.rd(ctx, 'currentTime'), add(cur0, U(passed)))))
    g.forall('every-unit-run-once', UL.count, lambda i: eq(RU.select(i), ONE))
    g.frame((ctx, 'deltaTime'), (ctx, 'currentTime'))


def V_env(L):
    """32 bit values computed before the loop"""
    return [n for n, v in L.entry.env.items() if not isinstance(v, PV) and getattr(v, 'w', 0) == 32 and n in L.st.env]


# ------------------------------------------------------------------ set-up and disposal
MASTER = 'masterClock'


def clampu(v, lo, hi):
    return ite(slt(v, bv(lo, 32)), bv(lo, 32), ite(slt(bv(hi, 32), v), bv(hi, 32), v))


@goal('C06', functions=['BKContextInit', 'BKBufferInit'], variants=[('channels%d' % n, {'n': n}) for n in range(0, 9)] + [('many', {'n': None})], malloc_may_fail=True)
def context_init(g, n):
    """all values are limited to what is supported, every channel starts silent; a failed allocation leaves no channels"""
    ctx = g.obj('ctx', 'BKContext')
    rate = g.sym('sampleRate', 32, 0, (1 << 31) - 1)
    g.heap_types('BKBuffer')
    g.decide_selects()
    num = bv(n, 32) if n is not None else g.sym('numChannels', 32, 9, (1 << 31) - 1)
    k = max(1, n) if n is not None else 8
    r = g.call('BKContextInit', ctx, num, rate)
    ok = eq(r, Z32)
    ch = g.rd(ctx, 'channels')
    g.ensure('fails-only-without-memory', IFF(ok, NOT(pv_eq(ch, NULLP))))
    g.ensure('error-negative', OR(ok, slt(r, Z32)))
    g.ensure('no-channels-when-failed', IMP(NOT(ok), eq(g.rd(ctx, 'numChannels'), Z32)))
    g.ensure('channels', IMP(ok, eq(g.rd(ctx, 'numChannels'), bv(k, 32))))
    g.ensure('sample-rate', eq(g.rd(ctx, 'sampleRate'), clampu(rate, 16000, 96000)))
    bs = g.struct_size('BKBuffer')
    g.ensure('room-for-channels', IMP(ok, eq(g.alloc_size(ch), bv(k * bs, 64))))
    for i in range(k):
        f = lambda x, e=0: g.field(ch, 'BKBuffer', x, idx=i, elem=e)
        g.ensure('channel%d-silent' % i, IMP(ok, AND(eq(f('time'), Z32), eq(f('accum'), Z32))))
        g.ensure('channel%d-kernel' % i, IMP(ok, NOT(pv_eq(f('pulse'), NULLP))))
    for f in ('firstUnit', 'lastUnit', 'firstClock', 'lastClock', 'effectDividers.firstDivider', 'beatDividers.firstDivider', 'masterClock.ctx'):
        g.ensure('no-%s' % f, pv_eq(g.rd(ctx, f), NULLP))
    g.ensure('time', AND(eq(g.rd(ctx, 'deltaTime'), Z32), eq(g.rd(ctx, 'currentTime'), Z64_)))
    g.frame(ctx)


def field_ptr(g, r, typ, f):
    return pv(r, bv((g.leaf_in(typ, f)[1] if g.sym_mode else g.struct_layout(typ)[2].names[f]).off, 64))


def gone(L, own, prev, first, last, ctx):
    """what is left of a list of the context whose first k nodes have been detached from the front"""
    def arrays(g):
        R = L.region
        o0, p0 = g.rd(R, own), g.rd(R, prev)
        l0 = L.last()
        return {
            (R, own): lambda V: (lambda i: pv_ite(ult(i, V.k), NULLP, o0.select(i))),
            (R, prev): lambda V: (lambda i: pv_ite(ule(i, V.k), NULLP, p0.select(i))),
            (ctx, first): lambda V: L.at(V.k),
            (ctx, last): lambda V: pv_ite(ult(V.k, L.count), l0, NULLP),
        }
    return arrays


@goal('C06', functions=['BKDispose', 'BKUnitDetach', 'BKClockDetach', 'BKDividerDetach', 'BKBufferDispose'], variants=[('channels%d' % n, {'n': n}) for n in (1, 2, 8)])
def context_dispose(g, n):
    """disposing a context detaches every unit, clock and divider, however many there are, gives the channels back and empties the context"""
    ctx = g.obj('ctx', 'BKContext')
    ch = g.structs('channels', 'BKBuffer', n)
    g.set(ctx, 'numChannels', n)
    g.set(ctx, 'channels', pv(ch))
    g.set(ctx, 'object.isa', pv(g.glob('BKContextClass')))
    g.set(ctx, 'object.flags', 1 << 24)
    g.set(ctx, 'masterClock.object.isa', pv(g.glob('BKClockClass')))
    g.set(ctx, 'masterClock.object.flags', 1 << 24)
    g.set(ctx, 'masterClock.ctx', NULLP)
    for f in ('firstDivider', 'lastDivider'):
        g.set(ctx, 'masterClock.dividers.' + f, NULLP)
    U_ = units(g, ctx)
    g.set(U_.region, 'ctx', Arr('fill', pv(ctx), 'p'))
    C = g.lst('clocks', 'BKClock', 'nextClock', 'prevClock')
    g.set(C.region, 'ctx', Arr('fill', pv(ctx), 'p'))
    g.set(ctx, 'firstClock', C.first())
    g.set(ctx, 'lastClock', C.last())
    D = []
    for nm in ('effectDividers', 'beatDividers'):
        L = g.lst(nm, 'BKDivider', 'nextDivider', 'prevDivider')
        g.set(ctx, nm + '.firstDivider', L.first())
        g.set(ctx, nm + '.lastDivider', L.last())
        g.set(L.region, 'group', Arr('fill', field_ptr(g, ctx, 'BKContext', nm + '.firstDivider'), 'p'))
        D.append((nm, L))
    g.stub('BKClockReset', lambda g_, S, a: None)

    def arrays(V):
        d = gone(U_, 'ctx', 'prevUnit', 'firstUnit', 'lastUnit', ctx)(g)
        t0 = g.rd(U_.region, 'time')
        d[(U_.region, 'time')] = lambda V: (lambda i: ite(ult(i, V.k), Z32, t0.select(i)))
        d.update(gone(C, 'ctx', 'prevClock', 'firstClock', 'lastClock', ctx)(g))
        for nm, L in D:
            d.update(gone(L, 'group', 'prevDivider', nm + '.firstDivider', nm + '.lastDivider', ctx)(g))
        return d
    g.arrays(arrays)
    g.call('BKDispose', ctx)
    for nm, L, f in [('units', U_, 'ctx'), ('clocks', C, 'ctx')] + [(nm, L, 'group') for nm, L in D]:
        a = g.rd(L.region, f)
        g.forall(nm + '-detached', L.count, lambda i: pv_eq(a.select(i), NULLP))
    g.ensure('channels-given-back', g.freed(ch))
    from contracts.c_object import zeroed
    zeroed(g, pv(ctx), 'BKContext', TRUE)
    g.ensure('emptied', AND(pv_eq(g.rd(ctx, 'object.isa'), NULLP), eq(g.rd(ctx, 'object.flags'), Z32)))
    g.frame(ctx, ch, ('freed', ch), (U_.region, 'ctx'), (U_.region, 'time'), (U_.region, 'prevUnit'), (C.region, 'ctx'), (C.region, 'prevClock'), *[(L.region, f) for nm, L in D for f in ('group', 'prevDivider')])


@goal('C06', functions=['BKContextReset', 'BKClockReset', 'BKBufferClear'], variants=[('channels%d' % n, {'n': n}) for n in (1, 2, 8)])
def context_reset(g, n):
    """resetting starts over at time 0: every unit is told once, every clock is reset, every channel is silent"""
    ctx, ch = context(g, n)
    kers = [g.rd(ch, F(n, i, 'pulse')) for i in range(n)]
    hasr = g.arr('hasreset', 1, 1 << 20)
    H = g.rd(hasr, 'data')
    has = lambda i: ne(H.select(i), bv(0, 8))
    L = units(g, ctx)
    C = g.lst('clocks', 'BKClock', 'nextClock', 'prevClock')
    g.set(ctx, 'firstClock', C.first())
    g.set(ctx, 'lastClock', C.last())
    g.ghost('told', fill_arr(Z32, 32))
    g.ghost('clk', fill_arr(Z32, 32))

    def bump_at(nm, shp):
        def f(g_, S, a):
            i = index_of(g, shp, a[0])
            e = g.gget(S, nm)
            g.gset(S, nm, e.store(i, add(e.select(i), ONE)))
        return f
    cb = g.callback('vt_cb_unit_reset', bump_at('told', L), ('p',), None)
    g.set(L.region, 'reset', Arr('fn', lambda i: pv_ite(has(i), cb, NULLP), 'p'))
    g.stub('BKClockReset', bump_at('clk', C))
    g.arrays(lambda V: {'told': lambda V: (lambda i: ite(AND(ult(i, V.k), has(i)), ONE, Z32)), 'clk': lambda V: (lambda i: ite(ult(i, V.k), ONE, Z32))})
    g.call('BKContextReset', ctx)
    T, K_ = g.gget(None, 'told'), g.gget(None, 'clk')
    g.forall('units-told-once', L.count, lambda i: eq(T.select(i), ite(has(i), ONE, Z32)))
    g.forall('clocks-reset-once', C.count, lambda i: eq(K_.select(i), ONE))
    g.ensure('time-zero', AND(eq(g.rd(ctx, 'deltaTime'), Z32), eq(g.rd(ctx, 'currentTime'), Z64_)))
    for i in range(n):
        g.ensure('channel%d-empty' % i, AND(eq(g.rd(ch, F(n, i, 'time')), Z32), eq(g.rd(ch, F(n, i, 'accum')), Z32), eq(g.rd(ch, F(n, i, 'capacity')), Z32)))
        fr = g.rd(ch, F(n, i, 'frames'))
        g.forall('channel%d-silent' % i, 4129, lambda j, fr=fr: eq(fr.select(j), Z32))
        g.ensure('channel%d-kernel' % i, pv_eq(g.rd(ch, F(n, i, 'pulse')), kers[i]))
    g.frame((ctx, 'deltaTime'), (ctx, 'currentTime'), *[(ch, F(n, i, f)) for i in range(n) for f in ('frames', 'time', 'capacity', 'accum')])


# ------------------------------------------------------------------ attributes of a context
def c32(v):
    return bv(v & 0xffffffff, 32)


@goal('C06', functions=['BKContextSetAttr', 'BKContextGetAttr', 'BKSetAttr', 'BKGetAttr'], variants=[(x, {'generic': x == 'generic'}) for x in ('context', 'generic')])
def context_attr(g, generic):
    """the number of channels and the sample rate can be read but not changed; anything else is refused without a change"""
    from contracts.consts import K
    ctx = g.obj('ctx', 'BKContext')
    g.set(ctx, 'object.isa', pv(g.glob('BKContextClass')))
    out = g.arr('out', 4, 1)
    attr, v = g.sym('attr', 32, signed=True), g.sym('value', 32, signed=True)
    old = g.at(out, 'data', 0)
    r = g.call('BKSetAttr' if generic else 'BKContextSetAttr', ctx, attr, v)
    g.ensure('nothing-to-set', eq(r, c32(K['INVALID_ATTRIBUTE'])))
    g.frame()
    r = g.call('BKGetAttr' if generic else 'BKContextGetAttr', ctx, attr, out)
    isn, iss = eq(attr, c32(K['NUM_CHANNELS'])), eq(attr, c32(K['SAMPLE_RATE']))
    g.ensure('result', eq(r, ite(OR(isn, iss), Z32, c32(K['INVALID_ATTRIBUTE']))))
    g.ensure('value', eq(g.at(out, 'data', 0), ite(isn, g.rd(ctx, 'numChannels'), ite(iss, g.rd(ctx, 'sampleRate'), old))))
    g.frame(out)


@goal('C06', functions=['BKContextSetPtr', 'BKContextGetPtr', 'BKSetPtr', 'BKGetPtr', 'BKClockSetPeriod'], variants=[('%s.%d' % (x, n), {'generic': x == 'generic', 'n': n}) for x in ('context', 'generic') for n in (1, 8)])
def context_clock_period(g, generic, n):
    """the period of the clock of the context is set only to a positive time, takes effect after the current period, and reads back; so does the time"""
    from contracts.consts import K
    ctx, ch = context(g, n)
    g.set(ctx, 'object.isa', pv(g.glob('BKContextClass')))
    io = g.arr('time', 8, 1)
    out = g.arr('out', 8, 1)
    attr = g.sym('attr', 32, signed=True)
    g.assume(ne(attr, c32(K['PULSE_KERNEL'])))
    t = g.at(io, 'data', 0)
    g.assume(AND(sle(bv(-(1 << 62), 64), t), sle(t, bv(1 << 62, 64))))
    size = [bv(8, 64)] if generic else []
    old = g.at(out, 'data', 0)
    isp, ist = eq(attr, c32(K['CLOCK_PERIOD'])), eq(attr, c32(K['TIME']))
    r = g.call('BKSetPtr' if generic else 'BKContextSetPtr', ctx, attr, io, *size)
    pos = slt(bv(0, 64), t)
    g.ensure('set-result', eq(r, ite(isp, ite(pos, Z32, c32(K['INVALID_VALUE'])), c32(K['INVALID_ATTRIBUTE']))))
    g.ensure('period', eq(g.rd(ctx, 'masterClock.period'), ite(AND(isp, pos), t, g.pre(ctx, 'masterClock.period'))))
    g.ensure('refused-unchanged', OR(AND(isp, pos), AND(*[eq(g.rd(ctx, 'masterClock.' + f), g.pre(ctx, 'masterClock.' + f)) for f in ('time', 'nextTime', 'counter')])))
    g.frame((ctx, 'masterClock'))
    r = g.call('BKGetPtr' if generic else 'BKContextGetPtr', ctx, attr, out, *size)
    g.ensure('get-result', eq(r, ite(OR(isp, ist), Z32, c32(K['INVALID_ATTRIBUTE']))))
    g.ensure('value', eq(g.at(out, 'data', 0), ite(isp, g.rd(ctx, 'masterClock.period'), ite(ist, g.rd(ctx, 'currentTime'), old))))
    g.frame((ctx, 'masterClock'), out)


@goal('C06', functions=['BKContextSetPtr', 'BKContextGetPtr'], variants=[('channels%d' % n, {'n': n}) for n in (1, 2, 8)])
def context_pulse_kernel(g, n):
    """the pulse kernel is set for every channel (NULL: the default one) and reads back"""
    from contracts.consts import K
    ctx, ch = context(g, n)
    ker = g.obj('kernel', 'BKBufferPulse')
    none = g.symbool('default')
    out = g.arr('out', 8, 1, 'ptr')
    r = g.call('BKContextSetPtr', ctx, c32(K['PULSE_KERNEL']), pv_ite(none, NULLP, pv(ker)))
    g.ensure('ok', eq(r, Z32))
    p0 = g.rd(ch, F(n, 0, 'pulse'))
    g.ensure('kernel', OR(none, pv_eq(p0, pv(ker))))
    g.ensure('default-kernel', OR(NOT(none), NOT(OR(pv_eq(p0, pv(ker)), pv_eq(p0, NULLP)))))
    for i in range(1, n):
        g.ensure('channel%d' % i, pv_eq(g.rd(ch, F(n, i, 'pulse')), p0))
    g.frame(*[(ch, F(n, i, 'pulse')) for i in range(n)])
    r = g.call('BKContextGetPtr', ctx, c32(K['PULSE_KERNEL']), out)
    g.ensure('get', AND(eq(r, Z32), pv_eq(g.at(out, 'data', 0), p0)))


@goal('C06', functions=['BKContextAlloc', 'BKContextInit', 'BKDispose'], variants=[('channels%d' % n, {'n': n}) for n in (0, 1, 2, 8)], malloc_may_fail=True)
def context_alloc(g, n):
    """an allocated context is like an initialized one; without memory there is none and nothing is kept; disposing gives everything back"""
    rate = g.sym('sampleRate', 32, 0, (1 << 31) - 1)
    out = g.arr('out', 8, 1, 'ptr')
    g.heap_types('BKContext', 'BKBuffer')
    g.decide_selects()
    k = max(1, n)
    r = g.call('BKContextAlloc', out, n, rate)
    c = g.at(out, 'data', 0)
    ok = eq(r, Z32)
    f = lambda x: g.field(c, 'BKContext', x)
    g.ensure('object-iff-ok', IFF(ok, NOT(pv_eq(c, NULLP))))
    g.ensure('error-negative', OR(ok, slt(r, Z32)))
    g.ensure('channels', IMP(ok, eq(f('numChannels'), bv(k, 32))))
    g.ensure('room-for-channels', IMP(ok, eq(g.alloc_size(f('channels')), bv(k * g.struct_size('BKBuffer'), 64))))
    g.ensure('sample-rate', IMP(ok, eq(f('sampleRate'), clampu(rate, 16000, 96000))))
    for x in ('firstUnit', 'lastUnit', 'firstClock', 'lastClock', 'effectDividers.firstDivider', 'beatDividers.firstDivider'):
        g.ensure('no-%s' % x, IMP(ok, pv_eq(f(x), NULLP)))
    g.ensure('time', IMP(ok, AND(eq(f('deltaTime'), Z32), eq(f('currentTime'), Z64_))))
    g.frame(out)
    g.call('BKDispose', pv_ite(ok, c, NULLP))
    g.no_leak("nothing-kept")


@goal('C09', functions=['BKContextInit', 'BKContextAttachDivider', 'BKClockTick'], variants=[('%s.%d' % (nm, rate), {'beat': b, 'eff': e, 'rate': rate}) for nm, b, e in (('both', 1, 1), ('beat', 1, 0), ('effect', 0, 1)) for rate in (16000, 22050, 44100, 48000, 96000)], malloc_may_fail=False)
def context_ticks(g, beat, eff, rate):
    """at usual sample rates: the clock of a new context runs at 240 Hz; a divider given to a context ticks with the clock of the context: first those of the beat, then those of the effects"""
    ctx = g.obj('ctx', 'BKContext')
    db, de = g.obj('beat', 'BKDivider'), g.obj('effect', 'BKDivider')
    for d in (db, de):
        g.set(d, 'group', NULLP)
    g.ghost('ticks', fill_arr(Z32, 32))
    g.ghost('n', Z32)
    g.ghost('ok', TRUE)

    def tick(g_, S, a):
        k = add(g.gget(S, 'n'), ONE)
        g.gset(S, 'n', k)
        T = g.gget(S, 'ticks')
        for i, d in ((0, db), (1, de)):
            T = T.store(bv(i, 64), ite(pv_eq(a[0], pv(d)), add(scale(T.select(bv(i, 64)), 16), k), T.select(bv(i, 64))))
        g.gset(S, 'ticks', T)
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), OR(pv_eq(a[0], pv(db)), pv_eq(a[0], pv(de)), pv_eq(a[0], NULLP)), NOT(pv_eq(a[1], NULLP))))
        return Z32
    g.stub('BKDividerTick', tick)
    r = g.call('BKContextInit', ctx, 1, rate)
    g.ensure('set-up', eq(r, Z32))
    p = g.rd(ctx, 'masterClock.period')
    g.ensure('period-of-240-Hz', ult(sub(p, bv((rate << 20) // 240 - 1, 64)), bv(3, 64)))
    for on, d, t in ((eff, de, 0), (beat, db, 1)):
        if on:
            r = g.call('BKContextAttachDivider', ctx, d, t)
            g.ensure('attached', eq(r, Z32))
    mc = field_ptr(g, ctx, 'BKContext', 'masterClock.object.flags')
    g.ensure('clock-runs', pv_eq(g.rd(ctx, 'firstClock'), mc))
    g.ensure('clock-last', pv_eq(g.rd(ctx, 'lastClock'), mc))
    g.call('BKClockTick', mc)
    T = g.gget(None, 'ticks')
    tb, te = T.select(bv(0, 64)), T.select(bv(1, 64))
    g.ensure('arguments', g.gget(None, 'ok'))
    g.ensure('beat-ticks-once', AND(ult(Z32, tb), ult(tb, bv(16, 32))) if beat else eq(tb, Z32))
    g.ensure('effects-tick-once', AND(ult(Z32, te), ult(te, bv(16, 32))) if eff else eq(te, Z32))
    if beat and eff:
        g.ensure('beat-first', ult(tb, te))
