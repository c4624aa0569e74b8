"""Contracts of BKClock and BKDivider: list integrity, divider counting, clock ticks."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal

Z32 = bv(0, 32)
ONE = bv(1, 32)
FIRST = pv_int(bv(mask(64), 64))


def ptr_or_null(g, name, r):
    return pv_ite(g.symbool(name), pv(r), NULLP)


def dividers(g, owner, field, name='divs', group=None):
    """list of any number of dividers attached to the group inside owner"""
    L = g.lst(name, 'BKDivider', 'nextDivider', 'prevDivider')
    g.set(owner, field + '.firstDivider', L.first())
    g.set(owner, field + '.lastDivider', L.last())
    if group is not None:
        g.set(L.region, 'group', Arr('fill', group, 'p'))
    return L


def reset_arrays(g, L):
    """BKClockReset: counters of the first k dividers are cleared"""
    c0 = g.rd(L.region, 'counter')
    return {(L.region, 'counter'): lambda V: (lambda i: ite(ult(i, V.k), Z32, c0.select(i)))}


def off_of(g, typ, f):
    return (g.leaf_in(typ, f)[1] if g.sym_mode else g.struct_layout(typ)[2].names[f]).off


def group_ptr(g, owner, typ, f):
    return pv(owner, bv(off_of(g, typ, f + '.firstDivider'), 64))


# ------------------------------------------------------------------ clock list
def clock_is_reset(g, clock, L):
    g.ensure('counter-zero', eq(g.rd(clock, 'counter'), Z32))
    g.ensure('time-zero', eq(g.rd(clock, 'time'), bv(0, 64)))
    g.ensure('next-time-zero', eq(g.rd(clock, 'nextTime'), bv(0, 64)))
    c = g.rd(L.region, 'counter')
    g.forall('dividers-reset', L.count, lambda i: eq(c.select(i), Z32))


@goal('C08', functions=['BKClockAttach', 'BKClockReset'], variants=[(x, {'how': x}) for x in ('last', 'first', 'before', 'foreign', 'attached')])
def clock_attach(g, how):
    """attaching links the clock at the requested place and nowhere else; a refused attach changes nothing"""
    ctx, clock, n1, n2 = g.obj('ctx', 'BKContext'), g.obj('clock', 'BKClock'), g.obj('n1', 'BKClock'), g.obj('n2', 'BKClock')
    L = dividers(g, clock, 'dividers')
    g.arrays(lambda V: reset_arrays(g, L))
    g.set(clock, 'ctx', NULLP)
    other = g.obj('other', 'BKContext')
    for n in (n1, n2):
        g.set(n, 'ctx', pv(ctx))
    flags0 = g.rd(ctx, 'flags')
    x0, y0 = g.rd(ctx, 'firstClock'), g.rd(ctx, 'lastClock')
    if how == 'last':
        # n1 is the last clock, n2 the first (or n1 is both, or there is none)
        has = g.symbool('hasClock')
        one = g.symbool('onlyOne')
        g.set(ctx, 'lastClock', pv_ite(has, pv(n1), NULLP))
        g.set(ctx, 'firstClock', pv_ite(has, pv_ite(one, pv(n1), pv(n2)), NULLP))
        g.set(n1, 'nextClock', NULLP)
        r = g.call('BKClockAttach', clock, ctx, 0)
        g.ensure('ok', eq(r, Z32))
        g.ensure('first', pv_eq(g.rd(ctx, 'firstClock'), pv_ite(has, pv_ite(one, pv(n1), pv(n2)), pv(clock))))
        g.ensure('last', pv_eq(g.rd(ctx, 'lastClock'), pv(clock)))
        g.ensure('prev', pv_eq(g.rd(clock, 'prevClock'), pv_ite(has, pv(n1), NULLP)))
        g.ensure('next', pv_eq(g.rd(clock, 'nextClock'), NULLP))
        g.ensure('prev-next', IMP(has, pv_eq(g.rd(n1, 'nextClock'), pv(clock))))
        exc = [(n1, 'nextClock')]
    elif how in ('first', 'before'):
        has = g.symbool('hasClock') if how == 'first' else TRUE
        isfirst = g.symbool('isFirst') if how == 'before' else TRUE
        head = g.obj('head', 'BKClock')       # some first clock when n1 is not the first
        g.set(head, 'ctx', pv(ctx))
        prevIsHead = g.symbool('prevIsHead')
        p0 = pv_ite(isfirst, NULLP, pv_ite(prevIsHead, pv(head), pv(n2)))
        g.set(ctx, 'firstClock', pv_ite(has, pv_ite(isfirst, pv(n1), pv(head)), NULLP))
        g.set(ctx, 'lastClock', pv_ite(has, pv(n1), NULLP))
        g.set(n1, 'prevClock', p0)
        r = g.call('BKClockAttach', clock, ctx, FIRST if how == 'first' else pv(n1))
        g.ensure('ok', eq(r, Z32))
        g.ensure('first', pv_eq(g.rd(ctx, 'firstClock'), pv_ite(isfirst, pv(clock), pv(head))))
        g.ensure('last', pv_eq(g.rd(ctx, 'lastClock'), pv_ite(has, pv(n1), pv(clock))))
        g.ensure('next', pv_eq(g.rd(clock, 'nextClock'), pv_ite(has, pv(n1), NULLP)))
        g.ensure('prev', pv_eq(g.rd(clock, 'prevClock'), pv_ite(has, p0, NULLP)))
        g.ensure('next-prev', IMP(has, pv_eq(g.rd(n1, 'prevClock'), pv(clock))))
        g.ensure('prev-next', IMP(AND(NOT(isfirst), prevIsHead), pv_eq(g.rd(head, 'nextClock'), pv(clock))))
        g.ensure('prev-next2', IMP(AND(NOT(isfirst), NOT(prevIsHead)), pv_eq(g.rd(n2, 'nextClock'), pv(clock))))
        exc = [(n1, 'prevClock'), (n2, 'nextClock'), (head, 'nextClock')]
    elif how == 'foreign':
        g.set(n1, 'ctx', ptr_or_null(g, 'inOther', other))
        r = g.call('BKClockAttach', clock, ctx, n1)
        g.ensure('refused', slt(r, Z32))
        g.frame((clock, 'prevClock'), (clock, 'nextClock'))
        return
    else:
        g.set(clock, 'ctx', pv_ite(g.symbool('inOther'), pv(other), pv(ctx)))
        r = g.call('BKClockAttach', clock, ctx, 0)
        g.ensure('refused', slt(r, Z32))
        g.frame()
        return
    g.ensure('owner', pv_eq(g.rd(clock, 'ctx'), pv(ctx)))
    clock_is_reset(g, clock, L)
    g.frame(clock, (L.region, 'counter'), (ctx, 'flags'), (ctx, 'firstClock'), (ctx, 'lastClock'), *exc)
    g.ensure('attached-flags', eq(g.rd(ctx, 'flags'), bor(flags0, ONE)))


def clock_in_list(g, clock, ctx):
    """clock is linked in ctx between optional neighbours"""
    a, b, h, t = g.obj('a', 'BKClock'), g.obj('b', 'BKClock'), g.obj('h', 'BKClock'), g.obj('t', 'BKClock')
    hasA, hasB, aH, bT = g.symbool('hasPrev'), g.symbool('hasNext'), g.symbool('prevIsFirst'), g.symbool('nextIsLast')
    g.set(clock, 'ctx', pv(ctx))
    g.set(clock, 'prevClock', pv_ite(hasA, pv(a), NULLP))
    g.set(clock, 'nextClock', pv_ite(hasB, pv(b), NULLP))
    g.set(a, 'nextClock', pv(clock))
    g.set(b, 'prevClock', pv(clock))
    first0 = pv_ite(hasA, pv_ite(aH, pv(a), pv(h)), pv(clock))
    last0 = pv_ite(hasB, pv_ite(bT, pv(b), pv(t)), pv(clock))
    g.set(ctx, 'firstClock', first0)
    g.set(ctx, 'lastClock', last0)

    def unlinked():
        g.ensure('prev-next', IMP(hasA, pv_eq(g.rd(a, 'nextClock'), pv_ite(hasB, pv(b), NULLP))))
        g.ensure('next-prev', IMP(hasB, pv_eq(g.rd(b, 'prevClock'), pv_ite(hasA, pv(a), NULLP))))
        g.ensure('first', pv_eq(g.rd(ctx, 'firstClock'), pv_ite(hasA, first0, pv_ite(hasB, pv(b), NULLP))))
        g.ensure('last', pv_eq(g.rd(ctx, 'lastClock'), pv_ite(hasB, last0, pv_ite(hasA, pv(a), NULLP))))
    return unlinked, [(a, 'nextClock'), (b, 'prevClock'), (ctx, 'firstClock'), (ctx, 'lastClock')]


@goal('C08', functions=['BKClockDetach', 'BKClockReset'], variants=[('attached', {'att': 1}), ('detached', {'att': 0})])
def clock_detach(g, att):
    ctx, clock = g.obj('ctx', 'BKContext'), g.obj('clock', 'BKClock')
    L = dividers(g, clock, 'dividers')
    g.arrays(lambda V: reset_arrays(g, L))
    if not att:
        g.set(clock, 'ctx', NULLP)
        g.call('BKClockDetach', clock)
        g.frame()
        return
    unlinked, exc = clock_in_list(g, clock, ctx)
    g.call('BKClockDetach', clock)
    unlinked()
    g.ensure('owner', pv_eq(g.rd(clock, 'ctx'), NULLP))
    clock_is_reset(g, clock, L)
    g.frame((clock, 'ctx'), (clock, 'counter'), (clock, 'time'), (clock, 'nextTime'), (clock, 'object.flags'), (L.region, 'counter'), *exc)


def dispose_arrays(g, L, owner, field):
    """detaching the dividers one after the other from the front"""
    R = L.region
    g0, p0 = g.rd(R, 'group'), g.rd(R, 'prevDivider')
    f0, l0 = L.first(), L.last()
    return {
        (R, 'group'): lambda V: (lambda i: pv_ite(ult(i, V.k), NULLP, g0.select(i))),
        (R, 'prevDivider'): lambda V: (lambda i: pv_ite(ule(i, V.k), NULLP, p0.select(i))),
        (owner, field + '.firstDivider'): lambda V: L.at(V.k),
        (owner, field + '.lastDivider'): lambda V: pv_ite(ult(V.k, L.count), l0, NULLP),
    }


@goal('C08', functions=['BKDispose', 'BKClockDetach', 'BKDividerDetach'])
def clock_dispose(g):
    """disposing a clock unlinks it and detaches every divider, however many there are; it terminates"""
    ctx, clock = g.obj('ctx', 'BKContext'), g.obj('clock', 'BKClock')
    L = dividers(g, clock, 'dividers', group=group_ptr(g, clock, 'BKClock', 'dividers'))
    g.set(clock, 'object.isa', pv(g.glob('BKClockClass')))
    g.set(clock, 'object.flags', 1 << 24)
    unlinked, exc = clock_in_list(g, clock, ctx)

    def arrays(V):
        d = dispose_arrays(g, L, clock, 'dividers')
        d.update(reset_arrays(g, L))
        return d
    g.arrays(arrays)
    g.call('BKDispose', clock)
    unlinked()
    gr, n, p = g.rd(L.region, 'group'), g.rd(L.region, 'nextDivider'), g.rd(L.region, 'prevDivider')
    g.forall('dividers-detached', L.count, lambda i: pv_eq(gr.select(i), NULLP))
    g.ensure('emptied', AND(pv_eq(g.rd(clock, 'object.isa'), NULLP), eq(g.rd(clock, 'object.flags'), Z32), pv_eq(g.rd(clock, 'dividers.firstDivider'), NULLP)))
    g.frame(clock, (L.region, 'counter'), (L.region, 'group'), (L.region, 'prevDivider'), *exc)


# ------------------------------------------------------------------ divider list
@goal('C08', functions=['BKDividerAttachToGroup', 'BKDividerAttachToClock'], variants=[('group', {'fn': 'BKDividerAttachToGroup'}), ('clock', {'fn': 'BKDividerAttachToClock'})])
def divider_attach(g, fn):
    d, l, h = g.obj('d', 'BKDivider'), g.obj('l', 'BKDivider'), g.obj('h', 'BKDivider')
    if fn.endswith('Group'):
        o, gf = g.obj('group', 'BKDividerGroup'), ''
        gp = pv(o)
    else:
        o, gf = g.obj('clock', 'BKClock'), 'dividers.'
        gp = group_ptr(g, o, 'BKClock', 'dividers')
    has, one, att = g.symbool('hasLast'), g.symbool('onlyOne'), g.symbool('attached')
    other = g.obj('other', 'BKDividerGroup')
    g.set(d, 'group', pv_ite(att, pv_ite(g.symbool('toOther'), pv(other), gp), NULLP))
    g.set(o, gf + 'lastDivider', pv_ite(has, pv(l), NULLP))
    g.set(o, gf + 'firstDivider', pv_ite(has, pv_ite(one, pv(l), pv(h)), NULLP))
    g.set(l, 'nextDivider', NULLP)
    first0, last0 = g.rd(o, gf + 'firstDivider'), g.rd(o, gf + 'lastDivider')
    gr0, pr0, nx0 = g.rd(d, 'group'), g.rd(d, 'prevDivider'), g.rd(d, 'nextDivider')
    r = g.call(fn, d, o)
    g.ensure('refused-iff-attached', IFF(slt(r, Z32), att))
    g.ensure('ok', OR(att, eq(r, Z32)))
    g.ensure('last', pv_eq(g.rd(o, gf + 'lastDivider'), pv_ite(att, last0, pv(d))))
    g.ensure('first', pv_eq(g.rd(o, gf + 'firstDivider'), pv_ite(OR(att, has), first0, pv(d))))
    g.ensure('prev', pv_eq(g.rd(d, 'prevDivider'), pv_ite(att, pr0, last0)))
    g.ensure('next', pv_eq(g.rd(d, 'nextDivider'), pv_ite(att, nx0, NULLP)))
    g.ensure('group', pv_eq(g.rd(d, 'group'), pv_ite(att, gr0, gp)))
    g.ensure('prev-next', pv_eq(g.rd(l, 'nextDivider'), pv_ite(AND(has, NOT(att)), pv(d), NULLP)))
    g.frame((d, 'group'), (d, 'prevDivider'), (d, 'nextDivider'), (o, gf + 'firstDivider'), (o, gf + 'lastDivider'), (l, 'nextDivider'))


@goal('C08', functions=['BKDividerDetach', 'BKDispose'], variants=[('detach', {'fn': 'BKDividerDetach'}), ('dispose', {'fn': 'BKDispose'})])
def divider_detach(g, fn):
    d, a, b, h, t = [g.obj(n, 'BKDivider') for n in 'dabht']
    o = g.obj('group', 'BKDividerGroup')
    hasA, hasB, aH, bT, att = [g.symbool(n) for n in ('hasPrev', 'hasNext', 'prevIsFirst', 'nextIsLast', 'attached')]
    g.set(d, 'group', pv_ite(att, pv(o), NULLP))
    g.set(d, 'prevDivider', pv_ite(hasA, pv(a), NULLP))
    g.set(d, 'nextDivider', pv_ite(hasB, pv(b), NULLP))
    g.set(a, 'nextDivider', pv(d))
    g.set(b, 'prevDivider', pv(d))
    first0 = pv_ite(hasA, pv_ite(aH, pv(a), pv(h)), pv(d))
    last0 = pv_ite(hasB, pv_ite(bT, pv(b), pv(t)), pv(d))
    g.set(o, 'firstDivider', first0)
    g.set(o, 'lastDivider', last0)
    if fn == 'BKDispose':
        g.set(d, 'object.isa', pv(g.glob('BKDividerClass')))
        g.set(d, 'object.flags', 1 << 24)
    g.call(fn, d)
    A, B = pv_ite(hasA, pv(a), NULLP), pv_ite(hasB, pv(b), NULLP)
    g.ensure('prev-next', IMP(hasA, pv_eq(g.rd(a, 'nextDivider'), pv_ite(att, B, pv(d)))))
    g.ensure('next-prev', IMP(hasB, pv_eq(g.rd(b, 'prevDivider'), pv_ite(att, A, pv(d)))))
    g.ensure('first', pv_eq(g.rd(o, 'firstDivider'), pv_ite(OR(NOT(att), hasA), first0, B)))
    g.ensure('last', pv_eq(g.rd(o, 'lastDivider'), pv_ite(OR(NOT(att), hasB), last0, A)))
    g.ensure('group', pv_eq(g.rd(d, 'group'), NULLP))
    exc = [(d, 'group')] if fn != 'BKDispose' else [d]
    g.frame((a, 'nextDivider'), (b, 'prevDivider'), (o, 'firstDivider'), (o, 'lastDivider'), *exc)


# ------------------------------------------------------------------ dividers fire every N ticks
@goal('C09', functions=['BKDividerTick'])
def divider_tick(g):
    """one tick of a list of any number of dividers: each fires exactly when its counter has run down,
    counts down by one otherwise; after firing it waits exactly its (possibly new) division"""
    L = g.lst('divs', 'BKDivider', 'nextDivider', 'prevDivider')
    R = L.region
    info = g.obj('info', 'BKCallbackInfo')
    g.arange(R, 'divider', 1, (1 << 31) - 1)
    g.arange(R, 'counter', 0, (1 << 31) - 1)
    nd = g.arr('newdivider', 4, L.count)
    g.arange(nd, 'data', 0, (1 << 31) - 1)
    hasf = g.arr('hasfunc', 1, L.count)
    H, ND = g.rd(hasf, 'data'), g.rd(nd, 'data')
    has = lambda i: ne(H.select(i), bv(0, 8))
    g.ghost('fired', fill_arr(bv(0, 32), 32))
    g.ghost('ok', TRUE)
    c0, d0 = g.rd(R, 'counter'), g.rd(R, 'divider')

    def cb(g_, S, a):
        i = pv_addr(a[1])
        f = g_.gget(S, 'fired')
        g_.gset(S, 'fired', f.store(i, add(f.select(i), ONE)))
        good = AND(eq(g_.get(S, a[0], 'BKCallbackInfo', 'event'), bv(0x6002, 32)), eq(g_.get(S, a[0], 'BKCallbackInfo', 'divider'), d0.select(i)), pv_eq(a[0], pv(info)))
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), good))
        g_.put(S, a[0], 'BKCallbackInfo', 'divider', ND.select(i))
        return Z32
    f = g.callback('vt_cb_divider', cb)
    g.set(R, 'callback.func', Arr('fn', lambda i: pv_ite(has(i), f, NULLP), 'p'))
    g.set(R, 'callback.userInfo', Arr('fn', lambda i: pv_int(i), 'p'))
    fire = lambda i: eq(c0.select(i), Z32)
    calls = lambda i: AND(fire(i), has(i))
    mx1 = lambda x: ite(eq(x, Z32), ONE, x)
    newd = lambda i: ite(calls(i), mx1(ND.select(i)), d0.select(i))
    newc = lambda i: sub(ite(fire(i), newd(i), c0.select(i)), ONE)
    g.arrays(lambda V: {
        (R, 'counter'): lambda V: (lambda i: ite(ult(i, V.k), newc(i), c0.select(i))),
        (R, 'divider'): lambda V: (lambda i: ite(ult(i, V.k), newd(i), d0.select(i))),
        'fired': lambda V: (lambda i: ite(AND(ult(i, V.k), calls(i)), ONE, Z32)),
        'ok': lambda V: TRUE})
    g.call('BKDividerTick', L.first(), info)
    F, C, D = g.gget(None, 'fired'), g.rd(R, 'counter'), g.rd(R, 'divider')
    g.forall('fires-exactly-when-due', L.count, lambda i: eq(F.select(i), ite(calls(i), ONE, Z32)))
    g.forall('counts-down', L.count, lambda i: eq(C.select(i), newc(i)))
    g.forall('division', L.count, lambda i: eq(D.select(i), newd(i)))
    g.forall('counter-invariant', L.count, lambda i: AND(sle(Z32, C.select(i)), IMP(OR(fire(i), slt(c0.select(i), d0.select(i))), slt(C.select(i), D.select(i)))))
    g.ensure('callback-arguments', g.gget(None, 'ok'))
    g.frame((R, 'counter'), (R, 'divider'), info)


@goal('C09', functions=['BKDividerReset', 'BKDividerInit'])
def divider_init(g):
    """a new or reset divider is due at the next tick"""
    d = g.obj('d', 'BKDivider')
    n = g.sym('count', 32)
    cbk = g.obj('cb', 'BKCallback')
    has = g.symbool('hasCallback')
    r = g.call('BKDividerInit', d, n, pv_ite(has, pv(cbk), NULLP))
    g.ensure('ok', eq(r, Z32))
    g.ensure('at-least-one', eq(g.rd(d, 'divider'), ite(eq(n, Z32), ONE, n)))
    g.ensure('due', eq(g.rd(d, 'counter'), Z32))
    g.ensure('callback', pv_eq(g.rd(d, 'callback.func'), pv_ite(has, g.rd(cbk, 'func'), NULLP)))
    g.ensure('detached', AND(pv_eq(g.rd(d, 'group'), NULLP), pv_eq(g.rd(d, 'nextDivider'), NULLP), pv_eq(g.rd(d, 'prevDivider'), NULLP)))
    g.frame(d)


@goal('C09', functions=['BKDividerReset'])
def divider_reset(g):
    d = g.obj('d', 'BKDivider')
    g.call('BKDividerReset', d)
    g.ensure('due', eq(g.rd(d, 'counter'), Z32))
    g.frame((d, 'counter'))


# ------------------------------------------------------------------ clock ticks
T62 = 1 << 61


@goal('C10', functions=['BKClockTick'])
def clock_tick(g):
    """a clock ticks exactly when its time has come; the next tick is one period (or the time its callback asks for) later"""
    clock = g.obj('clock', 'BKClock')
    g.set(clock, 'dividers.firstDivider', NULLP)
    g.range(clock, 'period', 1, T62)
    g.range(clock, 'time', 0, T62)
    t, nt, p, n0 = g.rd(clock, 'time'), g.rd(clock, 'nextTime'), g.rd(clock, 'period'), g.rd(clock, 'counter')
    want = g.sym('callbackNextTime', 64, 0, T62, signed=True)
    has = g.symbool('hasCallback')
    g.ghost('calls', Z32)
    g.ghost('ok', TRUE)

    def cb(g_, S, a):
        g_.gset(S, 'calls', add(g_.gget(S, 'calls'), ONE))
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), eq(g_.get(S, a[0], 'BKCallbackInfo', 'nextTime'), t),
                             eq(g_.get(S, a[0], 'BKCallbackInfo', 'event'), bv(0x6001, 32)), pv_eq(g_.get(S, a[0], 'BKCallbackInfo', 'object'), pv(clock))))
        g_.put(S, a[0], 'BKCallbackInfo', 'nextTime', want)
        return Z32
    g.set(clock, 'callback.func', pv_ite(has, g.callback('vt_cb_clock', cb), NULLP))
    due = eq(t, nt)
    g.call('BKClockTick', clock)
    g.ensure('callback-once-iff-due', eq(g.gget(None, 'calls'), ite(AND(due, has), ONE, Z32)))
    g.ensure('callback-arguments', g.gget(None, 'ok'))
    asked = AND(due, has, slt(t, want))
    g.ensure('next-tick', eq(g.rd(clock, 'nextTime'), ite(asked, want, ite(due, add(t, p), nt))))
    g.ensure('period', eq(g.rd(clock, 'period'), ite(asked, sub(want, t), p)))
    g.ensure('tick-count', eq(g.rd(clock, 'counter'), add(n0, ite(due, ONE, Z32))))
    g.ensure('later', IMP(sle(t, nt), slt(t, g.rd(clock, 'nextTime'))) if False else IMP(due, slt(t, g.rd(clock, 'nextTime'))))
    g.frame((clock, 'nextTime'), (clock, 'period'), (clock, 'counter'))


@goal('C10', functions=['BKClockAdvance', 'BKClockSetPeriod'])
def clock_advance(g):
    clock = g.obj('clock', 'BKClock')
    d = g.sym('delta', 32)
    t = g.range(clock, 'time', 0, T62)
    g.call('BKClockAdvance', clock, d)
    g.ensure('time', eq(g.rd(clock, 'time'), add(t, zext(d, 64))))
    g.frame((clock, 'time'))
    p = g.sym('period', 64, signed=True)
    g.call('BKClockSetPeriod', clock, p)
    g.ensure('period', eq(g.rd(clock, 'period'), p))
    g.frame((clock, 'time'), (clock, 'period'))


@goal('C10', functions=['BKClockInit'], variants=[('init', {'alloc': 0}), ('alloc', {'alloc': 1})])
def clock_init(g, alloc):
    cbk = g.obj('cb', 'BKCallback')
    has = g.symbool('hasCallback')
    p = g.sym('period', 64)
    c = pv_ite(has, pv(cbk), NULLP)
    if alloc:
        g.heap_types('BKClock')
        out = g.arr('out', 8, 1, 'ptr')
        r = g.call('BKClockAlloc', out, p, c)
        k = g.at(out, 'data', 0)
        ok = eq(r, Z32)
        g.ensure('object-iff-ok', IFF(ok, NOT(pv_eq(k, NULLP))))
    else:
        clock = g.obj('clock', 'BKClock')
        r = g.call('BKClockInit', clock, p, c)
        k = pv(clock)
        ok = TRUE
        g.ensure('ok', eq(r, Z32))
        g.frame(clock)
    f = lambda n: g.field(k, 'BKClock', n)
    g.ensure('period', IMP(ok, eq(f('period'), p)))
    g.ensure('starts-due', IMP(ok, AND(eq(f('time'), Z64), eq(f('nextTime'), Z64), eq(f('counter'), Z32))))
    g.ensure('detached', IMP(ok, AND(pv_eq(f('ctx'), NULLP), pv_eq(f('prevClock'), NULLP), pv_eq(f('nextClock'), NULLP))))
    g.ensure('no-dividers', IMP(ok, AND(pv_eq(f('dividers.firstDivider'), NULLP), pv_eq(f('dividers.lastDivider'), NULLP))))
    g.ensure('callback', IMP(ok, pv_eq(f('callback.func'), pv_ite(has, g.rd(cbk, 'func'), NULLP))))
