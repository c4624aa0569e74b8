"""Contracts of the object layer: construction, disposal and dispatch of attribute calls."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal

INIT, ALLOC = 1 << 24, 1 << 25
Z32 = bv(0, 32)
TYPES = ['BKClock', 'BKDivider', 'BKContext', 'BKData', 'BKInstrument', 'BKTrack', 'BKUnit', 'BKWaveFileReader', 'BKWaveFileWriter']
OB = {t: 'unit.object.' if t == 'BKTrack' else 'object.' for t in TYPES}
TV = [(t, {'t': t}) for t in TYPES]


def size_of(g, t):
    return (g.vc.struct_layout(t) if g.sym_mode else g.struct_layout(t))[0]



def zeroed(g, p, t, ok, skip=('object.flags', 'object.isa'), name='zero'):
    """every field of the struct at p is zero"""
    lay = layout_from_di(g.mod, g.vc.struct_layout(t)[1]) if g.sym_mode else g.struct_layout(t)[2]
    for f, l in sorted(lay.names.items()):
        if any(f == x or f.endswith('.' + x) for x in skip):
            continue
        if isinstance(l, Sec) and not g.sym_mode:
            vs = [g.field(p, t, f, 0, bv(i, 64)) for i in range(l.count)] if ok is TRUE else []
            g.ensure('%s.%s' % (name, f), AND(*[pv_eq(v, NULLP) if isinstance(v, PV) else eq(v, bv(0, v.w)) for v in vs]))
        elif not g.sym_mode and ok is not TRUE:
            continue
        elif isinstance(l, Sec):
            i = g.fresh('z', 64)
            v = g.field(p, t, f, 0, i)
            e = pv_eq(v, NULLP) if isinstance(v, PV) else eq(v, bv(0, v.w))
            g.ensure('%s.%s' % (name, f), IMP(AND(ok, ult(i, bv(l.count, 64))), e))
        else:
            v = g.field(p, t, f)
            g.ensure('%s.%s' % (name, f), IMP(ok, pv_eq(v, NULLP) if isinstance(v, PV) else eq(v, bv(0, v.w))))


def klass(g, t=None, disp=True):
    """a class with arbitrary functions, each possibly missing"""
    k = g.obj('class', 'BKClass')
    has = {}
    for f in ('dispose', 'setAttr', 'getAttr', 'setPtr', 'getPtr'):
        has[f] = g.symbool('has_' + f)
        g.set(k, f, NULLP)
    if t:
        g.set(k, 'instanceSize', size_of(g, t))
    return k, has


@goal('C24', functions=['BKObjectInit'], variants=TV)
def object_init(g, t):
    """an object is emptied and bound to its class iff the class has the expected size; otherwise it is left alone"""
    k, _ = klass(g)
    o = g.obj('object', t)
    # the caller passes the size of the storage as guard
    guard = bv(size_of(g, t), 64)
    sz = ite(g.symbool('sizeMatches'), guard, g.sym('instanceSize', 64))
    g.set(k, 'instanceSize', sz)
    hasO, hasK = g.symbool('hasObject'), g.symbool('hasClass')
    good = AND(hasO, hasK, eq(sz, guard))
    r = g.call('BKObjectInit', pv_ite(hasO, pv(o), NULLP), pv_ite(hasK, pv(k), NULLP), guard)
    g.ensure('ok-iff', eq(r, ite(good, Z32, bv(-7 * 4096 + 1, 32))))
    zeroed(g, pv(o), t, good)
    g.ensure('flags', IMP(good, eq(g.rd(o, OB[t] + 'flags'), bv(INIT, 32))))
    g.ensure('class', IMP(good, pv_eq(g.rd(o, OB[t] + 'isa'), pv(k))))
    for f in (OB[t] + 'flags', OB[t] + 'isa'):
        a, b = g.rd(o, f), g.pre(o, f)
        g.ensure('refused-unchanged-' + f, OR(good, pv_eq(a, b) if isinstance(a, PV) else eq(a, b)))
    g.frame(o)


@goal('C24', functions=['BKObjectAlloc', 'BKDispose'], variants=TV)
def object_alloc(g, t):
    """allocation gives an emptied object of the class or reports the failure; disposal frees it"""
    n = size_of(g, t)
    g.heap_types(t)
    k, has = klass(g, t)
    zero = g.symbool('zeroSize')
    g.set(k, 'instanceSize', ite(zero, bv(0, 64), bv(n, 64)))
    hasK = g.symbool('hasClass')
    out = g.arr('out', 8, 1, 'ptr')
    r = g.call('BKObjectAlloc', out, pv_ite(hasK, pv(k), NULLP), 0)
    p = g.at(out, 'data', 0)
    ok = eq(r, Z32)
    g.ensure('status', OR(ok, eq(r, bv(-7 * 4096 + 1, 32))))
    g.ensure('object-iff-ok', IFF(ok, NOT(pv_eq(p, NULLP))))
    g.ensure('needs-class', IMP(ok, AND(hasK, NOT(zero))))
    zeroed(g, p, t, ok)
    g.ensure('flags', IMP(ok, eq(g.field(p, t, OB[t] + 'flags'), bv(INIT | ALLOC, 32))))
    g.ensure('class', IMP(ok, pv_eq(g.field(p, t, OB[t] + 'isa'), pv(k))))
    g.frame(out)


@goal('C24', functions=['BKObjectAlloc'], malloc_may_fail=False)
def object_alloc_extra(g):
    """the requested extra bytes are available behind the object"""
    k, has = klass(g, 'BKClock')
    out = g.arr('out', 8, 1, 'ptr')
    x = g.sym('extraSize', 64, 0, 1 << 20)
    r = g.call('BKObjectAlloc', out, k, x)
    g.ensure('ok', eq(r, Z32))
    g.ensure('size', ule(add(x, bv(size_of(g, 'BKClock'), 64)), g.alloc_size(g.at(out, 'data', 0))))


@goal('C24', functions=['BKObjectAlloc'])
def object_alloc_null(g):
    k, has = klass(g, 'BKClock')
    r = g.call('BKObjectAlloc', 0, k, 0)
    g.ensure('refused', eq(r, bv(-7 * 4096 + 1, 32)))
    g.frame()


@goal('C24', functions=['BKDispose'], variants=TV)
def object_dispose(g, t):
    """the dispose function is called once, before the object is emptied; objects without class, not
    initialised or already disposed are left alone"""
    k, has = klass(g, t)
    o = g.obj('object', t)
    hasK, fl = g.symbool('hasClass'), g.sym('flags', 32)
    g.assume(eq(band(fl, bv(ALLOC, 32)), Z32))
    g.set(o, OB[t] + 'isa', pv_ite(hasK, pv(k), NULLP))
    g.set(o, OB[t] + 'flags', fl)
    g.ghost('calls', Z32)
    g.ghost('ok', TRUE)

    def cb(g_, S, a):
        g_.gset(S, 'calls', add(g_.gget(S, 'calls'), bv(1, 32)))
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), pv_eq(a[0], pv(o)), eq(g_.get(S, a[0], t, OB[t] + 'flags'), fl)))
    g.set(k, 'dispose', pv_ite(has['dispose'], g.callback('vt_cb_dispose', cb, ('p',), None), NULLP))
    act = AND(hasK, ne(band(fl, bv(INIT, 32)), Z32))
    for i in (0, 1):
        g.call('BKDispose', o)
        g.ensure('dispose-function-once-%d' % i, eq(g.gget(None, 'calls'), ite(AND(act, has['dispose']), bv(1, 32), Z32)))
        g.ensure('dispose-function-before-%d' % i, g.gget(None, 'ok'))
        if i == 0:
            zeroed(g, pv(o), t, act, skip=())
            g.ensure('untouched', OR(act, AND(eq(g.rd(o, OB[t] + 'flags'), fl), pv_eq(g.rd(o, OB[t] + 'isa'), g.pre(o, OB[t] + 'isa')))))
    g.ensure('not-freed', NOT(g.freed(o)) if g.sym_mode else TRUE)
    g.call('BKDispose', 0)
    g.frame(o)


DISP = [('BKSetAttr', 'setAttr', 3), ('BKGetAttr', 'getAttr', 3), ('BKSetPtr', 'setPtr', 4), ('BKGetPtr', 'getPtr', 4)]


@goal('C24', functions=['BKSetAttr', 'BKGetAttr', 'BKSetPtr', 'BKGetPtr'], variants=[(f, {'fn': f, 'slot': s, 'n': n}) for f, s, n in DISP])
def object_dispatch(g, fn, slot, n):
    """attribute calls reach the function of the class with the same arguments and return its result;
    NULL and missing functions are invalid states"""
    k, has = klass(g, 'BKClock')
    o = g.obj('object', 'BKClock')
    q = g.obj('ptr', 'BKClock')
    g.set(o, 'object.isa', pv(k))
    hasO = g.symbool('hasObject')
    attr, val, res = g.sym('attr', 32), g.sym('value', 32, signed=True), g.sym('result', 32, signed=True)
    args = {'BKSetAttr': [attr, val], 'BKGetAttr': [attr, pv(q)]}.get(fn, [attr, pv(q), zext(val, 64)])
    g.ghost('calls', Z32)
    g.ghost('ok', TRUE)

    def cb(g_, S, a):
        g_.gset(S, 'calls', add(g_.gget(S, 'calls'), bv(1, 32)))
        same = AND(*[pv_eq(x, y) if isinstance(y, PV) else eq(x, y) for x, y in zip(a, [pv(o)] + args)])
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), same))
        return res
    types = {'BKSetAttr': ('p', 32, 32), 'BKGetAttr': ('p', 32, 'p')}.get(fn, ('p', 32, 'p', 64))
    g.set(k, slot, pv_ite(has[slot], g.callback('vt_cb_' + slot, cb, types, 32), NULLP))
    r = g.call(fn, pv_ite(hasO, pv(o), NULLP), *args)
    can = AND(hasO, has[slot])
    g.ensure('called-once', eq(g.gget(None, 'calls'), ite(can, bv(1, 32), Z32)))
    g.ensure('same-arguments', g.gget(None, 'ok'))
    g.ensure('result', eq(r, ite(can, res, bv(-7 * 4096 + 4, 32))))
    g.frame()


# ------------------------------------------------------------------ new objects of the library
NEWS = [('BKData', 'BKDataInit', 'BKDataAlloc', ()), ('BKInstrument', 'BKInstrumentInit', 'BKInstrumentAlloc', ()), ('BKDivider', 'BKDividerInit', 'BKDividerAlloc', (5, 0))]


@goal('C24', functions=['BKDataInit', 'BKDataAlloc', 'BKInstrumentInit', 'BKInstrumentAlloc', 'BKDividerInit', 'BKDividerAlloc', 'BKDispose'],
      variants=[('%s.%s' % (t, h), {'t': t, 'fn': f, 'alloc': h == 'alloc', 'args': a}) for t, i, al, a in NEWS for h, f in (('init', i), ('alloc', al))])
def object_new(g, t, fn, alloc, args):
    """a new object is empty, bound to its class and ready to be disposed, which leaves nothing behind"""
    g.heap_types(t)
    skip = ('object.flags', 'object.isa') + (('divider',) if t == 'BKDivider' else ())
    if alloc:
        out = g.arr('out', 8, 1, 'ptr')
        r = g.call(fn, out, *args)
        p = g.at(out, 'data', 0)
        ok = eq(r, Z32)
        g.ensure('error-negative', OR(ok, slt(r, Z32)))
        g.ensure('object-iff-ok', IFF(ok, NOT(pv_eq(p, NULLP))))
        g.frame(out)
    else:
        o = g.obj('object', t)
        p, ok = pv(o), TRUE
        r = g.call(fn, o, *args)
        g.ensure('ok', eq(r, Z32))
        g.frame(o)
    zeroed(g, p, t, ok, skip=skip)
    f = lambda x: g.field(p, t, x)
    g.ensure('flags', IMP(ok, eq(f('object.flags'), bv(INIT | (ALLOC if alloc else 0), 32))))
    g.ensure('class', IMP(ok, pv_eq(f('object.isa'), pv(g.glob(t + 'Class')))))
    if t == 'BKDivider':
        g.ensure('division', IMP(ok, eq(f('divider'), bv(args[0], 32))))
    g.call('BKDispose', pv_ite(ok, p, NULLP))
    if alloc:
        g.no_leak('nothing-kept')
    else:
        zeroed(g, p, t, ok, skip=(), name='disposed')


@goal('C24', functions=['BKUnitInit', 'BKDispose'], variants=[('unit', {})])
def unit_new(g):
    """a new unit is silent, belongs to no context, has no data and can be run and disposed"""
    from contracts.consts import K
    u = g.obj('unit', 'BKUnit')
    wf = g.sym('waveform', 32)
    r = g.call('BKUnitInit', u, wf)
    g.ensure('ok', eq(r, Z32))
    g.ensure('class', AND(pv_eq(g.rd(u, 'object.isa'), pv(g.glob('BKUnitClass'))), eq(g.rd(u, 'object.flags'), bv(INIT, 32))))
    for f in ('ctx', 'prevUnit', 'nextUnit', 'sample.dataState.data', 'sample.dataState.nextState', 'sample.frames', 'sample.callback.func'):
        g.ensure('no-' + f, pv_eq(g.rd(u, f), NULLP))
    for f in ('run', 'end', 'reset', 'sample.dataState.callback'):
        g.ensure('has-' + f, NOT(pv_eq(g.rd(u, f), NULLP)))
    g.ensure('told-about-itself', pv_eq(g.rd(u, 'sample.dataState.callbackUserInfo'), pv(u)))
    simple = OR(*[eq(wf, bv(K[n], 32)) for n in ('SQUARE', 'TRIANGLE', 'NOISE', 'SAWTOOTH', 'SINE')])
    g.ensure('waveform', IMP(simple, eq(g.rd(u, 'waveform'), wf)))
    g.ensure('duty-cycle', eq(g.rd(u, 'dutyCycle'), bv(2, 32)))
    for i in range(8):
        g.ensure('silent%d' % i, AND(*[eq(g.rd(u, '%s' % f).select(bv(i, 64)), Z32) for f in ('volume', 'lastPulse')]))
    g.ensure('time-zero', eq(g.rd(u, 'time'), Z32))
    g.frame(u)
    g.call('BKDispose', u)
    zeroed(g, pv(u), 'BKUnit', TRUE, skip=(), name='disposed')
    g.frame(u)
