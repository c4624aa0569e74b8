"""Contracts of the attributes of units, and of attaching units and dividers to a context."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal
from contracts.consts import K
from contracts.c_object import size_of, zeroed

Z32, ONE = bv(0, 32), bv(1, 32)
MAXV = 32767
PHASES = {0: 16, K['SQUARE']: 16, K['TRIANGLE']: 32, K['NOISE']: 8, K['SAWTOOTH']: 7, K['SINE']: 32}
RANGE_F, JUMP_F, REL_F = 1, 2, 4           # internal flags: has sustain range, jump on release, released


def c32(v):
    return bv(v & 0xffffffff, 32)


def U(t):
    return zext(t, 64)


def clamp(v, lo, hi):
    """signed"""
    lo = c32(lo) if isinstance(lo, int) else lo
    hi = c32(hi) if isinstance(hi, int) else hi
    return ite(slt(v, lo), lo, ite(slt(hi, v), hi, v))


def unit(g, name='unit', typ='BKUnit', pre=''):
    u = g.obj(name, typ)
    g.set(u, pre + 'object.isa', pv(g.glob('BKUnitClass')))
    return u


def upto(g, name, most):
    """any value up to most"""
    x = g.sym(name, 32)
    return ite(ule(x, most), x, most)


def sample(g, u, least=0, nch=None):
    """a unit which plays a sample: 1 to 8 channels, the range [from, from+length) of the frames"""
    d = g.obj('data', 'BKData')
    if nch:
        g.set(d, 'numChannels', nch)
        nch = c32(nch)
    else:
        nch = g.range(d, 'numChannels', 1, 8)
    total = g.range(d, 'numFrames', 2, 1 << 24)
    g.bound(total, 6)
    g.bound(nch, 2)
    fr = g.arr('frames', 2, scale(U(total), nch.data) if nch.op == 'c' else mul(U(total), U(nch)))
    g.set(d, 'frames', pv(fr))
    g.set(u, 'waveform', K['SAMPLE'])
    g.set(u, 'sample.dataState.data', pv(d))
    g.set(u, 'sample.numChannels', nch)
    a, b = upto(g, 'from', total), upto(g, 'to', total)
    g.set(u, 'sample.offset', a)
    g.set(u, 'sample.end', b)
    n = ite(ult(a, b), sub(b, a), sub(a, b))
    if least:
        short = ult(n, c32(least))
        a, b = ite(short, Z32, a), ite(short, total, b)
        g.set(u, 'sample.offset', a)
        g.set(u, 'sample.end', b)
        n = ite(ult(a, b), sub(b, a), sub(a, b))
    g.set(u, 'sample.length', n)
    g.set(u, 'sample.frames', pv(fr, scale(U(ite(ult(a, b), a, b)), 2 * nch.data) if nch.op == 'c' else scale(mul(U(ite(ult(a, b), a, b)), U(nch)), 2)))
    p = g.sym('speed', 32, 1 << 12, 1 << 28)
    g.set(u, 'sample.period', ite(ult(b, a), sub(Z32, p), p))
    ph = g.sym('position', 32)
    g.set(u, 'phase.phase', ite(ult(ph, n), ph, Z32))
    return d, fr, nch, total


def foff(g, t, f):
    """offset of a field"""
    lay = layout_from_di(g.mod, g.vc.struct_layout(t)[1]) if g.sym_mode else g.struct_layout(t)[2]
    l = lay.names[f]
    return l.off if isinstance(l, Cell) else l.start + l.loff


def sustain(g, u, n):
    """a sustain range inside the sample, or none"""
    x, y = upto(g, 'sustainFrom', n), upto(g, 'sustainTo', n)
    so, se = ite(ult(y, x), y, x), ite(ult(y, x), x, y)
    g.set(u, 'sample.sustainOffset', so)
    g.set(u, 'sample.sustainEnd', se)
    f = g.sym('flags', 32)
    g.set(u, 'object.flags', ite(ult(so, se), bor(f, c32(RANGE_F)), band(f, c32(~RANGE_F))))
    return so, se


# ------------------------------------------------------------------ attributes of units
FIELDS = ('dutyCycle', 'waveform', 'phase.phase', 'phase.count', 'phase.wrap', 'phase.wrapCount', 'period', 'mute', 'sample.repeatMode', 'sample.period', 'object.flags')


def effect(g, u, attr, value, custom):
    """-> field -> value after setting attr"""
    f = {x: g.rd(u, x) for x in FIELDS}
    n = dict(f)
    if attr == 'DUTY_CYCLE':
        v = clamp(value, 1, 15)
        # a wider cycle which covers the current phase starts over
        n['phase.phase'] = ite(AND(eq(f['waveform'], c32(K['SQUARE'])), slt(f['dutyCycle'], v), ult(f['phase.phase'], v)), Z32, f['phase.phase'])
        n['dutyCycle'] = v
    elif attr == 'PHASE_WRAP':
        v = ite(eq(value, Z32), Z32, ite(slt(value, c32(2)), c32(2), value))
        n.update({'phase.phase': Z32, 'phase.wrap': v, 'phase.wrapCount': v})
    elif attr == 'PERIOD':
        n['period'] = ite(slt(value, Z32), sub(Z32, value), value)
    elif attr == 'MUTE':
        n['mute'] = ite(eq(value, Z32), Z32, ONE)
    elif attr == 'SAMPLE_REPEAT':
        n['sample.repeatMode'] = ite(AND(sle(Z32, value), sle(value, c32(2))), value, Z32)
    elif attr == 'SAMPLE_PERIOD':
        v = clamp(ite(slt(value, Z32), sub(Z32, value), value), 1 << 12, 1 << 28)
        n['sample.period'] = ite(slt(f['sample.period'], Z32), sub(Z32, v), v)
    elif attr == 'SAMPLE_IMMED_RELEASE':
        n['object.flags'] = ite(eq(value, Z32), band(f['object.flags'], c32(~JUMP_F)), bor(f['object.flags'], c32(JUMP_F)))
    return n


ATTRS = ['DUTY_CYCLE', 'PHASE_WRAP', 'PERIOD', 'MUTE', 'SAMPLE_REPEAT', 'SAMPLE_PERIOD', 'SAMPLE_IMMED_RELEASE']
READ = {'DUTY_CYCLE': 'dutyCycle', 'PHASE_WRAP': 'phase.wrap', 'PERIOD': 'period', 'MUTE': 'mute', 'SAMPLE_REPEAT': 'sample.repeatMode',
        'WAVEFORM': 'waveform', 'PHASE': 'phase.phase'}


def read_back(g, u, attr):
    out = g.arr('out', 4, 1)
    r = g.call('BKGetAttr', u, K[attr], out)
    return r, g.at(out, 'data', 0)


@goal('C27', functions=['BKUnitSetAttr', 'BKUnitGetAttr'], variants=[(a.lower(), {'attr': a}) for a in ATTRS])
def unit_attr(g, attr):
    """the value is brought into range and kept, is read back, and nothing else changes"""
    u = unit(g)
    g.range(u, 'dutyCycle', 1, 15)
    g.range(u, 'sample.period', -(1 << 28), 1 << 28)
    v = g.sym('value', 32, -(1 << 31) + 1, (1 << 31) - 1, signed=True)
    n = effect(g, u, attr, v, None)
    r = g.call('BKSetAttr', u, K[attr], v)
    g.ensure('ok', eq(r, Z32))
    for f in FIELDS:
        g.ensure('set-' + f, eq(g.rd(u, f), n[f]))
    g.frame(*[(u, f) for f in FIELDS])
    r, w = read_back(g, u, attr)
    p = n['sample.period']
    want = {'SAMPLE_PERIOD': ite(slt(p, Z32), sub(Z32, p), p), 'SAMPLE_IMMED_RELEASE': ite(eq(v, Z32), Z32, ONE)}.get(attr)
    g.ensure('read-back', AND(eq(r, Z32), eq(w, n[READ[attr]] if want is None else want)))


@goal('C27', functions=['BKUnitSetAttr', 'BKUnitGetAttr'])
def unit_volume(g):
    """every channel has its volume; setting all sets each"""
    u = unit(g)
    v = g.sym('value', 32, signed=True)
    i, k = g.sym('which', 32, 0, 8), g.sym('read', 32, 0, 7)
    a = ite(eq(i, c32(8)), c32(K['VOLUME']), add(c32(K['VOLUME_0']), i))
    v0 = g.rd(u, 'volume')
    r = g.call('BKSetAttr', u, a, v)
    g.ensure('ok', eq(r, Z32))
    w = clamp(v, 0, MAXV)
    for j in range(8):
        g.ensure('volume%d' % j, eq(g.at(u, 'volume', j), ite(OR(eq(i, c32(8)), eq(i, c32(j))), w, v0.select(bv(j, 64)))))
    g.frame((u, 'volume'))
    out = g.arr('out', 4, 1)
    r = g.call('BKGetAttr', u, add(c32(K['VOLUME_0']), k), out)
    g.ensure('read-back', AND(eq(r, Z32), eq(g.at(out, 'data', 0), g.rd(u, 'volume').select(U(k)))))


@goal('C27', functions=['BKUnitSetAttr', 'BKUnitGetAttr'])
def unit_waveform(g):
    """a waveform starts at its first phase, keeps going when it is set again, and gives up sample data; unknown ones are refused"""
    u = unit(g)
    v = g.sym('value', 32)
    w0, p0, c0 = g.rd(u, 'waveform'), g.rd(u, 'phase.phase'), g.rd(u, 'phase.count')
    known = OR(*[eq(v, c32(k)) for k in PHASES])
    g.ghost('unset', Z32)
    g.ghost('ok', TRUE)

    def setdata(g_, S, a):
        g_.gset(S, 'unset', add(g_.gget(S, 'unset'), ONE))
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), pv_eq(a[1], NULLP), pv_eq(g_.get(S, a[0], 'BKDataState', 'data'), g_.get(S, pv(u), 'BKUnit', 'sample.dataState.data'))))
        return Z32
    g.stub('BKDataStateSetData', setdata)
    r = g.call('BKSetAttr', u, K['WAVEFORM'], v)
    g.ensure('result', eq(r, ite(known, Z32, c32(K['INVALID_VALUE']))))
    g.ensure('waveform', eq(g.rd(u, 'waveform'), ite(known, v, w0)))
    g.ensure('phase', eq(g.rd(u, 'phase.phase'), ite(AND(known, ne(v, w0)), Z32, p0)))
    n = c0
    for k, c in PHASES.items():
        n = ite(eq(v, c32(k)), c32(c), n)
    g.ensure('phases', eq(g.rd(u, 'phase.count'), n))
    g.ensure('data-given-up', AND(g.gget(None, 'ok'), eq(g.gget(None, 'unset'), ite(known, ONE, Z32))))
    g.frame((u, 'waveform'), (u, 'phase.phase'), (u, 'phase.count'))
    r, w = read_back(g, u, 'WAVEFORM')
    g.ensure('read-back', AND(eq(r, Z32), eq(w, ite(known, v, w0))))


@goal('C27', functions=['BKUnitSetAttr', 'BKUnitGetAttr'], variants=[('waveform', {'smp': 0}), ('sample', {'smp': 1})])
def unit_phase(g, smp):
    """the phase stays inside the waveform or the sample; a negative phase restarts a sample at the end where it begins"""
    u = unit(g)
    v = g.sym('value', 32, signed=True)
    g.ghost('begin', Z32)
    if smp:
        sample(g, u, 1)
        n = g.rd(u, 'sample.length')
        back = ult(g.rd(u, 'sample.end'), g.rd(u, 'sample.offset'))

        def cb(g_, S, a):
            e = g_.get(S, a[0], 'BKCallbackInfo', 'event')
            g_.gset(S, 'begin', ite(AND(eq(e, c32(K['EV_SAMPLE_BEGIN'])), pv_eq(g_.get(S, a[0], 'BKCallbackInfo', 'object'), pv(u))), add(g_.gget(S, 'begin'), ONE), c32(99)))
            return g_.fresh('cbres', 32)
        has = g.symbool('hasCallback')
        g.set(u, 'sample.callback.func', pv_ite(has, g.callback('vt_cb_sample', cb), NULLP))
        want = ite(slt(v, Z32), ite(back, sub(n, ONE), Z32), ite(slt(v, n), v, sub(n, ONE)))
    else:
        n = g.range(u, 'phase.count', 2, 1 << 16)
        g.range(u, 'waveform', 0, K['CUSTOM'])
        want = clamp(v, Z32, sub(n, ONE))
        has = FALSE
    r = g.call('BKSetAttr', u, K['PHASE'], v)
    g.ensure('ok', eq(r, Z32))
    g.ensure('phase', eq(g.rd(u, 'phase.phase'), want))
    g.ensure('announced', eq(g.gget(None, 'begin'), ite(has, ONE, Z32)))
    g.frame((u, 'phase.phase'))
    r, w = read_back(g, u, 'PHASE')
    g.ensure('read-back', AND(eq(r, Z32), eq(w, want)))
    out = g.arr('out2', 4, 1)
    r = g.call('BKGetAttr', u, K['NUM_PHASES'], out)
    g.ensure('number-of-phases', AND(eq(r, Z32), eq(g.at(out, 'data', 0), n)))


@goal('C27', functions=['BKUnitSetAttr', 'BKUnitGetAttr'])
def unit_release(g):
    """releasing leaves the sustain range; with immediate release at the position behind it"""
    u = unit(g)
    sample(g, u, 2)
    n = g.rd(u, 'sample.length')
    so, se = sustain(g, u, n)
    v, f = g.sym('value', 32), g.rd(u, 'object.flags')
    has = ult(so, se)
    jump = AND(has, ne(v, Z32), ne(band(f, c32(JUMP_F)), Z32), eq(g.rd(u, 'mute'), Z32))
    back = slt(g.rd(u, 'sample.period'), Z32)
    p0 = g.rd(u, 'phase.phase')
    r = g.call('BKSetAttr', u, K['FLAG_RELEASE'], v)
    g.ensure('ok', eq(r, Z32))
    g.ensure('released', eq(g.rd(u, 'object.flags'), ite(has, bor(band(f, c32(~REL_F)), ite(eq(v, Z32), Z32, c32(REL_F))), f)))
    g.ensure('position', eq(g.rd(u, 'phase.phase'), ite(jump, ite(back, ite(eq(so, Z32), Z32, sub(so, ONE)), ite(ult(se, n), se, sub(n, ONE))), p0)))
    g.ensure('inside', IMP(ult(p0, n), ult(g.rd(u, 'phase.phase'), n)))
    g.frame((u, 'object.flags'), (u, 'phase.phase'))
    out = g.arr('out', 4, 1)
    r = g.call('BKGetAttr', u, K['FLAG_RELEASE'], out)
    g.ensure('read-back', AND(eq(r, Z32), eq(g.at(out, 'data', 0), ite(has, ite(eq(v, Z32), Z32, ONE), ite(eq(band(f, c32(REL_F)), Z32), Z32, ONE)))))


SETTABLE = ATTRS + ['WAVEFORM', 'PHASE', 'FLAG_RELEASE', 'VOLUME'] + ['VOLUME_%d' % i for i in range(8)]
READABLE = [a for a in SETTABLE if a != 'VOLUME'] + ['NUM_PHASES']


@goal('C27', functions=['BKUnitSetAttr', 'BKUnitGetAttr', 'BKUnitSetPtr', 'BKUnitGetPtr'], variants=[('set', {'how': 'BKSetAttr'}), ('get', {'how': 'BKGetAttr'}), ('setptr', {'how': 'BKSetPtr'}), ('getptr', {'how': 'BKGetPtr'})])
def unit_unknown(g, how):
    """attributes a unit does not have are refused and nothing changes"""
    u = unit(g)
    a = g.sym('attr', 32)
    out = g.arr('out', 8, 2)
    have = {'BKSetAttr': SETTABLE, 'BKGetAttr': READABLE, 'BKSetPtr': ['SAMPLE_CALLBACK', 'WAVEFORM', 'SAMPLE', 'SAMPLE_RANGE', 'SAMPLE_SUSTAIN_RANGE'],
            'BKGetPtr': ['SAMPLE_CALLBACK', 'SAMPLE', 'SAMPLE_RANGE', 'SAMPLE_SUSTAIN_RANGE']}[how]
    g.assume(AND(*[ne(a, c32(K[x])) for x in have]))
    args = {'BKSetAttr': (g.sym('value', 32),), 'BKGetAttr': (out,)}.get(how, (out, 16))
    r = g.call(how, u, a, *args)
    g.ensure('refused', eq(r, c32(K['INVALID_ATTRIBUTE'])))
    g.frame()


# ------------------------------------------------------------------ sample ranges
def pos(v, n):
    """negative positions count from the end (-1: behind the last frame)"""
    return clamp(ite(slt(v, Z32), add(v, add(n, ONE)), v), Z32, n)


@goal('C20', functions=['BKUnitSetPtr', 'BKUnitGetPtr'])
def unit_sample_range(g):
    """any range stays inside the frames, swapped bounds play backwards, and the position stays inside; the sustain range is cleared"""
    u = unit(g)
    d, fr, nch, total = sample(g, u)
    none = g.symbool('noRange')
    rng = g.arr('range', 4, 2)
    x, y = g.at(rng, 'data', 0), g.at(rng, 'data', 1)
    x, y = ite(none, Z32, x), ite(none, c32(-1), y)
    a, b = pos(x, total), pos(y, total)
    lo, n = ite(slt(b, a), b, a), ite(slt(b, a), sub(a, b), sub(b, a))
    p0, old, rc, f0 = g.rd(u, 'sample.period'), g.rd(u, 'phase.phase'), g.rd(u, 'sample.repeatCount'), g.rd(u, 'object.flags')
    o0, e0 = g.rd(u, 'sample.offset'), g.rd(u, 'sample.end')
    r = g.call('BKSetPtr', u, K['SAMPLE_RANGE'], pv_ite(none, NULLP, pv(rng)), 8)
    g.ensure('ok', eq(r, Z32))
    g.ensure('bounds', AND(eq(g.rd(u, 'sample.offset'), a), eq(g.rd(u, 'sample.end'), b)))
    g.ensure('length', eq(g.rd(u, 'sample.length'), n))
    g.ensure('frames', pv_eq(g.rd(u, 'sample.frames'), pv(fr, scale(mul(U(lo), U(nch)), 2))))
    ap = ite(slt(p0, Z32), sub(Z32, p0), p0)
    g.ensure('direction', eq(g.rd(u, 'sample.period'), ite(slt(b, a), sub(Z32, ap), ap)))
    ph = g.rd(u, 'phase.phase')
    g.ensure('position-inside', OR(ult(ph, n), AND(eq(n, Z32), eq(ph, Z32))))
    was = add(ite(ult(o0, e0), o0, e0), old)
    g.ensure('position-kept', IMP(AND(ne(rc, Z32), ule(lo, was), ult(was, add(lo, n))), eq(add(lo, ph), was)))
    g.ensure('position-restarts', IMP(AND(eq(rc, Z32), eq(old, Z32), ult(ONE, n), eq(o0, Z32)), eq(ph, ite(slt(b, a), sub(n, ONE), Z32))))
    g.ensure('no-sustain', AND(eq(g.rd(u, 'sample.sustainOffset'), Z32), eq(g.rd(u, 'sample.sustainEnd'), Z32), eq(g.rd(u, 'object.flags'), band(f0, c32(~RANGE_F)))))
    g.frame(*[(u, 'sample.' + x) for x in ('offset', 'end', 'length', 'frames', 'period', 'sustainOffset', 'sustainEnd')] + [(u, 'phase.phase'), (u, 'object.flags')])
    out = g.arr('out', 4, 2)
    r = g.call('BKGetPtr', u, K['SAMPLE_RANGE'], out, 8)
    g.ensure('read-back', AND(eq(r, Z32), eq(g.at(out, 'data', 0), a), eq(g.at(out, 'data', 1), b)))


@goal('C20', functions=['BKUnitSetPtr', 'BKUnitGetPtr'])
def unit_sustain_range(g):
    """a sustain range is sorted and inside the sample; an empty one switches sustaining off"""
    u = unit(g)
    d, fr, nch, total = sample(g, u)
    n = g.rd(u, 'sample.length')
    none = g.symbool('noRange')
    rng = g.arr('range', 4, 2)
    x, y = g.at(rng, 'data', 0), g.at(rng, 'data', 1)
    none_ = OR(none, eq(x, y))
    a, b = ite(none_, Z32, pos(x, n)), ite(none_, Z32, pos(y, n))
    lo, hi = ite(slt(b, a), b, a), ite(slt(b, a), a, b)
    f0 = g.rd(u, 'object.flags')
    r = g.call('BKSetPtr', u, K['SAMPLE_SUSTAIN_RANGE'], pv_ite(none, NULLP, pv(rng)), 8)
    g.ensure('ok', eq(r, Z32))
    g.ensure('range', AND(eq(g.rd(u, 'sample.sustainOffset'), lo), eq(g.rd(u, 'sample.sustainEnd'), hi)))
    g.ensure('active', eq(g.rd(u, 'object.flags'), ite(eq(lo, hi), band(f0, c32(~RANGE_F)), bor(f0, c32(RANGE_F)))))
    g.frame((u, 'sample.sustainOffset'), (u, 'sample.sustainEnd'), (u, 'object.flags'))
    out = g.arr('out', 4, 2)
    r = g.call('BKGetPtr', u, K['SAMPLE_SUSTAIN_RANGE'], out, 8)
    g.ensure('read-back', AND(eq(r, Z32), eq(g.at(out, 'data', 0), lo), eq(g.at(out, 'data', 1), hi)))


@goal('C20', functions=['BKUnitSetPtr'])
def unit_range_refused(g):
    """units which do not play a sample have no ranges"""
    u = unit(g)
    w = g.rd(u, 'waveform')
    g.assume(ne(w, c32(K['SAMPLE'])))
    rng = g.arr('range', 4, 2)
    a = ite(g.symbool('sustain'), c32(K['SAMPLE_SUSTAIN_RANGE']), c32(K['SAMPLE_RANGE']))
    r = g.call('BKSetPtr', u, a, rng, 8)
    g.ensure('refused', eq(r, c32(K['INVALID_STATE'])))
    g.frame()


@goal('C27', functions=['BKUnitSetPtr', 'BKUnitGetPtr'])
def unit_callback(g):
    """a callback is copied or removed"""
    u = unit(g)
    cb = g.obj('callback', 'BKCallback')
    h = g.callback('vt_cb_sample', lambda g_, S, a: Z32)
    g.set(cb, 'func', h)
    none = g.symbool('none')
    info = g.rd(cb, 'userInfo')
    r = g.call('BKSetPtr', u, K['SAMPLE_CALLBACK'], pv_ite(none, NULLP, pv(cb)), 16)
    g.ensure('ok', eq(r, Z32))
    g.ensure('function', pv_eq(g.rd(u, 'sample.callback.func'), pv_ite(none, NULLP, h)))
    g.ensure('info', pv_eq(g.rd(u, 'sample.callback.userInfo'), pv_ite(none, NULLP, info)))
    g.frame((u, 'sample.callback'))


# ------------------------------------------------------------------ attaching
@goal('C07', functions=['BKUnitAttach'])
def unit_attach(g):
    """a detached unit becomes the last one, at the time of the context; an attached one is refused"""
    ctx = g.obj('ctx', 'BKContext')
    L = g.lst('units', 'BKUnit', 'nextUnit', 'prevUnit')
    g.set(ctx, 'firstUnit', L.first())
    g.set(ctx, 'lastUnit', L.last())
    u = unit(g)
    att = g.symbool('attached')
    other = g.obj('other', 'BKContext')
    g.set(u, 'ctx', pv_ite(att, pv(other), NULLP))
    n = L.count
    t = g.rd(ctx, 'deltaTime')
    last = sub(n, bv(1, 64))
    r = g.call('BKUnitAttach', u, ctx)
    free = NOT(att)
    g.ensure('result', eq(r, ite(att, c32(K['INVALID_STATE']), Z32)))
    g.ensure('context', pv_eq(g.rd(u, 'ctx'), pv_ite(att, pv(other), pv(ctx))))
    g.ensure('time', IMP(free, eq(g.rd(u, 'time'), t)))
    g.ensure('last', pv_eq(g.rd(ctx, 'lastUnit'), pv_ite(att, L.last(), pv(u))))
    g.ensure('first', pv_eq(g.rd(ctx, 'firstUnit'), pv_ite(AND(free, eq(n, bv(0, 64))), pv(u), L.first())))
    g.ensure('links', IMP(free, AND(pv_eq(g.rd(u, 'prevUnit'), L.last()), pv_eq(g.rd(u, 'nextUnit'), NULLP))))
    nx = g.rd(L.region, 'nextUnit')
    g.forall('list', n, lambda i: pv_eq(nx.select(i), pv_ite(AND(free, eq(i, last)), pv(u), L.at(add(i, bv(1, 64))))))
    g.frame((u, 'ctx'), (u, 'time'), (u, 'prevUnit'), (u, 'nextUnit'), (ctx, 'firstUnit'), (ctx, 'lastUnit'), (L.region, 'nextUnit'))
    g.ensure('refused-unchanged', IMP(att, AND(eq(g.rd(u, 'time'), g.pre(u, 'time')), pv_eq(g.rd(u, 'prevUnit'), g.pre(u, 'prevUnit')), pv_eq(g.rd(u, 'nextUnit'), g.pre(u, 'nextUnit')))))


@goal('C07', functions=['BKUnitDetach', 'BKDispose'], variants=[('detach', {'how': 'BKUnitDetach'}), ('dispose', {'how': 'BKDispose'})])
def unit_detach(g, how):
    """a unit at any place is taken out of the list, the others stay in order; a detached unit is left alone"""
    ctx = g.obj('ctx', 'BKContext')
    A = g.lst('before', 'BKUnit', 'nextUnit', 'prevUnit')
    B_ = g.lst('after', 'BKUnit', 'nextUnit', 'prevUnit')
    u = unit(g)
    g.set(u, 'object.flags', c32(1 << 24))
    na, nb = A.count, B_.count
    one = bv(1, 64)
    att = g.symbool('attached')
    z = bv(0, 64)
    first = lambda L, e: pv_ite(eq(L.count, z), e, L.first())
    g.set(A.region, 'nextUnit', Arr('fn', lambda i: pv_ite(eq(add(i, one), na), pv(u), A.at(add(i, one))), 'p'))
    g.set(B_.region, 'prevUnit', Arr('fn', lambda i: pv_ite(eq(i, z), pv(u), B_.before(i)), 'p'))
    g.set(u, 'prevUnit', A.last())
    g.set(u, 'nextUnit', B_.first())
    g.set(u, 'ctx', pv_ite(att, pv(ctx), NULLP))
    g.set(ctx, 'firstUnit', first(A, pv(u)))
    g.set(ctx, 'lastUnit', pv_ite(eq(nb, z), pv(u), B_.last()))
    g.ghost('data', Z32)

    def setdata(g_, S, a):
        g_.gset(S, 'data', ite(pv_eq(a[1], NULLP), add(g_.gget(S, 'data'), ONE), c32(99)))
        return Z32
    if how == 'BKDispose':
        g.stub('BKDataStateSetData', setdata)
    g.call(how, u)
    g.ensure('first', IMP(att, pv_eq(g.rd(ctx, 'firstUnit'), pv_ite(eq(na, z), B_.first(), A.first()))))
    g.ensure('last', IMP(att, pv_eq(g.rd(ctx, 'lastUnit'), pv_ite(eq(nb, z), A.last(), B_.last()))))
    g.ensure('left-alone', IMP(NOT(att), AND(pv_eq(g.rd(ctx, 'firstUnit'), g.pre(ctx, 'firstUnit')), pv_eq(g.rd(ctx, 'lastUnit'), g.pre(ctx, 'lastUnit')))))
    nx, pr = g.rd(A.region, 'nextUnit'), g.rd(B_.region, 'prevUnit')
    g.forall('next', na, lambda i: IMP(att, pv_eq(nx.select(i), pv_ite(eq(add(i, one), na), B_.first(), A.at(add(i, one))))))
    g.forall('previous', nb, lambda i: IMP(att, pv_eq(pr.select(i), pv_ite(eq(i, z), A.last(), B_.before(i)))))
    if how == 'BKDispose':
        g.ensure('data-unset', eq(g.gget(None, 'data'), ONE))
        zeroed(g, pv(u), 'BKUnit', TRUE)
        g.frame((ctx, 'firstUnit'), (ctx, 'lastUnit'), (A.region, 'nextUnit'), (B_.region, 'prevUnit'), u)
    else:
        g.ensure('detached', pv_eq(g.rd(u, 'ctx'), NULLP))
        g.frame((ctx, 'firstUnit'), (ctx, 'lastUnit'), (A.region, 'nextUnit'), (B_.region, 'prevUnit'), (u, 'ctx'), (u, 'time'), (u, 'prevUnit'), (u, 'nextUnit'))


@goal('C07', functions=['BKContextAttachDivider'])
def attach_divider(g):
    """dividers are attached to the effect or beat group of the context once its clock has a period; otherwise nothing changes"""
    ctx = g.obj('ctx', 'BKContext')
    div = g.obj('divider', 'BKDivider')
    t = g.sym('type', 32)
    per = g.rd(ctx, 'masterClock.period')
    res = g.sym('attachResult', 32, signed=True)
    g.ghost('group', NULLP)
    g.ghost('attach', Z32)
    g.ghost('ok', TRUE)

    def to_group(g_, S, a):
        g_.gset(S, 'group', a[1])
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), pv_eq(a[0], pv(div)), eq(g_.gget(S, 'attach'), Z32)))
        return res

    def clk(g_, S, a):
        g_.gset(S, 'attach', add(g_.gget(S, 'attach'), ONE))
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), pv_eq(a[1], pv(ctx)), pv_eq(a[2], g.pre(ctx, 'firstClock')), pv_eq(a[0], pv(ctx, bv(foff(g, 'BKContext', 'masterClock.object.flags'), 64)))))
        return Z32
    g.stub('BKDividerAttachToGroup', to_group)
    g.stub('BKClockAttach', clk)
    r = g.call('BKContextAttachDivider', ctx, div, t)
    known = OR(eq(t, Z32), eq(t, ONE))
    done = AND(known, slt(bv(0, 64), per))
    ok = AND(done, NOT(slt(res, Z32)))
    grp = pv_ite(eq(t, Z32), pv(ctx, bv(foff(g, 'BKContext', 'effectDividers.firstDivider'), 64)), pv(ctx, bv(foff(g, 'BKContext', 'beatDividers.firstDivider'), 64)))
    g.ensure('result', eq(r, ite(known, ite(done, ite(slt(res, Z32), res, Z32), c32(K['INVALID_VALUE'])), c32(K['INVALID_ATTRIBUTE']))))
    g.ensure('group', pv_eq(g.gget(None, 'group'), pv_ite(done, grp, NULLP)))
    g.ensure('clock', AND(g.gget(None, 'ok'), eq(g.gget(None, 'attach'), ite(ok, ONE, Z32))))
    g.frame()


# ------------------------------------------------------------------ playing a sample
N = 8
FR = 1 << 20


def X(t):
    return sext(t, 64)


def norm(x, n):
    """x modulo n, for positive and negative x"""
    r = srem(x, n)
    return ite(slt(r, Z32), add(r, n), r)


RUN = [('mono', {'multi': 0})] + [('channels%d' % n, {'multi': n}) for n in (2,)]


@goal('C20', functions=['BKUnitRun'], variants=RUN, cand_ms=20000, exec_limit=600)
def unit_run_sample(g, multi):
    """every channel hears the frames of the range at the speed of the sample; sustaining, repeating, turning and stopping
    happen exactly at the ends"""
    g.usual(unit__time=(0, 1 << 20), endTime=(1 << 18, (4 << 20) - 1), data__numFrames=(2, 8), unit__sample__repeatMode=(0, 3), modes__data=(0, 3),
            speed=(1 << 16, 5 << 20), ctx__numChannels=(1, 2), unit__mute=(0, 0))
    u = unit(g)
    d, fr, nch, total = sample(g, u, 2, multi or 1)
    n = g.rd(u, 'sample.length')
    so, se = sustain(g, u, n)
    ctx = g.obj('ctx', 'BKContext')
    ch = g.structs('channels', 'BKBuffer', N)
    if multi:
        g.set(ctx, 'numChannels', multi)
        nc = c32(multi)
    else:
        nc = g.range(ctx, 'numChannels', 1, N)
        g.bound(nc, 2)
    g.set(ctx, 'channels', pv(ch))
    g.set(u, 'ctx', pv(ctx))
    per = g.range(u, 'period', 1)
    end = g.sym('endTime', 32, 0, 1 << 30)
    t0 = g.range(u, 'time', 0, 1 << 30)
    g.bound(lshr(end, bv(20, 32)), 3)
    f0 = g.range(u, 'sample.timeFrac', 0, FR - 1)
    g.arange(u, 'volume', 0, MAXV)
    vol, last0 = g.rd(u, 'volume'), g.rd(u, 'lastPulse')
    frames = g.rd(fr, 'data')
    lo = ite(ult(g.rd(u, 'sample.offset'), g.rd(u, 'sample.end')), g.rd(u, 'sample.offset'), g.rd(u, 'sample.end'))
    muted = ne(g.rd(u, 'mute'), Z32)
    flags = g.rd(u, 'object.flags')
    hold = AND(ult(so, se), eq(band(flags, c32(REL_F)), Z32))
    rc0, per0, ph0 = g.rd(u, 'sample.repeatCount'), g.rd(u, 'sample.period'), g.rd(u, 'phase.phase')
    modes = g.arr('modes', 4, 64, signed=False)
    MODES = g.rd(modes, 'data')
    has = g.symbool('hasCallback')
    c = upto(g, 'channel', sub(nc, ONE))
    bsize = g.struct_size('BKBuffer')
    silent = OR(muted, ult(n, c32(2)))
    other = g.sym('other', 64, 0, N - 1)       # a channel the context does not have

    def level(ph, i):
        x = add(scale(U(add(lo, ph)), multi or 1), U(i) if multi else bv(0, 64))
        return ashr(mul(sext(frames.select(x), 32), vol.select(U(i))), bv(15, 32))

    NAMES = ('t', 'ph', 'frac', 'per', 'rc', 'halt', 'l')

    def step(q):
        """position after a frame"""
        t, ph, frac, p, rc, halt, l = q
        s = add(frac, p)
        x = add(ph, ashr(s, bv(20, 32)))
        fw = slt(Z32, p)
        x = ite(hold, ite(fw, ite(sle(se, x), so, x), ite(slt(x, so), sub(se, ONE), x)), x)
        out = OR(slt(x, Z32), sle(n, x))
        m = ite(has, MODES.select(U(band(rc, c32(63)))), g.pre(u, 'sample.repeatMode'))
        w = norm(x, n)
        rep, pal = eq(m, c32(K['REPEAT'])), eq(m, c32(K['PALINDROME']))
        turned = ite(fw, sub(sub(n, w), ONE), ite(eq(w, Z32), sub(n, ONE), sub(n, w)))
        ap = ite(slt(p, Z32), sub(Z32, p), p)
        nph = ite(out, ite(pal, turned, w), x)
        np_ = ite(AND(out, OR(rep, pal)), ite(IFF(fw, rep), ap, sub(Z32, ap)), p)
        hl = AND(out, NOT(OR(rep, pal)))
        return (ite(hl, t, add(t, c32(FR))), nph, band(s, c32(FR - 1)), np_, ite(out, add(rc, ONE), rc), ite(hl, ONE, halt), l), out

    # the step as named functions of the position; their definition is used where a frame begins
    fn = lambda j: lambda *q: step(q + (Z32,))[0][j]
    STEP = [g.fun('step_' + x, 32, lambda *q: TRUE, fn(j), None) for j, x in enumerate(NAMES[:6])]
    for k, v in zip(NAMES, (t0, ph0, f0, per0, rc0, Z32, last0.select(U(c)))):
        g.ghost(k, v)
    g.ghost('ok', TRUE)
    g.ghost('ended', Z32)
    G = lambda S: tuple(g.gget(S, x) for x in NAMES)

    def chan(q):
        idx, hit = Z32, FALSE
        for gd, b, o in q.ts:
            if b is ch and o.op == 'lin' and o.data[0] == 0 and list(o.data[1]) == [bsize]:
                x = o.args[0]
                idx, hit = ite(gd, trunc(x, 32), idx), OR(hit, AND(gd, ult(x, bv(N, 64))))
            elif b is ch:
                for i in range(N):
                    h = AND(gd, eq(o, bv(i * bsize, 64)))
                    idx, hit = ite(h, bv(i, 32), idx), OR(hit, h)
        return idx, hit

    def pulse(g_, S, a):
        i, hit = chan(a[0])
        on = eq(i, c)
        q = G(S)
        want = level(q[1], c)
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), hit, ult(i, nc), NOT(muted), IMP(on, AND(ult(q[0], end), eq(q[5], Z32), eq(a[1], add(q[0], q[2])), eq(a[2], sub(want, q[6]))))))
        nx = tuple(F_(*q[:6]) for F_ in STEP) + (want,)
        for x, old, new in zip(NAMES, q, nx):
            g.gset(S, x, ite(on, new, old))
    g.stub('BKBufferAddPulse', pulse)

    def bend(g_, S, a):
        i, hit = chan(a[0])
        m = g.gget(S, 'ended')
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), hit, ult(i, nc), eq(a[1], end), eq(band(m, shl(ONE, i)), Z32)))
        g.gset(S, 'ended', bor(m, shl(ONE, i)))
        return Z32
    g.stub('BKBufferEnd', bend)

    def cb(g_, S, a):
        e = g_.get(S, a[0], 'BKCallbackInfo', 'event')
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), eq(e, c32(K['EV_SAMPLE_RESET'])), pv_eq(g_.get(S, a[0], 'BKCallbackInfo', 'object'), pv(u))))
        return MODES.select(U(band(g_.get(S, pv(u), 'BKUnit', 'sample.repeatCount'), c32(63))))
    g.set(u, 'sample.callback.func', pv_ite(has, g.callback('vt_cb_sample', cb), NULLP))
    CELLS = [('phase.phase', 'ph'), ('sample.timeFrac', 'frac'), ('sample.period', 'per'), ('sample.repeatCount', 'rc')]

    def cands(L):
        out = []
        ps = [(x, lambda V, x=x: V.phis[x]) for x in L.other + list(L.steps)]
        ps = [(x, f) for x, f in ps if not isinstance(L.phis[x], PV) and L.phis[x].w == 32]
        k32 = lambda V: trunc(V.k, 32)
        if L.changes('ok'):
            out.append(('ok', lambda V: V.ghost('ok')))
        if L.changes('ended'):
            out.append(('ended', lambda V: eq(V.ghost('ended'), sub(shl(ONE, k32(V)), ONE))))
        elif L.changes('t'):
            out.append(('level', lambda V: eq(V.rd(u, 'lastPulse').select(U(c)), V.ghost('l'))))
            out.append(('others', lambda V: OR(ult(other, U(nc)), eq(V.rd(u, 'lastPulse').select(other), last0.select(other)))))
            if L.changes((u, 'sample.timeFrac')):
                # over time
                out.append(('halted', lambda V: eq(V.ghost('halt'), Z32)))
                out.append(('in', lambda V: ult(V.rd(u, 'phase.phase'), n)))
                out.append(('mute', lambda V: eq(V.rd(u, 'mute'), Z32)))
                out.append(('speed', lambda V: OR(eq(V.rd(u, 'sample.period'), per0), eq(V.rd(u, 'sample.period'), sub(Z32, per0)))))
                out.append(('frac', lambda V: ult(V.rd(u, 'sample.timeFrac'), c32(FR))))
                for f, x in CELLS:
                    out.append((f, lambda V, f=f, x=x: eq(V.rd(u, f), V.ghost(x))))
                for x, f in ps:
                    out.append((x + '-time', lambda V, f=f: eq(f(V), V.ghost('t'))))
                    out.append((x + '-most', lambda V, f=f: ult(f(V), c32((1 << 30) + FR))))
                    out.append((x + '-least', lambda V, f=f: ule(t0, f(V))))
                    out.append((x + '-count', lambda V, f=f: ule(V.k, U(f(V)))))

                def unfold(V):
                    if V.k.op == 'v':
                        for F_ in STEP:
                            F_.unfold(*[V.ghost(y) for y in NAMES[:6]])
                    return ult(V.ghost('frac'), c32(FR))
                out.append(('unfold', unfold))
            else:
                # over the channels of a frame
                E = lambda V, x: (V.entry or V.st).ghost[x]
                for j, x in enumerate(NAMES[:6]):
                    out.append(('stepped-' + x, lambda V, j=j, x=x: eq(V.ghost(x), ite(ult(c, k32(V)), STEP[j](*[E(V, y) for y in NAMES[:6]]), E(V, x)))))
                out.append(('stepped-l', lambda V: eq(V.ghost('l'), ite(ult(c, k32(V)), level(E(V, 'ph'), c), E(V, 'l')))))
        elif L.changes((u, 'phase.phase')):
            # wrapping
            at = lambda V, e: g.rd(u, 'phase.phase', (V.entry or V.st)) if e else V.rd(u, 'phase.phase')

            def wraps(V):
                x, x0 = at(V, 0), at(V, 1)
                if V.k.op == 'v':
                    lemma_norm(g, x, n)
                return eq(norm(x, n), norm(x0, n))
            out.append(('wrap', wraps))
            out.append(('falls', lambda V: ule(V.k, X(sub(at(V, 1), at(V, 0))))))
            out.append(('rises', lambda V: ule(V.k, X(sub(at(V, 0), at(V, 1))))))
            out.append(('down', lambda V: AND(slt(c32(-1), at(V, 0)), sle(at(V, 0), at(V, 1)))))
            out.append(('up', lambda V: AND(slt(at(V, 0), n), sle(at(V, 1), at(V, 0)))))
        return out
    g.cands(cands)
    r = g.call('BKUnitRun', u, end)
    q = G(None)
    g.ensure('pulses', g.gget(None, 'ok'))
    g.ensure('all-pulses', OR(silent, ne(q[5], Z32), ule(end, q[0])))
    g.ensure('all-channels-ended', eq(g.gget(None, 'ended'), sub(shl(ONE, nc), ONE)))
    for f, x in CELLS:
        g.ensure(f, eq(g.rd(u, f), q[NAMES.index(x)]))
    g.ensure('position-inside', ult(g.rd(u, 'phase.phase'), n))
    g.ensure('level', eq(g.rd(u, 'lastPulse').select(U(c)), q[6]))
    g.ensure('time', eq(g.rd(u, 'time'), ite(OR(silent, ult(q[0], end)), ite(ult(t0, end), end, ite(silent, end, t0)), q[0])))
    g.ensure('stopped', eq(g.rd(u, 'mute'), ite(ne(q[5], Z32), ONE, g.pre(u, 'mute'))))
    g.ensure('other-levels', OR(ult(other, U(nc)), eq(g.rd(u, 'lastPulse').select(other), last0.select(other))))
    g.ensure('result', eq(r, Z32))
    g.frame((u, 'lastPulse'), (u, 'time'), (u, 'mute'), *[(u, f) for f, x in CELLS])


def lemma_norm(g, x, n):
    """arithmetic (checked by Lean, tools/lemmas): adding or taking off n does not change the remainder"""
    big = c32(1 << 30)
    if g.sym_mode:
        for y in (sub(x, n), add(x, n)):
            pass
        g.fact(IMP(AND(slt(Z32, n), slt(n, big), sle(n, x)), eq(norm(sub(x, n), n), norm(x, n))))
        g.fact(IMP(AND(slt(Z32, n), slt(n, big), slt(x, Z32), slt(sub(Z32, big), x)), eq(norm(add(x, n), n), norm(x, n))))
        g.fact(IMP(AND(slt(Z32, n), sle(Z32, x), slt(x, n)), eq(norm(x, n), x)))
        g.fact(IMP(slt(Z32, n), AND(sle(Z32, norm(x, n)), slt(norm(x, n), n))))
