"""Contracts of data objects: their frames, and the list of states which use them."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal
from irv.loops import Inv
from contracts.consts import K
from contracts.c_object import zeroed
from contracts.c_attrs import c32, U, clamp

Z32, ONE = bv(0, 32), bv(1, 32)
Z64_, ONE64 = bv(0, 64), bv(1, 64)
COPY, LOCKED, INITED = 1 << 16, 1 << 26, 1 << 24
RESET, DISPOSE = 0, 1


def index_of(L, p):
    for gd, b, o in p.ts:
        if b is L.region:
            return udiv(o, bv(L.size, 64))
    return bv(1 << 40, 64)


def when(g, c, f):
    """c implies f(); natively f is only evaluated if it is needed"""
    return IMP(c, f()) if g.sym_mode else (f() if c is TRUE else TRUE)


def data(g, name='data'):
    d = g.obj(name, 'BKData')
    g.set(d, 'object.isa', pv(g.glob('BKDataClass')))
    return d


class States(object):
    """a list of any length of states using the data; each wants to be told or not, and answers anything"""

    def __init__(s, g, d, event, chain=None):
        s.g, s.d, s.event = g, d, event
        L = s.L = g.lst('states', 'BKDataState', 'nextState')
        n = s.n = L.count
        s.R = L.region
        g.set(d, 'stateList', L.first())
        s.want = g.rd(g.arr('wants', 1, n), 'data')
        s.res = g.rd(g.arr('answers', 4, n), 'data')
        has = lambda i: ne(band(s.want.select(i), bv(1, 8)), bv(0, 8))
        s.has = has
        s.keep = lambda i: OR(NOT(has(i)), sle(Z32, s.res.select(i))) if event == RESET else FALSE
        g.ghost('called', fill_arr(Z32, 32))
        g.ghost('last', Z64_)
        g.ghost('ok', TRUE)

        def cb(g_, S, a):
            i = index_of(L, a[1])
            good = AND(g_.gget(S, 'ok'), eq(a[0], c32(event)), ule(g_.gget(S, 'last'), i), ult(i, n), s.extra(S))
            g_.gset(S, 'ok', good)
            g_.gset(S, 'last', add(i, ONE64))
            c = g_.gget(S, 'called')
            g_.gset(S, 'called', c.store(i, add(c.select(i), ONE)))
            return s.res.select(i)
        f = g.callback('vt_cb_state', cb, (32, 'p'), 32)
        g.set(s.R, 'callback', Arr('fn', lambda i: pv_ite(has(i), f, NULLP), 'p'))
        g.set(s.R, 'callbackUserInfo', Arr('fn', lambda i: pv(s.R, scale(i, L.size)), 'p'))
        g.set(s.R, 'data', Arr('fill', pv(d), 'p'))
        j = s.j = g.sym('observed', 64, 0, 1 << 20)
        kp = s.keep

        def nx(k, v):
            return ite(OR(ule(k, j), AND(eq(v, k), NOT(kp(k)))), add(k, ONE64), v)
        s.NK = g.rec('next_kept', 64, Z64_, nx)
        s.FK = g.rec('first_kept', 64, Z64_, lambda k, v: ite(AND(eq(v, k), NOT(kp(k))), add(k, ONE64), v))

    def extra(s, S):
        return TRUE

    def inv(s, more=lambda V: {}):
        g, R, L, n, j, kp = s.g, s.R, s.L, s.n, s.j, s.keep
        NK, FK = s.NK, s.FK

        def arrays(V):
            if R not in [b for v in V.phis.values() if isinstance(v, PV) for _, b, _o in v.ts]:
                return more(V)
            d = {(R, 'data'): lambda V: (lambda i: pv_ite(AND(ult(i, V.k), NOT(kp(i))), NULLP, pv(s.d))),
                 (s.d, 'stateList'): lambda V: L.at(FK.at(V.k)),
                 'called': lambda V: (lambda i: ite(AND(ult(i, V.k), s.has(i)), ONE, Z32))}

            def next_(V):
                nk = NK.at(V.k)
                return lambda i: pv_ite(ule(V.k, i), L.at(add(i, ONE64)), pv_ite(kp(j), L.at(nk), NULLP))

            def pred(V):
                D = next_(V)
                return lambda i, v: OR(AND(ult(i, V.k), ne(i, j)), pv_eq(v, D(i)))
            d[(R, 'nextState')] = Inv(pred, next_, L)
            return d
        g.arrays(arrays)

        def cands(Lp):
            if Lp.k.op == 'v':
                NK.unfold(Lp.k)
                FK.unfold(Lp.k)
            out = [('ok', lambda V: V.ghost('ok')), ('last', lambda V: ule(V.ghost('last'), V.k))]
            out += [('!nk', lambda V: ule(NK.at(V.k), V.k)), ('!fk', lambda V: ule(FK.at(V.k), V.k)),
                    ('!nk=k', lambda V: IMP(ule(V.k, add(j, ONE64)), eq(NK.at(V.k), V.k))),
                    ('!nk>j', lambda V: IMP(ult(j, V.k), ult(j, NK.at(V.k)))),
                    ('!fk<=j', lambda V: IMP(AND(ult(j, V.k), kp(j)), ule(FK.at(V.k), j)))]
            if s.event == DISPOSE:
                out.append(('!none', lambda V: eq(FK.at(V.k), V.k)))
            for p in Lp.lasts:
                out += [(p + '.j', lambda V, p=p: IMP(AND(ult(j, V.k), kp(j)), IFF(eq(V.idx(p), add(j, ONE64)), eq(NK.at(V.k), V.k)))),
                        (p + '.dropped', lambda V, p=p: IMP(NOT(kp(j)), ne(V.idx(p), add(j, ONE64)))),
                        (p + '.first', lambda V, p=p: IFF(eq(V.idx(p), Z64_), eq(FK.at(V.k), V.k)))]
            return out
        g.cands(cands)

    def check(s, told=TRUE):
        """told: the event happened"""
        g, R, L, n, j, kp = s.g, s.R, s.L, s.n, s.j, s.keep
        g.ensure('states.told-in-order', g.gget(None, 'ok'))
        C = g.gget(None, 'called')
        g.forall('states.told-once', n, lambda i: eq(C.select(i), ite(AND(told, s.has(i)), ONE, Z32)))
        g.ensure('states.first', IMP(told, pv_eq(g.rd(s.d, 'stateList'), L.at(s.FK.at(n)))))
        D = g.rd(R, 'data')
        g.forall('states.data', n, lambda i: pv_eq(D.select(i), pv_ite(OR(NOT(told), kp(i)), pv(s.d), NULLP)))
        if g.sym_mode or j.data < n.data:
            g.ensure('states.next', IMP(ult(j, n), pv_eq(g.rd(R, 'nextState').select(j), pv_ite(told, pv_ite(kp(j), L.at(s.NK.at(n)), NULLP), L.at(add(j, ONE64))))))
        else:
            g.ensure('states.next', TRUE)
        return [(s.d, 'stateList'), (R, 'data'), (R, 'nextState')]


@goal('C19', functions=['BKDataDetach', 'BKDispose'], variants=[('detach', {'how': 'BKDataDetach'}), ('dispose', {'how': 'BKDispose'})])
def data_detach(g, how):
    """every state is told once, in order, and is empty afterwards; own frames are given back, those of others are not"""
    d = data(g)
    g.set(d, 'object.flags', INITED)
    s = States(g, d, DISPOSE)
    s.inv()
    g.call(how, d)
    ex = s.check()
    g.ensure('list-empty', pv_eq(g.rd(d, 'stateList'), NULLP))
    if how == 'BKDispose':
        zeroed(g, pv(d), 'BKData', TRUE)
        g.frame(d, *ex)
    else:
        g.ensure('unlocked', eq(g.rd(d, 'object.flags'), c32(INITED)))
        g.frame(*ex)


def frames(g, d, name='frames', copy=None):
    """2 or more frames of 1 to 8 channels, owned by the data or not"""
    nf = g.range(d, 'numFrames', 2, 1 << 20)
    nc = g.range(d, 'numChannels', 1, 8)
    g.bound(nf, 6)
    g.bound(nc, 2)
    fr = g.arr(name, 2, mul(U(nf), U(nc)))
    g.set(d, 'frames', pv(fr))
    own = g.symbool('owned')
    g.set(d, 'object.flags', bor(c32(INITED), ite(own, c32(COPY), Z32)))
    return fr, nf, nc, own


@goal('C19', functions=['BKDataSetFrames'], variants=[('copy', {'copy': 1}), ('use', {'copy': 0})])
def data_set_frames(g, copy):
    """frames are copied or used in place; own frames are given back; states are told; refused or failed requests change nothing"""
    d = data(g)
    old, nf0, nc0, own = frames(g, d, 'old')
    s = States(g, d, RESET)
    n = g.sym('numFrames', 32, 0, 1 << 20)
    nc = g.sym('numChannels', 32, 0, 12)
    g.bound(n, 6)
    count = mul(U(n), U(nc))
    fr = g.arr('frames', 2, count)
    null = g.symbool('null') if not copy else FALSE
    s.extra = lambda S: AND(eq(g.get(S, pv(d), 'BKData', 'numFrames'), n), eq(g.get(S, pv(d), 'BKData', 'numChannels'), nc))
    s.inv()
    r = g.call('BKDataSetFrames', d, pv_ite(null, NULLP, pv(fr)), n, nc, copy)
    short, bad = ult(n, c32(2)), OR(eq(nc, Z32), ult(c32(8), nc))
    done = eq(r, Z32)
    g.ensure('refused', IMP(OR(short, bad), eq(r, ite(short, c32(K['INVALID_NUM_FRAMES']), c32(K['INVALID_NUM_CHANNELS'])))))
    g.ensure('result', IMP(NOT(OR(short, bad)), OR(done, eq(r, c32(-1)))))
    if not copy:
        g.ensure('accepted', IMP(NOT(OR(short, bad, null)), done))
    for f in ('frames', 'stateList', 'numFrames', 'numChannels', 'numBits', 'object.flags'):
        a, b = g.rd(d, f), g.pre(d, f)
        g.ensure('failed-unchanged.' + f, IMP(NOT(done), pv_eq(a, b) if isinstance(a, PV) else eq(a, b)))
    g.ensure('dimensions', IMP(done, AND(eq(g.rd(d, 'numFrames'), n), eq(g.rd(d, 'numChannels'), nc), eq(g.rd(d, 'numBits'), c32(16)))))
    g.ensure('owner', IMP(done, eq(g.rd(d, 'object.flags'), bor(c32(INITED), c32(COPY if copy else 0)))))
    g.ensure('old-frames-given-back', IFF(g.freed(old), AND(done, own)))
    p = g.rd(d, 'frames')
    if copy:
        F = g.rd(fr, 'data')
        g.ensure('own-frames', IMP(done, NOT(pv_eq(p, pv(fr)))))
        g.forall('copied', count, lambda i: when(g, done, lambda: eq(g.load(pv_add(p, scale(i, 2)), 16), F.select(i))))
        g.no_leak('no-leak', p)
    else:
        g.ensure('used', IMP(done, pv_eq(p, pv(fr))))
    ex = s.check(done)
    g.frame((old, ''), ('freed', old), (d, 'frames'), (d, 'numFrames'), (d, 'numChannels'), (d, 'numBits'), (d, 'object.flags'), *ex)


# ------------------------------------------------------------------ decoding
FORMATS = [('1bit', 1), ('2bit', 2), ('4bit', 4), ('8bit_signed', 8), ('8bit', 8), ('16bit', 16)]     # in order of their public names
MAX = 32767


def decode(fmt, bits, S, i, big):
    """frame i of the input"""
    if bits == 16:
        a, b = S.select(add(i, i)), S.select(add(add(i, i), ONE64))
        return ite(big, concat(a, b), concat(b, a))
    per = 8 // bits
    sh = {8: 0, 4: 1, 2: 2, 1: 3}[bits]
    byte = S.select(lshr(i, bv(sh, 64)) if sh else i)
    if fmt == '8bit_signed':
        v = clamp(sext(byte, 32), -127, 127)
        return trunc(sdiv(mul(v, c32(MAX)), c32(127)), 16)
    if bits == 8:
        v = zext(byte, 32)
    else:
        pos = trunc(band(i, bv(per - 1, 64)), 8)
        v = zext(band(lshr(byte, sub(bv(8 - bits, 8), mul(pos, bv(bits, 8)))), bv((1 << bits) - 1, 8)), 32)
    return trunc(udiv(mul(v, c32(MAX)), c32((1 << bits) - 1)), 16)


def bytes_in(g, name='bytes'):
    D = g.sym('dataSize', 32)
    g.assume(ult(D, c32(1 << 31)))
    g.bound(D, 24)
    return D, g.arr(name, 1, U(D))


@goal('C18', functions=['BKDataSetData'], variants=[('%s.channels%d' % (f, n), {'fmt': f, 'name': k + 1, 'bits': b, 'nch': n})
                                                    for k, (f, b) in enumerate(FORMATS) for n in (1, 2, 3, 4, 8) if n != 3 or f in ('8bit', '16bit')])
def data_set_data(g, fmt, name, bits, nch):
    """every complete packet becomes one frame per channel with exactly the decoded values; anything else is refused without any change"""
    d = data(g)
    old, nf0, nc0, own = frames(g, d, 'old')
    D, src = bytes_in(g)
    endian = g.sym('endian', 32, vals=[0, 1 << 16, 2 << 16])
    step = (2 if bits == 16 else 1) * nch
    used = sub(D, urem(D, c32(step)))
    count = udiv(mul(U(used), bv(8, 64)), bv(bits, 64))          # frames of all channels
    g.set(d, 'stateList', NULLP)
    S = g.rd(src, 'data')
    big = eq(endian, c32(1 << 16))
    dec = lambda i: decode(fmt, bits, S, i, big)

    def arrays(V):
        per = bv(8 // bits if bits < 16 else 1, 64)
        out = {}
        for v in V.phis.values():
            for gd, b, o in (v.ts if isinstance(v, PV) else ()):
                if isinstance(b, Region) and b.kind == 'heap':
                    g.typed(b, 2)
                    out[(b, 'data')] = lambda V, b=b, gd=gd: (lambda e: lambda i: ite(AND(gd, ult(i, mul(per, V.k))), dec(i), e.select(i)))(V.at_entry(b, 'data'))
        return out
    g.arrays(arrays)
    r = g.call('BKDataSetData', d, src, D, nch, bor(c32(name), endian))
    short = ult(count, bv(2 * nch, 64))
    big_ = ult(bv(0x7fffffff, 64), count)
    done = eq(r, Z32)
    g.ensure('refused', IMP(OR(short, big_), eq(r, c32(K['INVALID_NUM_FRAMES']))))
    g.ensure('result', IMP(NOT(OR(short, big_)), OR(done, eq(r, c32(K['ALLOCATION_ERROR'])))))
    same(g, d, NOT(done), 'failed-unchanged')
    p = g.rd(d, 'frames')
    g.ensure('frames', IMP(done, eq(mul(U(g.rd(d, 'numFrames')), bv(nch, 64)), count)))
    g.ensure('dimensions', IMP(done, AND(eq(g.rd(d, 'numChannels'), c32(nch)), eq(g.rd(d, 'numBits'), c32(bits)))))
    g.ensure('owner', IMP(done, eq(g.rd(d, 'object.flags'), c32(INITED | COPY))))
    g.ensure('old-frames-given-back', IFF(g.freed(old), AND(done, own)))
    g.forall('decoded', count, lambda i: when(g, done, lambda: eq(g.load(pv_add(p, scale(i, 2)), 16), dec(i))))
    g.no_leak('no-leak', p)
    g.frame((old, ''), ('freed', old), (d, 'frames'), (d, 'numFrames'), (d, 'numChannels'), (d, 'numBits'), (d, 'object.flags'))


FIELDS = ('frames', 'stateList', 'numFrames', 'numChannels', 'numBits', 'object.flags', 'sampleRate', 'samplePitch', 'sustainOffset', 'sustainEnd')


def same(g, d, cond, name, fields=FIELDS):
    for f in fields:
        a, b = g.rd(d, f), g.pre(d, f)
        g.ensure('%s.%s' % (name, f), IMP(cond, pv_eq(a, b) if isinstance(a, PV) else eq(a, b)))


# ------------------------------------------------------------------ attributes
@goal('C19', functions=['BKDataSetAttr', 'BKDataGetAttr', 'BKSetAttr', 'BKGetAttr'], variants=[('set', {'how': 'BKSetAttr'}), ('get', {'how': 'BKGetAttr'}), ('direct', {'how': 'BKDataSetAttr'})])
def data_attrs(g, how):
    """the pitch is clamped to the range of sample tones; sizes are read; other attributes are refused"""
    d = data(g)
    attr = g.sym('attr', 32)
    v = g.sym('value', 32, signed=True)
    out = g.arr('out', 4, 1)
    pitch = eq(attr, c32(K['SAMPLE_PITCH']))
    if how != 'BKGetAttr':
        r = g.call(how, d, attr, v)
        lo, hi = -4 * 12 << 20, 4 * 12 << 20          # four octaves up and down
        g.ensure('result', eq(r, ite(pitch, Z32, c32(K['INVALID_ATTRIBUTE']))))
        g.ensure('clamped', IMP(pitch, eq(g.rd(d, 'samplePitch'), clamp(v, lo, hi))))
        g.ensure('refused', IMP(NOT(pitch), eq(g.rd(d, 'samplePitch'), g.pre(d, 'samplePitch'))))
        g.frame((d, 'samplePitch'))
    else:
        r = g.call('BKGetAttr', d, attr, out)
        o = g.rd(out, 'data').select(Z64_)
        nf, nc = eq(attr, c32(K['NUM_FRAMES'])), eq(attr, c32(K['NUM_CHANNELS']))
        ok = OR(pitch, nf, nc)
        g.ensure('result', eq(r, ite(ok, Z32, c32(K['INVALID_ATTRIBUTE']))))
        g.ensure('value', IMP(ok, eq(o, ite(pitch, g.pre(d, 'samplePitch'), ite(nf, g.pre(d, 'numFrames'), g.pre(d, 'numChannels'))))))
        g.ensure('refused', IMP(NOT(ok), eq(o, g.pre(out, 'data').select(Z64_))))
        g.frame((out, 'data'))


@goal('C19', functions=['BKSetPtr', 'BKGetPtr'], variants=[('set', {'set': 1}), ('get', {'set': 0})])
def data_sustain_range(g, set):
    """the sustain range is ordered and lies inside the data; negative positions count from the end"""
    d = data(g)
    n = g.range(d, 'numFrames', 0, 1 << 24)
    attr = g.sym('attr', 32)
    ok = eq(attr, c32(K['SAMPLE_SUSTAIN_RANGE']))
    v = g.arr('range', 4, 2)
    V = g.rd(v, 'data')
    a, b = V.select(Z64_), V.select(ONE64)
    null = g.symbool('null') if set else FALSE
    r = g.call('BKSetPtr' if set else 'BKGetPtr', d, attr, pv_ite(null, NULLP, pv(v)), 8)
    g.ensure('result', eq(r, ite(ok, Z32, c32(K['INVALID_ATTRIBUTE']))))
    if set:
        place = lambda x: clamp(ite(slt(x, Z32), add(add(x, n), ONE), x), 0, n)
        none = OR(null, eq(a, b))
        A, B_ = place(a), place(b)
        lo, hi = ite(slt(B_, A), B_, A), ite(slt(B_, A), A, B_)
        g.ensure('offset', IMP(ok, eq(g.rd(d, 'sustainOffset'), ite(none, Z32, lo))))
        g.ensure('end', IMP(ok, eq(g.rd(d, 'sustainEnd'), ite(none, Z32, hi))))
        g.ensure('refused', IMP(NOT(ok), AND(eq(g.rd(d, 'sustainOffset'), g.pre(d, 'sustainOffset')), eq(g.rd(d, 'sustainEnd'), g.pre(d, 'sustainEnd')))))
        g.frame((d, 'sustainOffset'), (d, 'sustainEnd'))
    else:
        P = g.rd(v, 'data')
        g.ensure('offset', eq(P.select(Z64_), ite(ok, g.pre(d, 'sustainOffset'), a)))
        g.ensure('end', eq(P.select(ONE64), ite(ok, g.pre(d, 'sustainEnd'), b)))
        g.frame((v, 'data'))


@goal('C19', functions=['BKDataInitCopy'])
def data_init_copy(g):
    """a copy has its own frames and no states, and everything else like the original, which is not changed"""
    o = data(g, 'original')
    fr, nf, nc, own = frames(g, o)
    L = g.lst('states', 'BKDataState', 'nextState')
    g.set(o, 'stateList', L.first())
    empty = g.symbool('empty')
    g.set(o, 'frames', pv_ite(empty, NULLP, pv(fr)))
    d = g.obj('copy', 'BKData')
    r = g.call('BKDataInitCopy', d, o)
    done = eq(r, Z32)
    g.ensure('result', OR(done, AND(NOT(empty), slt(r, Z32))))
    g.ensure('flags', IMP(done, eq(g.rd(d, 'object.flags'), bor(c32(INITED), ite(empty, Z32, c32(COPY))))))
    g.ensure('class', IMP(done, pv_eq(g.rd(d, 'object.isa'), g.pre(o, 'object.isa'))))
    g.ensure('no-states', pv_eq(g.rd(d, 'stateList'), NULLP))
    for f in ('numFrames', 'numChannels', 'sampleRate', 'samplePitch', 'sustainOffset', 'sustainEnd'):
        g.ensure('like-original.' + f, IMP(done, eq(g.rd(d, f), g.pre(o, f))))
    p = g.rd(d, 'frames')
    g.ensure('failed-has-no-frames', IMP(OR(NOT(done), empty), pv_eq(p, NULLP)))
    has = AND(done, NOT(empty))
    F = g.pre(fr, 'data')
    g.ensure('own-frames', IMP(has, NOT(pv_eq(p, pv(fr)))))
    g.forall('copied', mul(U(nf), U(nc)), lambda i: when(g, has, lambda: eq(g.load(pv_add(p, scale(i, 2)), 16), F.select(i))))
    g.no_leak('no-leak', p)
    g.frame(d)


# ------------------------------------------------------------------ normalizing
@goal('C23', functions=['BKDataNormalize'], variants=[('channels%d' % n, {'nch': n}) for n in (1, 2, 8)])
def data_normalize(g, nch):
    """every frame is scaled by the same factor, which brings the loudest one of all to the maximum; the frames of others are not touched"""
    d = data(g)
    nf = g.range(d, 'numFrames', 1, 1 << 24)
    g.bound(nf, 5)
    g.set(d, 'numChannels', nch)
    n = scale(U(nf), nch)
    fr = g.arr('frames', 2, n)
    g.set(d, 'frames', pv(fr))
    own = g.symbool('owned')
    g.set(d, 'object.flags', bor(c32(INITED), ite(own, c32(COPY), Z32)))
    g.set(d, 'stateList', NULLP)
    F = g.rd(fr, 'data')
    val = lambda i: sext(F.select(i), 32)
    mag = lambda i: ite(slt(val(i), Z32), neg(val(i)), val(i))
    M = g.rec('loudest', 32, Z32, lambda k, m: ite(slt(m, mag(k)), mag(k), m))
    top = M.at(n)
    scaled = lambda i: ite(eq(top, Z32), F.select(i), trunc(ashr(mul(val(i), sdiv(c32(MAX << 16), top)), bv(16, 32)), 16))
    J = g.sym('J', 64, 0, 1 << 27)

    def heap(V):
        return [b for r_ in list(g.vc.alloc_log) for b in [r_]] if g.sym_mode else []

    def arrays(V):
        out = {}
        p = V.rd(d, 'frames')
        for gd, b, o in p.ts:
            if isinstance(b, Region):
                g.typed(b, 2)
                out[(b, 'data')] = lambda V, b=b, gd=gd: (lambda e: lambda i: ite(AND(gd, ult(i, V.k)), scaled(i), e.select(i)))(V.at_entry(b, 'data'))
        return out
    g.arrays(arrays)

    def cands(L):
        if L.k.op == 'v':
            M.unfold(L.k)
        out = []
        for p in L.other:
            def b(V, p=p):
                v = V.phis[p]
                return eq(v, M.at(V.k)) if isinstance(v, T) and v.w == 32 else FALSE
            out.append((p + '=loudest', b))
        out.append(('!loud', lambda V: AND(sle(Z32, M.at(V.k)), sle(M.at(V.k), c32(32768)))))
        out.append(('!J', lambda V: IMP(ult(J, V.k), sle(mag(J), M.at(V.k)))))
        return out
    g.cands(cands)
    r = g.call('BKDataNormalize', d)
    done = eq(r, Z32)
    p = g.rd(d, 'frames')
    g.ensure('result', OR(done, AND(NOT(own), eq(r, c32(K['ALLOCATION_ERROR'])))))
    same(g, d, NOT(done), 'failed-unchanged')
    g.ensure('loudest', IMP(AND(done, ult(J, n)), when(g, ult(J, n), lambda: sle(mag(J), top))))
    g.ensure('own-frames', IMP(done, AND(eq(g.rd(d, 'object.flags'), c32(INITED | COPY)), IFF(own, pv_eq(p, pv(fr))))))
    g.forall('scaled', n, lambda i: when(g, done, lambda: eq(g.load(pv_add(p, scale(i, 2)), 16), scaled(i))))
    P = g.rd(fr, 'data')
    g.forall('foreign-frames-kept', n, lambda i: IMP(NOT(own), eq(P.select(i), F.select(i))))
    g.no_leak('no-leak', p)
    g.frame((fr, 'data'), (d, 'frames'), (d, 'object.flags'))


# ------------------------------------------------------------------ attaching states
@goal('C19', functions=['BKDataStateSetData'], variants=[('%s_%s' % (a, b), {'now': a, 'new': b}) for a in ('unused', 'used') for b in ('none', 'other')])
def data_state_set(g, now, new):
    """a state leaves the list of its data at any place and becomes the last one of the other; the rest stays in order"""
    d = data(g)
    L = g.lst('states', 'BKDataState', 'nextState')
    n = L.count
    g.set(d, 'stateList', L.first())
    g.set(d, 'object.flags', INITED)
    g.set(L.region, 'data', Arr('fill', pv(d), 'p'))
    m = g.sym('position', 64, 0, 1 << 20)
    used = now == 'used'
    if used:
        g.assume(ult(m, n))
        R, s = L.region, pv(L.region, scale(m, L.size))
        ex = [(d, 'stateList'), (R, 'nextState'), (R, 'data')]
    else:
        o = g.obj('state', 'BKDataState')
        s = pv(o)
        g.set(o, 'data', NULLP)
        ex = [(o, 'data'), (o, 'nextState')]
    p = NULLP
    if new == 'other':
        e = data(g, 'other')
        C = g.lst('others', 'BKDataState', 'nextState')
        g.set(e, 'stateList', C.first())
        g.set(e, 'object.flags', INITED)
        p = pv(e)
        ex += [(e, 'stateList'), (C.region, 'nextState')]

    def cands(Lp):
        return [('!not-yet', lambda V: ule(V.k, m))]
    g.cands(cands)
    r = g.call('BKDataStateSetData', s, p)
    g.ensure('result', eq(r, Z32))
    if used:
        nx, dt = g.rd(R, 'nextState'), g.rd(R, 'data')
        g.ensure('data', pv_eq(dt.select(m), p))
        g.ensure('last', pv_eq(nx.select(m), NULLP))
        g.ensure('first', pv_eq(g.rd(d, 'stateList'), pv_ite(eq(m, Z64_), L.at(ONE64), L.first())))
        g.forall('order', n, lambda i: OR(eq(i, m), pv_eq(nx.select(i), pv_ite(eq(add(i, ONE64), m), L.at(add(m, ONE64)), L.at(add(i, ONE64))))))
        g.forall('others-keep-data', n, lambda i: OR(eq(i, m), pv_eq(dt.select(i), pv(d))))
    else:
        g.ensure('data', pv_eq(g.rd(o, 'data'), p))
        g.ensure('last', IMP(B(new == 'other'), pv_eq(g.rd(o, 'nextState'), NULLP)))
    if new == 'other':
        nc = C.count
        g.ensure('other.first', pv_eq(g.rd(e, 'stateList'), pv_ite(eq(nc, Z64_), s, C.first())))
        ny = g.rd(C.region, 'nextState')
        g.forall('other.order', nc, lambda i: pv_eq(ny.select(i), pv_ite(eq(add(i, ONE64), nc), s, C.at(add(i, ONE64)))))
    g.frame(*ex)


@goal('C19', functions=['BKDataStateSetData'])
def data_state_set_again(g):
    """the first state of a data object becomes its last one when it is set again"""
    d = data(g)
    s = g.obj('state', 'BKDataState')
    L = g.lst('after', 'BKDataState', 'nextState')
    n = L.count
    g.set(s, 'data', pv(d))
    g.set(s, 'nextState', L.first())
    g.set(d, 'stateList', pv(s))
    g.set(d, 'object.flags', INITED)

    def cands(Lp):
        out = []
        for p in Lp.other:
            out.append((p + '=first', lambda V, p=p: pv_eq(V.phis[p], pv(s)) if isinstance(V.phis[p], PV) else FALSE))
        return out
    g.cands(cands)
    g.call('BKDataStateSetData', s, d)
    ny = g.rd(L.region, 'nextState')
    g.ensure('data', pv_eq(g.rd(s, 'data'), pv(d)))
    g.ensure('last', pv_eq(g.rd(s, 'nextState'), NULLP))
    g.ensure('first', pv_eq(g.rd(d, 'stateList'), pv_ite(eq(n, Z64_), pv(s), L.first())))
    g.forall('order', n, lambda i: pv_eq(ny.select(i), pv_ite(eq(add(i, ONE64), n), pv(s), L.at(add(i, ONE64)))))
    g.frame((d, 'stateList'), (s, 'nextState'), (s, 'data'), (L.region, 'nextState'))


# ------------------------------------------------------------------ data of units
def unit_of(g, ctx):
    from contracts.c_attrs import unit
    u = unit(g)
    g.set(u, 'ctx', ctx)
    return u


@goal('C20', functions=['BKUnitSetPtr'], variants=[('plain', {'cb': 0}), ('callback', {'cb': 1})])
def unit_set_sample(g, cb):
    """a sample which fits the context starts at its begin with its whole range; any other is refused and silences the unit"""
    ctx = g.obj('ctx', 'BKContext')
    cn = g.range(ctx, 'numChannels', 1, 8)
    att = g.symbool('attached')
    u = unit_of(g, pv_ite(att, pv(ctx), NULLP))
    d = data(g)
    nf = g.range(d, 'numFrames', 0, 1 << 24)
    g.bound(nf, 6)
    nc = g.range(d, 'numChannels', 1, 8)
    fr = g.arr('frames', 2, mul(U(nf), U(nc)))
    g.set(d, 'frames', pv(fr))
    g.set(d, 'stateList', NULLP)
    g.set(d, 'object.flags', INITED)
    g.set(u, 'sample.dataState.data', NULLP)
    g.set(u, 'sample.callback.func', NULLP)
    wf = g.rd(u, 'waveform')
    g.ghost('begin', Z32)
    g.ghost('ok', TRUE)
    if cb:
        def begin(g_, S, a):
            g_.gset(S, 'begin', add(g_.gget(S, 'begin'), ONE))
            # the state is complete when the user is asked
            whole = AND(eq(g_.get(S, pv(u), 'BKUnit', 'sample.end'), nf), pv_eq(g_.get(S, pv(u), 'BKUnit', 'sample.dataState.data'), pv(d)),
                        pv_eq(g_.get(S, pv(u), 'BKUnit', 'sample.frames'), pv(fr)), eq(g_.get(S, pv(u), 'BKUnit', 'waveform'), c32(K['SAMPLE'])),
                        eq(band(g_.get(S, pv(u), 'BKUnit', 'object.flags'), c32(7)), Z32))
            g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), whole))
            return Z32
        g.set(u, 'sample.callback.func', g.callback('vt_cb_begin', begin, ('p', 'p'), 32))
    r = g.call('BKUnitSetPtr', u, K['SAMPLE'], d)
    fits = OR(eq(nc, ONE), eq(nc, cn))
    want = ite(NOT(att), c32(K['INVALID_STATE']), ite(NOT(fits), c32(K['INVALID_NUM_CHANNELS']), ite(ult(nf, c32(2)), c32(K['INVALID_NUM_FRAMES']), Z32)))
    done = eq(want, Z32)
    g.ensure('result', eq(r, want))
    rd = lambda f: g.rd(u, f)
    g.ensure('plays', IMP(done, AND(eq(rd('waveform'), c32(K['SAMPLE'])), pv_eq(rd('sample.frames'), pv(fr)), eq(rd('sample.length'), nf), eq(rd('sample.numChannels'), nc))))
    g.ensure('whole-range', IMP(done, AND(eq(rd('sample.offset'), Z32), eq(rd('sample.end'), nf))))
    g.ensure('from-begin', IMP(done, AND(eq(rd('phase.phase'), Z32), eq(rd('sample.repeatCount'), Z32), eq(rd('sample.repeatMode'), Z32))))
    g.ensure('no-sustain', IMP(done, AND(eq(rd('sample.sustainOffset'), Z32), eq(rd('sample.sustainEnd'), Z32), eq(band(rd('object.flags'), c32(7)), Z32))))
    P = g.pre(u, 'sample.period')
    g.ensure('forwards', IMP(done, eq(rd('sample.period'), ite(slt(P, Z32), neg(P), P))))
    g.ensure('told-by-data', AND(pv_eq(rd('sample.dataState.data'), pv_ite(done, pv(d), NULLP)), pv_eq(g.rd(d, 'stateList'), pv_ite(done, pv(u, foff_(g, 'sample.dataState')), NULLP))))
    g.ensure('silenced', IMP(NOT(done), eq(rd('waveform'), ite(OR(eq(wf, c32(K['SAMPLE'])), eq(wf, c32(K['CUSTOM']))), Z32, wf))))
    if cb:
        g.ensure('begin-told', eq(g.gget(None, 'begin'), ite(done, ONE, Z32)))
        g.ensure('begin-complete', g.gget(None, 'ok'))
    g.frame((u, 'sample'), (u, 'phase'), (u, 'waveform'), (u, 'object.flags'), (d, 'stateList'))


def foff_(g, f):
    from contracts.c_attrs import foff
    return bv(foff(g, 'BKUnit', f + '.data'), 64)


@goal('C27', functions=['BKUnitSetPtr'])
def unit_set_waveform(g):
    """a custom waveform is played from its begin; at most its first 64 phases; others are refused"""
    ctx = g.obj('ctx', 'BKContext')
    att = g.symbool('attached')
    u = unit_of(g, pv_ite(att, pv(ctx), NULLP))
    d = data(g)
    nf = g.range(d, 'numFrames', 0, 1 << 24)
    g.bound(nf, 6)
    fr = g.arr('frames', 2, U(nf))
    g.set(d, 'frames', pv(fr))
    g.set(d, 'stateList', NULLP)
    g.set(d, 'object.flags', INITED)
    g.set(u, 'sample.dataState.data', NULLP)
    wf = g.rd(u, 'waveform')
    r = g.call('BKUnitSetPtr', u, K['WAVEFORM'], d)
    want = ite(NOT(att), c32(K['INVALID_STATE']), ite(ult(nf, c32(2)), c32(K['INVALID_NUM_FRAMES']), Z32))
    done = eq(want, Z32)
    g.ensure('result', eq(r, want))
    rd = lambda f: g.rd(u, f)
    g.ensure('plays', IMP(done, AND(eq(rd('waveform'), c32(K['CUSTOM'])), pv_eq(rd('sample.frames'), pv(fr)), eq(rd('phase.phase'), Z32), eq(rd('phase.count'), ite(ult(nf, c32(64)), nf, c32(64))))))
    g.ensure('told-by-data', AND(pv_eq(rd('sample.dataState.data'), pv_ite(done, pv(d), NULLP)), pv_eq(g.rd(d, 'stateList'), pv_ite(done, pv(u, foff_(g, 'sample.dataState')), NULLP))))
    g.ensure('silenced', IMP(NOT(done), eq(rd('waveform'), ite(OR(eq(wf, c32(K['SAMPLE'])), eq(wf, c32(K['CUSTOM']))), Z32, wf))))
    g.frame((u, 'sample'), (u, 'phase'), (u, 'waveform'), (d, 'stateList'))


@goal('C20', functions=['BKDataSetFrames', 'BKDispose', 'BKUnitSetPtr'], variants=[('%s.%s' % (a, b), {'what': a, 'wave': b}) for a in ('dispose', 'replace', 'unset') for b in ('sample', 'waveform')])
def unit_data_gone(g, what, wave):
    """a unit never keeps frames its data does not have anymore: it plays the new ones or nothing"""
    ctx = g.obj('ctx', 'BKContext')
    cn = g.range(ctx, 'numChannels', 1, 8)
    u = unit_of(g, pv(ctx))
    d = data(g)
    smp = wave == 'sample'
    g.set(d, 'object.flags', INITED)
    g.set(d, 'stateList', pv(u, foff_(g, 'sample.dataState')))
    g.set(u, 'sample.dataState.data', pv(d))
    g.set(u, 'sample.dataState.nextState', NULLP)
    g.set(u, 'sample.dataState.callback', pv_func('BKUnitSampleDataStateCallback'))
    g.set(u, 'sample.dataState.callbackUserInfo', pv(u))
    g.set(u, 'sample.callback.func', NULLP)
    g.set(u, 'waveform', K['SAMPLE'] if smp else K['CUSTOM'])
    old = g.arr('old', 2, 16)
    g.set(d, 'frames', pv(old))
    g.set(u, 'sample.frames', pv(old, bv(4 if smp else 0, 64)))
    n = g.sym('numFrames', 32, 2, 1 << 20)
    nc = g.sym('numChannels', 32, 1, 8)
    g.bound(n, 5)
    fr = g.arr('frames', 2, mul(U(n), U(nc)))
    rd = lambda f: g.rd(u, f)
    if what == 'replace':
        r = g.call('BKDataSetFrames', d, fr, n, nc, 0)
        ok = OR(eq(nc, ONE), eq(nc, cn)) if smp else TRUE
        g.ensure('result', eq(r, Z32))
        g.ensure('new-frames', IMP(ok, AND(pv_eq(rd('sample.frames'), pv(fr)), eq(rd('sample.end'), n), eq(rd('sample.offset'), Z32), eq(rd('phase.phase'), Z32))))
        g.ensure('length', IMP(ok, AND(eq(rd('sample.length'), n), eq(rd('sample.numChannels'), nc)) if smp else eq(rd('phase.count'), ite(ult(n, c32(64)), n, c32(64)))))
        g.ensure('kept', IMP(ok, AND(pv_eq(rd('sample.dataState.data'), pv(d)), pv_eq(g.rd(d, 'stateList'), pv(u, foff_(g, 'sample.dataState'))))))
        gone = NOT(ok)
    else:
        if what == 'dispose':
            g.call('BKDispose', d)
        else:
            r = g.call('BKUnitSetPtr', u, K['SAMPLE'] if smp else K['WAVEFORM'], NULLP)
            g.ensure('result', eq(r, Z32))
            g.ensure('list', pv_eq(g.rd(d, 'stateList'), NULLP))
        gone = TRUE
    g.ensure('silent', IMP(gone, AND(eq(rd('waveform'), Z32), pv_eq(rd('sample.frames'), NULLP), pv_eq(rd('sample.dataState.data'), NULLP))))
    g.frame((u, 'sample'), (u, 'phase'), (u, 'waveform'), (u, 'object.flags'), d)


@goal('C19', functions=['BKDataConvert'])
def data_convert(g):
    """converted frames belong to the data, frames of others are left alone, users are told; without memory nothing changes"""
    d = data(g)
    old, nf, nc, own = frames(g, d, 'old')
    g.set(d, 'numFrames', nf)
    info = g.obj('info', 'BKDataConvertInfo')
    g.range(info, 'targetNumBits', 1, 16)
    s = States(g, d, RESET)
    F0 = g.rd(old, 'data')
    s.inv(lambda V: {(old, 'data'): Inv(lambda V: (lambda i, v: OR(own, eq(v, F0.select(i)))), lambda V: (lambda i: F0.select(i)))})
    if g.sym_mode:
        g.extern('rand', lambda g_, S, a: g.fresh('rand', 32), (), 32)
        g.extern('pow', lambda g_, S, a: g.fresh('pow', 64), (64, 64), 64)
    r = g.call('BKDataConvert', d, info)
    done = eq(r, Z32)
    g.ensure('result', OR(done, AND(NOT(own), eq(r, c32(-1)))))
    same(g, d, NOT(done), 'failed-unchanged')
    g.ensure('owner', IMP(done, eq(g.rd(d, 'object.flags'), c32(INITED | COPY))))
    p = g.rd(d, 'frames')
    g.ensure('in-place-if-owned', IMP(AND(done, own), pv_eq(p, pv(old))))
    g.ensure('copy-if-not-owned', IMP(AND(done, NOT(own)), NOT(pv_eq(p, pv(old)))))
    g.ensure('not-freed', NOT(g.freed(old)))
    F1 = g.rd(old, 'data')
    g.forall('frames-of-others-unchanged', mul(U(nf), U(nc)), lambda i: OR(own, eq(F1.select(i), F0.select(i))))
    g.no_leak('no-leak', p)
    ex = s.check(done)
    g.frame((old, 'data'), (d, 'frames'), (d, 'object.flags'), *ex)
