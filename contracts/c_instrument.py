"""Contracts of instruments: their sequences, and the list of states which use them."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal
from contracts.consts import K
from contracts.c_object import zeroed
from contracts.c_attrs import c32, U, foff
from contracts.c_data import when, index_of
from contracts.c_sequence import MUTE, ATTACK, RELEASE, FINISH

Z32, ONE = bv(0, 32), bv(1, 32)
Z64_, ONE64 = bv(0, 64), bv(1, 64)
RESET, DISPOSE, MUTED = 0, 1, 2
SLOTS = 4
VOLUME, PANNING, PITCH, DUTY = range(4)
MAXV = 32767
INITED = 1 << 24
DEFAULT = [MAXV, 0, 0, 0]


def instrument(g, name='instrument', nseq=None):
    d = g.obj(name, 'BKInstrument')
    g.set(d, 'object.isa', pv(g.glob('BKInstrumentClass')))
    g.set(d, 'object.flags', INITED)
    qs, has = [], []
    for i in range(SLOTS):
        q = g.obj('%s_sequence%d' % (name, i), 'BKSequence')
        h = g.symbool('%s_has%d' % (name, i)) if nseq is None or i + 1 < nseq else B(i + 1 == nseq)
        qs.append(q)
        has.append(h)
    g.set(d, 'sequences', Arr('fn', lambda i: pick(i, [pv_ite(h, pv(q), NULLP) for h, q in zip(has, qs)]), 'p'))
    n = Z32
    for i, h in enumerate(has):
        n = ite(h, c32(i + 1), n)
    g.set(d, 'numSequences', n)
    return d, qs, has, n


def pick(i, vals):
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        c = eq(i, bv(k, i.w))
        r = pv_ite(c, vals[k], r) if isinstance(r, PV) else ite(c, vals[k], r)
    return r


def slot_of(g, st, p, field='states'):
    """the slot of a sequence state inside of an instrument state"""
    size = g.struct_size('BKSequenceState')
    base = foff(g, 'BKInstrumentState', 'states[0].sequence')
    hit, slot = FALSE, Z32
    for gd, b, o in p.ts:
        if b is st:
            for i in range(SLOTS):
                h = AND(gd, eq(o, bv(base + i * size, 64)))
                hit, slot = OR(hit, h), ite(h, c32(i), slot)
    return hit, slot


def state(g, d):
    s = g.obj('state', 'BKInstrumentState')
    g.set(s, 'instrument', pv(d))
    return s


# ------------------------------------------------------------------ playing
@goal('C17', functions=['BKInstrumentStateSetPhase'], variants=[('%s.%d' % (x, i), {'to': y, 'nseq': i}) for x, y in (('attack', ATTACK), ('release', RELEASE), ('mute', MUTE)) for i in range(5)])
def instrument_phase(g, to, nseq):
    """every sequence of the instrument changes its phase once; without any sequence left to play a released
    instrument is muted, which is told once"""
    d, qs, has, n = instrument(g, nseq=nseq)
    s = state(g, d)
    ph = g.range(s, 'phase', 0, 2)
    ans = g.rd(g.arr('answers', 4, SLOTS), 'data')
    g.ghost('ok', TRUE)
    g.ghost('mask', Z32)
    g.ghost('told', Z32)

    def phase(g_, S, a):
        hit, i = slot_of(g_, s, a[0])
        m = g_.gget(S, 'mask')
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), hit, eq(a[1], c32(to)), eq(band(m, shl(ONE, i)), Z32)))
        g_.gset(S, 'mask', bor(m, shl(ONE, i)))
        return ans.select(U(i))
    g.stub('BKSequenceStateSetPhase', phase)
    info = g.obj('info', 'BKClock')

    def cb(g_, S, a):
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), eq(a[0], c32(MUTED)), pv_eq(a[1], pv(info))))
        g_.gset(S, 'told', add(g_.gget(S, 'told'), ONE))
        return Z32
    wants = g.symbool('wants')
    g.set(s, 'callback', pv_ite(wants, g.callback('vt_cb_instr', cb, (32, 'p'), 32), NULLP))
    g.set(s, 'callbackUserInfo', pv(info))
    g.call('BKInstrumentStateSetPhase', s, c32(to))
    skip = AND(B(to == RELEASE), eq(ph, c32(RELEASE)))
    mask = act = Z32
    for i in range(SLOTS):
        mask = bor(mask, ite(has[i], c32(1 << i), Z32))
        act = add(act, ite(AND(has[i], ne(ans.select(bv(i, 64)), c32(FINISH))), ONE, Z32))
    g.ensure('sequences', AND(g.gget(None, 'ok'), eq(g.gget(None, 'mask'), ite(skip, Z32, mask))))
    g.ensure('active', IMP(NOT(skip), eq(g.rd(s, 'numActiveSequences'), act)))
    new = c32(to) if to != RELEASE else ite(eq(act, Z32), c32(MUTE), c32(RELEASE))
    g.ensure('phase', eq(g.rd(s, 'phase'), ite(skip, ph, new)))
    g.ensure('told', eq(g.gget(None, 'told'), ite(AND(NOT(skip), wants, eq(new, c32(MUTE)), ne(ph, c32(MUTE))), ONE, Z32)))
    g.frame((s, 'phase'), (s, 'numActiveSequences'))


@goal('C17', functions=['BKInstrumentStateSetPhase'])
def instrument_phase_none(g):
    """a state without an instrument has no phases"""
    s = g.obj('state', 'BKInstrumentState')
    g.set(s, 'instrument', NULLP)
    g.call('BKInstrumentStateSetPhase', s, g.sym('phase', 32))
    g.frame()


@goal('C17', functions=['BKInstrumentStateTick'], variants=[(str(i), {'nseq': i}) for i in range(5)])
def instrument_tick(g, nseq):
    """every sequence makes one step; the instrument is muted when the last one has finished"""
    d, qs, has, n = instrument(g, nseq=nseq)
    s = state(g, d)
    level = g.sym('level', 32, 0, 1)
    ans = g.rd(g.arr('answers', 4, SLOTS), 'data')
    act = g.range(s, 'numActiveSequences', -(1 << 30), SLOTS)
    for k, v in (('ok', TRUE), ('mask', Z32), ('muted', Z32)):
        g.ghost(k, v)

    def step(g_, S, a):
        hit, i = slot_of(g_, s, a[0])
        m = g_.gget(S, 'mask')
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), hit, eq(a[1], level), eq(band(m, shl(ONE, i)), Z32)))
        g_.gset(S, 'mask', bor(m, shl(ONE, i)))
        return ans.select(U(i))
    g.stub('BKSequenceStateStep', step)

    def phase(g_, S, a):
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), pv_eq(a[0], pv(s)), eq(a[1], c32(MUTE))))
        g_.gset(S, 'muted', add(g_.gget(S, 'muted'), ONE))
        g_.wr(S, s, 'numActiveSequences', Z32)
    g.stub('BKInstrumentStateSetPhase', phase)
    g.call('BKInstrumentStateTick', s, level)
    c, muted, mask = act, Z32, Z32
    for i in range(SLOTS):
        # slots without a sequence do not finish
        on = ult(c32(i), n)
        f = AND(on, eq(ans.select(bv(i, 64)), c32(FINISH)))
        c = ite(f, sub(c, ONE), c)
        z = AND(f, eq(c, Z32))
        muted = add(muted, ite(z, ONE, Z32))
        mask = bor(mask, ite(on, c32(1 << i), Z32))
    g.ensure('steps', AND(g.gget(None, 'ok'), eq(g.gget(None, 'mask'), mask)))
    g.ensure('active', eq(g.rd(s, 'numActiveSequences'), c))
    g.ensure('muted', eq(g.gget(None, 'muted'), muted))
    g.frame((s, 'numActiveSequences'))


@goal('C17', functions=['BKInstrumentStateGetSequenceValueAtOffset', 'BKInstrumentGetSequence'])
def instrument_value(g):
    """slots without a sequence have the value which changes nothing"""
    d, qs, has, n = instrument(g)
    s = state(g, d)
    for i in range(SLOTS):
        g.set(s, 'states[%d].sequence' % i, pv_ite(has[i], pv(qs[i]), NULLP))
    slot, off = g.sym('slot', 32), g.sym('offset', 32)
    r = g.call('BKInstrumentStateGetSequenceValueAtOffset', s, slot, off)
    q = g.call('BKInstrumentGetSequence', d, slot)
    want = Z32
    p = NULLP
    for i in range(SLOTS):
        me = eq(slot, c32(i))
        want = ite(me, ite(has[i], g.rd(s, 'states[%d].value' % i), c32(DEFAULT[i])), want)
        p = pv_ite(AND(me, has[i]), pv(qs[i]), p)
    g.ensure('value', eq(r, want))
    g.ensure('sequence', pv_eq(q, p))
    g.frame()


@goal('C17', functions=['BKInstrumentStateInit'])
def instrument_state_init(g):
    """a new state has no instrument and values which change nothing"""
    s = g.obj('state', 'BKInstrumentState')
    r = g.call('BKInstrumentStateInit', s)
    g.ensure('result', eq(r, Z32))
    for i in range(SLOTS):
        g.ensure('value%d' % i, eq(g.rd(s, 'states[%d].value' % i), c32(DEFAULT[i])))
    zeroed(g, pv(s), 'BKInstrumentState', TRUE, skip=['states[%d].value' % i for i in range(SLOTS)])
    g.frame(s)


# ------------------------------------------------------------------ states of an instrument
class Told(object):
    """values and phases of states are recorded"""

    def __init__(t, g, where, phase=None):
        """where: pointer -> (found, index)"""
        t.g = g
        g.ghost('ok', TRUE)
        g.ghost('phases', fill_arr(Z32, 32))
        g.ghost('phase', fill_arr(c32(9), 32))

        def ph(g_, S, a):
            hit, i = where(a[0])
            g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), hit))
            n = g_.gget(S, 'phases')
            g_.gset(S, 'phases', n.store(i, add(n.select(i), ONE)))
            g_.gset(S, 'phase', g_.gget(S, 'phase').store(i, a[1]))
        g.stub('BKInstrumentStateSetPhase', ph)


@goal('C17', functions=['BKInstrumentStateSetInstrument'], variants=[('new', {'now': 'none', 'new': 'other'}), ('leave', {'now': 'used', 'new': 'none'}),
                                                                   ('move', {'now': 'used', 'new': 'other'}), ('none', {'now': 'none', 'new': 'none'})])
def instrument_state_set(g, now, new):
    """a state is in the list of its instrument and in no other, uses the sequences of it and begins with its attack"""
    d, qs, has, n_ = instrument(g)
    ex = []
    if now == 'used':
        L = g.lst('states', 'BKInstrumentState', 'nextState', 'prevState')
        n, R = L.count, L.region
        g.set(d, 'stateList', L.first())
        g.set(R, 'instrument', Arr('fill', pv(d), 'p'))
        m = g.sym('position', 64, 0, 1 << 20)
        g.assume(ult(m, n))
        s = pv(R, scale(m, L.size))
        get = lambda f: g.rd(R, f).select(m)
        own = [(R, f) for f in ['instrument', 'nextState', 'prevState'] + ['states[%d].sequence' % i for i in range(SLOTS)]]
        vals = [(R, 'states[%d].%s' % (i, f)) for i in range(SLOTS) for f in ('value', 'shiftedValue', 'delta')]
        ex += own + [(d, 'stateList')]
        for i in range(SLOTS):
            g.set(R, 'states[%d].sequence' % i, Arr('fill', pv_ite(has[i], pv(qs[i]), NULLP), 'p'))
    else:
        o = g.obj('state', 'BKInstrumentState')
        s = pv(o)
        g.set(o, 'instrument', NULLP)
        get = lambda f: g.rd(o, f)
        for i in range(SLOTS):
            g.set(o, 'states[%d].sequence' % i, NULLP)
        vals = [(o, 'states[%d].value' % i) for i in range(SLOTS)]
        if new == 'other':
            ex += [(o, f) for f in ['instrument', 'nextState', 'prevState'] + ['states[%d].sequence' % i for i in range(SLOTS)]]
    for k, v in (('ok', TRUE), ('told', Z32)):
        g.ghost(k, v)

    def ph(g_, S, a):
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), pv_eq(a[0], s), eq(a[1], c32(ATTACK))))
        g_.gset(S, 'told', add(g_.gget(S, 'told'), ONE))
    g.stub('BKInstrumentStateSetPhase', ph)
    size, base = g.struct_size('BKSequenceState'), foff(g, 'BKInstrumentState', 'states[0].sequence')
    g.ghost('values', fill_arr(c32(-1 & 0xffffffff), 32))

    def setv(g_, S, a):
        i = udiv(sub(sub(ptr_off(a[0]), bv(base, 64)), ptr_off(s)), bv(size, 64))
        g_.gset(S, 'values', g_.gget(S, 'values').store(i, a[1]))
        return Z32
    g.stub('BKSequenceStateSetValue', setv)
    e = NULLP
    if new == 'other':
        e_, qe, he, ne_ = instrument(g, 'other')
        C = g.lst('others', 'BKInstrumentState', 'nextState', 'prevState')
        nc, Q = C.count, C.region
        g.set(e_, 'stateList', C.first())
        e = pv(e_)
        ex += [(e_, 'stateList'), (Q, 'prevState')]
    r = g.call('BKInstrumentStateSetInstrument', s, e)
    g.ensure('result', eq(r, Z32))
    g.ensure('attack', AND(g.gget(None, 'ok'), eq(g.gget(None, 'told'), ONE if new == 'other' else Z32)))
    if now == 'used':
        nx, px, ix = [g.rd(R, x) for x in ('nextState', 'prevState', 'instrument')]
        g.ensure('first', pv_eq(g.rd(d, 'stateList'), pv_ite(eq(m, Z64_), L.at(ONE64), L.first())))
        g.forall('order', n, lambda i: OR(eq(i, m), pv_eq(nx.select(i), pv_ite(eq(add(i, ONE64), m), L.at(add(m, ONE64)), L.at(add(i, ONE64))))))
        g.forall('order-back', n, lambda i: OR(eq(i, m), pv_eq(px.select(i), pv_ite(eq(i, add(m, ONE64)), L.before(m), L.before(i)))))
        g.forall('others-keep', n, lambda i: OR(eq(i, m), pv_eq(ix.select(i), pv(d))))
    g.ensure('instrument', pv_eq(get('instrument'), e))
    for i in range(SLOTS):
        g.ensure('sequence%d' % i, pv_eq(get('states[%d].sequence' % i), pv_ite(he[i], pv(qe[i]), NULLP) if new == 'other' else NULLP))
        if new == 'other':
            g.ensure('value%d' % i, eq(g.gget(None, 'values').select(bv(i, 64)), ite(he[i], Z32, c32(DEFAULT[i]))))
    if now == 'used' or new == 'other':
        g.ensure('links', AND(pv_eq(get('nextState'), C.first() if new == 'other' else NULLP), pv_eq(get('prevState'), NULLP)))
    if new == 'other':
        g.ensure('other.first', pv_eq(g.rd(e_, 'stateList'), s))
        pq = g.rd(Q, 'prevState')
        g.forall('other.order-back', nc, lambda i: pv_eq(pq.select(i), pv_ite(eq(i, Z64_), s, C.before(i))))
    g.frame(*ex)


def ptr_off(p):
    r = Z64_
    for gd, b, o in p.ts:
        r = ite(gd, o, r)
    return r


# ------------------------------------------------------------------ sequences of an instrument
class Users(object):
    """any number of states which use the instrument; some of them want to be told"""

    def __init__(u, g, d, qs, has, event):
        u.g = g
        L = u.L = g.lst('states', 'BKInstrumentState', 'nextState', 'prevState')
        n, R = L.count, L.region
        u.n, u.R = n, R
        g.set(d, 'stateList', L.first())
        g.set(R, 'instrument', Arr('fill', pv(d), 'p'))
        for i in range(SLOTS):
            g.set(R, 'states[%d].sequence' % i, Arr('fill', pv_ite(has[i], pv(qs[i]), NULLP), 'p'))
        want = g.rd(g.arr('wants', 1, n), 'data')
        u.has = has_ = lambda i: ne(band(want.select(i), bv(1, 8)), bv(0, 8))
        for k, v in (('ok', TRUE), ('called', fill_arr(Z32, 32))):
            g.ghost(k, v)

        def cb(g_, S, a):
            i = index_of(L, a[1])
            g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), eq(a[0], c32(event)), ult(i, n)))
            c = g_.gget(S, 'called')
            g_.gset(S, 'called', c.store(i, add(c.select(i), ONE)))
            return Z32
        f = g.callback('vt_cb_instr', cb, (32, 'p'), 32)
        g.set(R, 'callback', Arr('fn', lambda i: pv_ite(has_(i), f, NULLP), 'p'))
        g.set(R, 'callbackUserInfo', Arr('fn', lambda i: L.at(i), 'p'))


@goal('C17', functions=['BKInstrumentSetSequence', 'BKInstrumentSetEnvelope'],
      variants=[('%s.%d' % (x, i), dict(kw, at=i)) for x, kw in (('sequence', {'env': False}), ('envelope', {'env': True}), ('remove', {'env': False, 'empty': True}), ('remove-envelope', {'env': True, 'empty': True}))
                for i in range(SLOTS + 1)])
def instrument_set_sequence(g, env, at, empty=False):
    """a new sequence replaces the one of its slot in every state, which begin to play it muted and are told;
    if it cannot be made nothing changes"""
    d, qs, has, n_ = instrument(g)
    us = Users(g, d, qs, has, RESET)
    L, n, R = us.L, us.n, us.R
    g.bound(n, 3)
    slot = g.sym('slot', 32, 4) if at == SLOTS else c32(at)
    length = g.sym('length', 32)
    so, sl = g.sym('sustainOffset', 32), g.sym('sustainLength', 32)
    vs = g.obj('values', 'BKClock')
    vp = pv_ite(g.symbool('no_values'), NULLP, pv(vs))
    given = AND(NOT(pv_isnull(vp)), ne(length, Z32))
    g.assume(NOT(given) if empty else given)
    q = g.obj('made', 'BKSequence')
    res = g.sym('created', 32, vals=[0] + [K[x] for x in ('ALLOCATION_ERROR', 'INVALID_VALUE')])
    for k, v in (('created', Z32), ('disposed', Z32), ('phases', fill_arr(Z32, 32)), ('good', TRUE)):
        g.ghost(k, v)
    out = [None]

    def create(g_, S, a):
        want = pv(g_.glob('BKSequenceFuncsEnvelope' if env else 'BKSequenceFuncsSimple'))
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), pv_eq(a[1], want), pv_eq(a[2], vp), eq(a[3], length), eq(a[4], so), eq(a[5], sl)))
        g_.gset(S, 'created', add(g_.gget(S, 'created'), ONE))
        old = g_.load(a[0], 'p', s=S)
        g_.poke(S, a[0], pv_ite(eq(res, Z32), pv(q), old))
        return res
    g.stub('BKSequenceCreate', create)
    qi = lambda: pick(slot, [pv_ite(h, pv(x), NULLP) for h, x in zip(has, qs)])

    def dispose(g_, S, a):
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), OR(pv_isnull(a[0]), pv_eq(a[0], qi()))))
        g_.gset(S, 'disposed', add(g_.gget(S, 'disposed'), ite(pv_isnull(a[0]), Z32, ONE)))
    g.stub('BKSequenceDispose', dispose)

    def ph(g_, S, a):
        i = index_of(L, a[0])
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), eq(a[1], c32(MUTE)), ult(i, n)))
        c = g_.gget(S, 'phases')
        g_.gset(S, 'phases', c.store(i, add(c.select(i), ONE)))
    g.stub('BKInstrumentStateSetPhase', ph)

    def setv(g_, S, a):
        g_.poke(S, pv_add(a[0], bv(foff(g_, 'BKSequenceState', 'value'), 64)), a[1])
        return Z32
    g.stub('BKSequenceStateSetValue', setv)
    J = g.sym('J', 64, 0, 1 << 20)
    made = AND(given, eq(res, Z32))
    good = AND(ult(slot, c32(SLOTS)), OR(NOT(given), eq(res, Z32)))
    now = lambda i: pv_ite(eq(slot, c32(i)), pv_ite(made, pv(q), NULLP), pv_ite(has[i], pv(qs[i]), NULLP))

    def arrays(V):
        defs = {}
        for i in range(SLOTS):
            defs[(R, 'states[%d].sequence' % i)] = lambda V, i=i: (lambda j: pv_ite(ult(j, V.k), now(i), pv_ite(has[i], pv(qs[i]), NULLP)))
            pre = g.pre(R, 'states[%d].value' % i)
            defs[(R, 'states[%d].value' % i)] = lambda V, i=i, pre=pre: (lambda j: ite(ult(j, V.k), ite(pv_isnull(now(i)), c32(DEFAULT[i]), Z32), pre.select(j)))
        defs['phases'] = lambda V: (lambda j: ite(ult(j, V.k), ONE, Z32))
        defs['called'] = lambda V: (lambda j: ite(AND(ult(j, V.k), us.has(j)), ONE, Z32))
        return defs
    g.arrays(arrays)
    g.cands(lambda Lp: [('good', lambda V: V.ghost('good')), ('ok', lambda V: V.ghost('ok'))])
    r = g.call('BKInstrumentSetEnvelope' if env else 'BKInstrumentSetSequence', d, slot, vp, length, so, sl)
    g.ensure('result', eq(r, ite(ult(slot, c32(SLOTS)), ite(given, res, Z32), c32(K['INVALID_ATTRIBUTE']))))
    g.ensure('requests', AND(g.gget(None, 'good'), g.gget(None, 'ok')))
    g.ensure('created', eq(g.gget(None, 'created'), ite(AND(ult(slot, c32(SLOTS)), given), ONE, Z32)))
    g.ensure('previous-disposed', eq(g.gget(None, 'disposed'), ite(AND(good, NOT(pv_isnull(qi()))), ONE, Z32)))
    count = Z32
    for i in range(SLOTS):
        w = pv_ite(good, now(i), pv_ite(has[i], pv(qs[i]), NULLP))
        g.ensure('sequence%d' % i, pv_eq(g.rd(d, 'sequences').select(bv(i, 64)), w))
        count = ite(pv_isnull(w), count, c32(i + 1))
        sq, sv = g.rd(R, 'states[%d].sequence' % i), g.rd(R, 'states[%d].value' % i)
        pre = g.pre(R, 'states[%d].value' % i)
        g.forall('states.sequence%d' % i, n, lambda j: pv_eq(sq.select(j), w))
        g.forall('states.value%d' % i, n, lambda j: eq(sv.select(j), ite(good, ite(pv_isnull(w), c32(DEFAULT[i]), Z32), pre.select(j))))
    g.ensure('count', eq(g.rd(d, 'numSequences'), count))
    P, C = g.gget(None, 'phases'), g.gget(None, 'called')
    g.forall('states.muted', n, lambda j: eq(P.select(j), ite(good, ONE, Z32)))
    g.forall('states.told', n, lambda j: eq(C.select(j), ite(AND(good, us.has(j)), ONE, Z32)))
    g.frame((d, 'sequences'), (d, 'numSequences'), *[(R, 'states[%d].%s' % (i, f)) for i in range(SLOTS) for f in ('sequence', 'value')])


@goal('C17', functions=['BKInstrumentSetEnvelopeADSR'])
def instrument_adsr(g):
    """ADSR: to the maximum volume, down to the sustain volume, which is held until the release to silence"""
    d, qs, has, n_ = instrument(g)
    g.set(d, 'stateList', NULLP)
    a_, dec, sus, rel = [g.sym(x, 32) for x in ('attack', 'decay', 'sustain', 'release')]
    res = g.sym('created', 32, vals=[0, K['ALLOCATION_ERROR'], K['INVALID_VALUE']])
    q = g.obj('made', 'BKSequence')
    g.ghost('good', FALSE)
    g.ghost('calls', Z32)

    def create(g_, S, a):
        ld = lambda i, f: g_.load(pv_add(a[2], bv(8 * i + foff(g_, 'BKSequencePhase', f), 64)), 32, s=S)
        want = [(a_, c32(MAXV)), (dec, sus), (None, sus), (rel, Z32)]
        ok = AND(pv_eq(a[1], pv(g_.glob('BKSequenceFuncsEnvelope'))), eq(a[3], c32(4)), eq(a[4], c32(2)), eq(a[5], ONE))
        for i, (st, v) in enumerate(want):
            ok = AND(ok, eq(ld(i, 'value'), v), eq(ld(i, 'steps'), st) if st is not None else ne(ld(i, 'steps'), Z32))
        g_.gset(S, 'good', ok)
        g_.gset(S, 'calls', add(g_.gget(S, 'calls'), ONE))
        g_.poke(S, a[0], pv_ite(eq(res, Z32), pv(q), g_.load(a[0], 'p', s=S)))
        return res
    g.stub('BKSequenceCreate', create)
    g.stub('BKSequenceDispose', lambda g_, S, a: None)
    r = g.call('BKInstrumentSetEnvelopeADSR', d, a_, dec, sus, rel)
    g.ensure('result', eq(r, res))
    g.ensure('envelope', AND(g.gget(None, 'good'), eq(g.gget(None, 'calls'), ONE)))
    g.ensure('slot', pv_eq(g.rd(d, 'sequences').select(Z64_), pv_ite(eq(res, Z32), pv(q), pv_ite(has[0], pv(qs[0]), NULLP))))
    g.frame((d, 'sequences'), (d, 'numSequences'))


@goal('C17', functions=['BKInstrumentDetach', 'BKDispose'], variants=[('detach', {'fn': 'BKInstrumentDetach'}), ('dispose', {'fn': 'BKDispose'})])
def instrument_gone(g, fn):
    """every state is told and forgets the instrument and its sequences; all sequences of a disposed instrument are disposed"""
    d, qs, has, n_ = instrument(g)
    us = Users(g, d, qs, has, DISPOSE)
    L, n, R = us.L, us.n, us.R
    g.bound(n, 3)
    g.ghost('mask', Z32)
    g.ghost('good', TRUE)

    def dispose(g_, S, a):
        hit, m = FALSE, g_.gget(S, 'mask')
        for i in range(SLOTS):
            h = AND(has[i], pv_eq(a[0], pv(qs[i])))
            hit = OR(hit, AND(h, eq(band(m, c32(1 << i)), Z32)))
            m = bor(m, ite(h, c32(1 << i), Z32))
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), OR(hit, pv_isnull(a[0]))))
        g_.gset(S, 'mask', m)
    g.stub('BKSequenceDispose', dispose)

    def arrays(V):
        defs = {(R, 'instrument'): lambda V: (lambda i: pv_ite(ult(i, V.k), NULLP, pv(d))),
                (R, 'nextState'): lambda V: (lambda i: pv_ite(ult(i, V.k), NULLP, L.at(add(i, ONE64)))),
                (R, 'prevState'): lambda V: (lambda i: pv_ite(ule(i, V.k), NULLP, L.before(i))),
                'called': lambda V: (lambda j: ite(AND(ult(j, V.k), us.has(j)), ONE, Z32))}
        for i in range(SLOTS):
            defs[(R, 'states[%d].sequence' % i)] = lambda V, i=i: (lambda j: pv_ite(OR(ule(V.k, j), NOT(has[i])), pv_ite(has[i], pv(qs[i]), NULLP), NULLP))
        return defs
    g.arrays(arrays)

    def cands(Lp):
        return [('first', lambda V: pv_eq(V.rd(d, 'stateList'), L.at(V.k))), ('ok', lambda V: V.ghost('ok'))]
    g.cands(cands)
    g.call(fn, d)
    for f in ['instrument', 'nextState', 'prevState'] + ['states[%d].sequence' % i for i in range(SLOTS)]:
        a = g.rd(R, f)
        g.forall('states.' + f, n, lambda i: pv_eq(a.select(i), NULLP))
    C = g.gget(None, 'called')
    g.forall('states.told', n, lambda j: eq(C.select(j), ite(us.has(j), ONE, Z32)))
    mask = Z32
    for i in range(SLOTS):
        mask = bor(mask, ite(has[i], c32(1 << i), Z32))
    g.ensure('sequences', AND(g.gget(None, 'good'), eq(g.gget(None, 'mask'), mask if fn == 'BKDispose' else Z32)))
    g.ensure('no-states', pv_eq(g.rd(d, 'stateList'), NULLP))
    if fn == 'BKDispose':
        zeroed(g, pv(d), 'BKInstrument', TRUE, skip=())
    g.frame(*([(R, f) for f in ['instrument', 'nextState', 'prevState'] + ['states[%d].sequence' % i for i in range(SLOTS)]] + ([d] if fn == 'BKDispose' else [(d, 'stateList')])))


@goal('C17', functions=['BKInstrumentInitCopy'], variants=[(str(i), {'nseq': i}) for i in range(5)])
def instrument_copy(g, nseq):
    """a copy has copies of all sequences, no states, and can be disposed; a failed one keeps nothing"""
    d, qs, has, n_ = instrument(g, nseq=nseq)
    L = g.lst('states', 'BKInstrumentState', 'nextState')
    g.set(d, 'stateList', L.first())
    c = g.obj('copy', 'BKInstrument')
    new = [g.obj('new%d' % i, 'BKSequence') for i in range(SLOTS)]
    ans = g.rd(g.arr('answers', 1, SLOTS), 'data')
    fails = [eq(band(ans.select(bv(i, 64)), bv(1, 8)), bv(1, 8)) for i in range(SLOTS)]
    for k, v in (('copied', Z32), ('disposed', Z32), ('good', TRUE)):
        g.ghost(k, v)

    def copy(g_, S, a):
        r, m, p, hit = c32(K['ALLOCATION_ERROR']), g_.gget(S, 'copied'), g_.load(a[0], 'p', s=S), FALSE
        for i in range(SLOTS):
            h = pv_eq(a[1], pv(qs[i]))
            hit = OR(hit, AND(h, has[i], eq(band(m, c32(1 << i)), Z32)))
            ok = AND(h, NOT(fails[i]))
            r = ite(ok, Z32, r)
            p = pv_ite(ok, pv(new[i]), p)
            m = bor(m, ite(ok, c32(1 << i), Z32))
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), hit))
        g_.gset(S, 'copied', m)
        g_.poke(S, a[0], p)
        return r
    g.stub('BKSequenceCopy', copy)

    def dispose(g_, S, a):
        m, hit = g_.gget(S, 'disposed'), pv_isnull(a[0])
        for i in range(SLOTS):
            h = pv_eq(a[0], pv(new[i]))
            hit = OR(hit, AND(h, eq(band(m, c32(1 << i)), Z32)))
            m = bor(m, ite(h, c32(1 << i), Z32))
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), hit))
        g_.gset(S, 'disposed', m)
    g.stub('BKSequenceDispose', dispose)
    r = g.call('BKInstrumentInitCopy', c, d)
    bad = OR(*[AND(has[i], fails[i]) for i in range(SLOTS)])
    mask = Z32
    for i in range(SLOTS):
        mask = bor(mask, ite(has[i], c32(1 << i), Z32))
    g.ensure('result', eq(r, ite(bad, c32(K['ALLOCATION_ERROR']), Z32)))
    g.ensure('copies', AND(g.gget(None, 'good'), IMP(NOT(bad), AND(eq(g.gget(None, 'copied'), mask), eq(g.gget(None, 'disposed'), Z32)))))
    g.ensure('failed', IMP(bad, eq(g.gget(None, 'disposed'), g.gget(None, 'copied'))))
    for i in range(SLOTS):
        g.ensure('sequence%d' % i, IMP(NOT(bad), pv_eq(g.rd(c, 'sequences').select(bv(i, 64)), pv_ite(has[i], pv(new[i]), NULLP))))
    g.ensure('count', IMP(NOT(bad), eq(g.rd(c, 'numSequences'), n_)))
    g.ensure('no-states', pv_eq(g.rd(c, 'stateList'), NULLP))
    g.ensure('disposable', IMP(NOT(bad), AND(pv_eq(g.rd(c, 'object.isa'), pv(g.glob('BKInstrumentClass'))), eq(g.rd(c, 'object.flags'), c32(INITED)))))
    g.frame(c)
