"""Contracts of sequences and envelopes and of the states which play them."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal
from irv.loops import Inv
from contracts.consts import K
from contracts.c_object import zeroed
from contracts.c_attrs import c32, U, clamp, foff
from contracts.c_data import when

Z32, ONE = bv(0, 32), bv(1, 32)
Z64_, ONE64 = bv(0, 64), bv(1, 64)
IMAX = c32(0x7fffffff)
NONE, STEP, REPEAT, FINISH = 0, 1, 2, 4
MUTE, ATTACK, RELEASE = 0, 1, 2
KINDS = [('sequence', {'env': False}), ('envelope', {'env': True})]
LEN = 1 << 24
VALUE = 1 << 30         # magnitude of the values of an envelope


def umin(a, b):
    return ite(ult(a, b), a, b)


def kinds(env):
    return 'BKSequenceFuncsEnvelope' if env else 'BKSequenceFuncsSimple'


def values(g, n, env, name='values'):
    """-> region, value of an index, steps of an index"""
    if env:
        r = g.structs(name, 'BKSequencePhase', n)
        g.arange(r, 'steps', 0, (1 << 31) - 1)
        g.arange(r, 'value', -VALUE, VALUE)
        v, s = g.rd(r, 'value'), g.rd(r, 'steps')
        return r, (lambda i: v.select(i)), (lambda i: s.select(i))
    r = g.arr(name, 4, n)
    v = g.rd(r, 'data')
    return r, (lambda i: v.select(i)), None


def mag(v):
    return ite(slt(v, Z32), neg(v), v)


def sequence(g, env, n=None, name='sequence'):
    """a sequence like the create functions make them -> object, value, steps, length, sustain begin and end, precision"""
    s = g.obj(name, 'BKSequence')
    g.set(s, 'funcs', pv(g.glob(kinds(env))))
    n = g.range(s, 'length', 1, LEN)
    g.bound(n, 4)
    so = umin(g.sym('sustainBegin', 32, 0, LEN), n)
    sl = umin(g.sym('sustainSize', 32, 0, LEN), sub(n, so))
    g.set(s, 'sustainOffset', so)
    g.set(s, 'sustainLength', sl)
    vr, v, st = values(g, U(n), env)
    g.set(s, 'values', pv(vr))
    fs = g.range(s, 'fracShift', 0, 30 if env else 0)
    return s, v, st, n, so, add(so, sl), fs


# ------------------------------------------------------------------ creating
@goal('C16', functions=['BKSequenceCreate'], variants=KINDS)
def sequence_create(g, env):
    """a new sequence has all the values, a sustain range inside of them and the best precision its values allow;
    an envelope whose sustain range takes no time is refused"""
    n = g.sym('length', 32, 1, LEN)
    g.bound(n, 4)
    vr = g.structs('values', 'BKSequencePhase', U(n)) if env else g.arr('values', 4, U(n))
    if env:
        g.arange(vr, 'value', -VALUE, VALUE)
        val, st = g.rd(vr, 'value'), g.rd(vr, 'steps')
    else:
        val = g.rd(vr, 'data')
    so, sl = g.sym('sustainOffset', 32), g.sym('sustainLength', 32)
    out = g.arr('out', 8, 1, kind='ptr')
    g.heap_tail('BKSequence', 'BKSequencePhase' if env else 4, U(n))
    o = umin(so, n)
    l = umin(sl, sub(n, o))
    bad = FALSE
    if env:
        M = g.rec('loudest', 32, Z32, lambda k, m: ite(slt(m, mag(val.select(k))), mag(val.select(k)), m))
        S = g.rec('steps', 32, Z32, lambda k, t: add(t, st.select(add(U(o), k))))
        bad = AND(ne(o, n), eq(S.at(U(l)), Z32))
        top = M.at(U(n))
        top = ite(ult(top, c32(16)), c32(16), top)

        def cands(L):
            res = []
            if L.k.op != 'v':
                return res
            for x in list(L.other) + list(L.steps):
                if isinstance(L.phis[x], PV) or getattr(L.phis[x], 'w', 0) != 32:
                    continue
                f = lambda V, x=x: V.phis[x]
                res += [(x + '=loudest', lambda V, f=f: (M.unfold(V.k), eq(f(V), M.at(V.k)))[1]),
                        (x + '=steps', lambda V, f=f: (S.unfold(V.k), eq(f(V), S.at(V.k)))[1]),
                        (x + '-value', lambda V, f=f: ule(f(V), c32(VALUE))),
                        (x + '-frac', lambda V, f=f: AND(ule(f(V), c32(30)), OR(eq(f(V), Z32), ule(shl(ONE, sub(f(V), ONE)), top))))]
            return res
        g.cands(cands)
    r = g.call('BKSequenceCreate', pv(out), pv(g.glob(kinds(env))), pv(vr), n, so, sl)
    done = eq(r, Z32)
    p = g.rd(out, 'data').select(Z64_)
    g.ensure('result', OR(done, AND(slt(r, Z32), OR(bad, eq(r, c32(K['ALLOCATION_ERROR']))))))
    g.ensure('refused', eq(eq(r, c32(K['INVALID_VALUE'])), bad) if env else ne(r, c32(K['INVALID_VALUE'])))
    fld = lambda f, w=32: g.load(pv_add(p, bv(foff(g, 'BKSequence', f), 64)), w)
    for f, v in (('length', n), ('sustainOffset', o), ('sustainLength', l)):
        g.ensure(f, when(g, done, lambda: eq(fld(f), v)))
    g.ensure('kind', when(g, done, lambda: pv_eq(fld('funcs', 'p'), pv(g.glob(kinds(env))))))
    g.ensure('no-states', when(g, done, lambda: pv_eq(fld('stateList', 'p'), NULLP)))
    if env:
        g.ensure('precision', when(g, done, lambda: (lambda fs: AND(ule(fs, c32(30)), OR(eq(fs, Z32), ult(top, shl(ONE, sub(c32(30), fs)))),
                                                             OR(eq(fs, c32(30)), ule(shl(ONE, sub(c32(29), fs)), top))))(fld('fracShift'))))
        for f, a in (('steps', st), ('value', val)):
            g.forall('copied.' + f, U(n), lambda i: when(g, done, lambda: eq(g.load(pv_add(fld('values', 'p'), add(scale(i, 8), bv(foff(g, 'BKSequencePhase', f), 64))), 32), a.select(i))))
    else:
        g.ensure('precision', when(g, done, lambda: eq(fld('fracShift'), Z32)))
        g.forall('copied', U(n), lambda i: when(g, done, lambda: eq(g.load(pv_add(fld('values', 'p'), scale(i, 4)), 32), val.select(i))))
    g.no_leak('no-leak', p)
    g.frame(out)


@goal('C16', functions=['BKSequenceCopy'], variants=KINDS)
def sequence_copy(g, env):
    """a copy has its own values and no states; it and the original can be disposed in any order"""
    s, v, st, n, so, se, fs = sequence(g, env)
    L = g.lst('states', 'BKSequenceState', 'nextState')
    g.set(s, 'stateList', L.first())
    out = g.arr('out', 8, 1, kind='ptr')
    g.heap_tail('BKSequence', 'BKSequencePhase' if env else 4, U(n))
    r = g.call('BKSequenceCopy', pv(out), s)
    done = eq(r, Z32)
    p = g.rd(out, 'data').select(Z64_)
    g.ensure('result', OR(done, eq(r, c32(K['ALLOCATION_ERROR']))))
    fld = lambda f, w=32: g.load(pv_add(p, bv(foff(g, 'BKSequence', f), 64)), w)
    for f in ('length', 'sustainOffset', 'sustainLength', 'fracShift'):
        g.ensure(f, when(g, done, lambda: eq(fld(f), g.pre(s, f))))
    g.ensure('kind', when(g, done, lambda: pv_eq(fld('funcs', 'p'), pv(g.glob(kinds(env))))))
    g.ensure('no-states', when(g, done, lambda: pv_eq(fld('stateList', 'p'), NULLP)))
    g.ensure('own-values', when(g, done, lambda: pv_eq(fld('values', 'p'), pv_add(p, bv(g.struct_size('BKSequence'), 64)))))
    q = lambda o: g.load(pv_add(fld('values', 'p'), o), 32)
    if env:
        for f, a in (('steps', st), ('value', v)):
            g.forall('copied.' + f, U(n), lambda i: when(g, done, lambda: eq(q(add(scale(i, 8), bv(foff(g, 'BKSequencePhase', f), 64))), a(i))))
    else:
        g.forall('copied', U(n), lambda i: when(g, done, lambda: eq(q(scale(i, 4)), v(i))))
    g.no_leak('no-leak', p)
    g.frame(out)


# ------------------------------------------------------------------ playing sequences
def state(g, s, n):
    t = g.obj('state', 'BKSequenceState')
    g.set(t, 'sequence', pv(s))
    ph = g.range(t, 'phase', 0, 2)
    off = ite(g.symbool('finished'), IMAX, umin(g.sym('position', 32, 0, LEN), n))
    g.set(t, 'offset', off)
    return t, ph, off


@goal('C16', functions=['BKSequenceStateStep'])
def sequence_step(g):
    """every step of a sequence gives its next value; the sustain range is repeated until it is released"""
    s, v, _st, n, so, se, fs = sequence(g, False)
    t, ph, off = state(g, s, n)
    v0 = g.rd(t, 'value')
    level = g.sym('level', 32, 0, 1)
    r = g.call('BKSequenceStateStep', t, level)
    on = AND(eq(level, ONE), ne(off, IMAX))
    rep = AND(eq(ph, c32(ATTACK)), sle(se, off))
    at = ite(rep, so, off)
    more = ult(at, n)
    g.ensure('result', eq(r, ite(on, ite(more, ite(rep, c32(REPEAT), c32(STEP)), c32(FINISH)), c32(NONE))))
    g.ensure('value', eq(g.rd(t, 'value'), ite(AND(on, more), v(U(at)), v0)))
    g.ensure('position', eq(g.rd(t, 'offset'), ite(on, ite(more, add(at, ONE), IMAX), off)))
    g.frame((t, 'value'), (t, 'offset'))


@goal('C16', functions=['BKSequenceStateSetPhase'])
def sequence_phase(g):
    """a sequence begins with its first value, is released after its sustain range and is finished if muted"""
    s, v, _st, n, so, se, fs = sequence(g, False)
    t, ph, off = state(g, s, n)
    v0 = g.rd(t, 'value')
    to = g.sym('to', 32, 0, 3)
    r = g.call('BKSequenceStateSetPhase', t, to)
    ok = ule(to, c32(2))
    at = ite(eq(to, c32(MUTE)), n, ite(eq(to, c32(ATTACK)), Z32, se))
    more = ult(at, n)
    g.ensure('result', eq(r, ite(ok, ite(more, c32(NONE), c32(FINISH)), c32(K['INVALID_ATTRIBUTE']))))
    g.ensure('value', eq(g.rd(t, 'value'), ite(AND(ok, more), v(U(at)), v0)))
    g.ensure('position', eq(g.rd(t, 'offset'), ite(ok, ite(more, at, IMAX), off)))
    g.ensure('phase', eq(g.rd(t, 'phase'), ite(ok, to, ph)))
    g.frame((t, 'value'), (t, 'offset'), (t, 'phase'))


@goal('C16', functions=['BKSequenceStateSetPhase', 'BKSequenceStateStep', 'BKSequenceStateSetValue'])
def sequence_none(g):
    """states without a sequence cannot be stepped but have a value"""
    t = g.obj('state', 'BKSequenceState')
    g.set(t, 'sequence', NULLP)
    a = g.sym('a', 32)
    g.ensure('phase', eq(g.call('BKSequenceStateSetPhase', t, a), c32(K['INVALID_STATE'])))
    g.ensure('step', eq(g.call('BKSequenceStateStep', t, a), c32(K['INVALID_STATE'])))
    g.ensure('set', eq(g.call('BKSequenceStateSetValue', t, a), Z32))
    g.ensure('value', eq(g.rd(t, 'value'), a))
    g.frame((t, 'value'))


@goal('C16', functions=['BKSequenceStateSetValue'], variants=KINDS)
def sequence_value(g, env):
    """setting the value of a state: an envelope slides from there to the end of its phase"""
    s, v, st, n, so, se, fs = sequence(g, env)
    t, ph, off = state(g, s, n)
    g.range(t, 'steps', 0, (1 << 31) - 1)
    a = g.sym('value', 32)
    # the envelope has bits for it
    g.assume(eq(ashr(shl(a, fs), fs), a))
    e, k, d0, sh0 = [g.rd(t, x) for x in ('endValue', 'steps', 'delta', 'shiftedValue')]
    dist = sub(e, shl(a, fs))
    g.assume(eq(sext(dist, 64), sub(sext(e, 64), sext(shl(a, fs), 64))))
    r = g.call('BKSequenceStateSetValue', t, a)
    g.ensure('result', eq(r, Z32))
    g.ensure('value', eq(g.rd(t, 'value'), a))
    if env:
        g.ensure('start', eq(g.rd(t, 'shiftedValue'), shl(a, fs)))
        g.ensure('slide', eq(g.rd(t, 'delta'), ite(eq(k, Z32), d0, sdiv(dist, ite(eq(k, Z32), ONE, k)))))
    g.frame(*([(t, 'value')] + ([(t, 'shiftedValue'), (t, 'delta')] if env else [])))


class Envelope(object):
    """what playing an envelope does: the phases without steps are skipped over, their value is kept"""

    def __init__(m, g):
        m.g = g
        m.s, m.v, m.st, m.n, m.so, m.se, m.fs = s, v, st, n, so, se, fs = sequence(g, True)
        # the sustain range takes time, see sequence_create
        z = m.z = g.sym('z', 32, 0, LEN)
        g.assume(OR(eq(so, n), AND(ule(so, z), ult(z, se), ne(st(U(z)), Z32))))
        m.t, m.ph, m.off = state(g, s, n)
        g.range(m.t, 'steps', 0, (1 << 31) - 1)
        for f in ('steps', 'delta', 'value', 'shiftedValue', 'endValue'):
            setattr(m, f, g.rd(m.t, f))

    def setup(m, ph):
        """the ghost functions of the phase `ph`; states: offset, value (with fraction), value, sustain range repeated"""
        g, v, st, n, so, se, fs = m.g, m.v, m.st, m.n, m.so, m.se, m.fs
        m.ph = ph
        loop = lambda o: AND(eq(ph, c32(ATTACK)), ule(se, o))
        at = lambda o: ite(loop(o), so, o)
        def done(o, *a):
            return OR(ule(n, at(o)), ne(st(U(at(o))), Z32))
        def nxt(o, sh, val, rep):
            w = shl(v(U(at(o))), fs)
            return add(at(o), ONE), w, ashr(w, fs), ite(loop(o), ONE, rep)
        m.O = g.fun('offset', 32, done, lambda o, *a: ite(ule(n, at(o)), IMAX, at(o)), nxt)
        m.S = g.fun('start', 32, done, lambda o, sh, val, rep: sh, nxt)
        m.V = g.fun('val', 32, done, lambda o, sh, val, rep: ite(ule(n, at(o)), val, ashr(sh, fs)), nxt)
        m.R = g.fun('rep', 32, done, lambda o, sh, val, rep: ite(loop(o), ONE, rep), nxt)
        m.funs = (m.O, m.S, m.V, m.R)
        m.after = ite(eq(m.steps, Z32), m.off, add(m.off, ONE))

    def run(m, start):
        return [F(*start) for F in m.funs]

    def inv(m, k0, start, active=TRUE):
        g, t = m.g, m.t
        FLD = ('offset', 'shiftedValue', 'value')

        def cands(L):
            if L.k.op != 'v':
                return []
            cell = lambda V, f: V.rd(t, f)
            first = lambda V: eq(V.k, Z64_)
            res = [('first-' + f, lambda V, f=f: IMP(first(V), eq(cell(V, f), k0[f]))) for f in FLD + ('steps', 'delta', 'endValue')]
            res += [('no-steps', lambda V: OR(first(V), eq(cell(V, 'steps'), Z32)))]
            res += [('went-on', lambda V: OR(first(V), ule(k0['steps'], ONE)))]
            res += [('offset', lambda V: ule(cell(V, 'offset'), m.n))]
            vs = [(x, lambda V, x=x: V.phis[x]) for x in L.other if not isinstance(L.phis[x], PV) and getattr(L.phis[x], 'w', 0) == 32]
            for x, f in vs or [('none', lambda V: c32(STEP))]:
                rep = lambda V, f=f: eq(f(V), c32(REPEAT))

                def fun(V, f=f, rep=rep):
                    s_ = tuple(cell(V, q) for q in FLD) + (ite(rep(V), ONE, Z32),)
                    for F in m.funs:
                        F.unfold(*s_)
                        F.unfold(*start)
                    return OR(first(V), AND(*[eq(F(*s_), F(*start)) for F in m.funs]))
                res += [(x + '-flag', lambda V, f=f: OR(eq(f(V), c32(STEP)), eq(f(V), c32(REPEAT)))),
                        (x + '-first', lambda V, f=f: IMP(first(V), eq(f(V), c32(STEP)))),
                        (x + '-fun', fun),
                        (x + '-once', lambda V, rep=rep: OR(rep(V), ule(V.k, U(cell(V, 'offset'))))),
                        (x + '-twice', lambda V, rep=rep: OR(NOT(rep(V)), AND(ult(m.so, m.n), ule(V.k, U(add(add(cell(V, 'offset'), m.n), ONE))), ule(cell(V, 'offset'), m.z)))),
                        ]
            res += [('ends', lambda V: ule(V.k, bv(4 * LEN, 64)))]
            return res
        g.cands(cands)

    def check(m, on, start, active):
        """`on`: phases were looked up beginning with the state `start`"""
        g, t, fs = m.g, m.t, m.fs
        o, sh, val, rep = m.run(start)
        end = eq(o, IMAX)
        new = AND(on, NOT(end))
        ps, pe = m.st(U(o)), shl(m.v(U(o)), fs)
        rd = lambda f: g.rd(t, f)
        g.ensure('position', IMP(on, eq(rd('offset'), o)))
        g.ensure('value', IMP(on, eq(rd('value'), val)))
        g.ensure('start', IMP(on, eq(rd('shiftedValue'), sh)))
        g.ensure('steps', IMP(new, AND(eq(rd('steps'), ps), ne(ps, Z32))))
        g.ensure('target', IMP(new, eq(rd('endValue'), pe)))
        g.ensure('slide', IMP(new, eq(rd('delta'), sdiv(sub(rd('endValue'), rd('shiftedValue')), ite(eq(rd('steps'), Z32), ONE, rd('steps'))))))
        g.ensure('no-steps-left', IMP(AND(on, end), eq(rd('steps'), Z32)))
        return ite(end, c32(FINISH), ite(eq(rep, ONE), c32(REPEAT), c32(STEP)))


@goal('C16', functions=['BKSequenceStateStep'], termination=True)
def envelope_step(g):
    """an envelope slides to the value of every phase in exactly its number of steps, then begins the next one that takes
    time; the sustain range is repeated until it is released"""
    m = Envelope(g)
    m.setup(m.ph)
    level = g.sym('level', 32, 0, 1)
    stay = ult(ONE, m.steps)
    ended = ne(m.steps, Z32)
    g.assume(IMP(ended, ult(m.off, m.n)))
    start = (m.after, ite(ended, m.endValue, m.shiftedValue), ite(ended, ashr(m.endValue, m.fs), m.value), Z32)
    m.inv({f: getattr(m, f if f != 'offset' else 'off') for f in ('offset', 'shiftedValue', 'value', 'steps', 'delta', 'endValue')}, start)
    r = g.call('BKSequenceStateStep', m.t, level)
    off = eq(m.off, IMAX)
    res = m.check(AND(NOT(off), NOT(stay)), start, TRUE)
    sl = AND(NOT(off), stay)
    rd = lambda f: g.rd(m.t, f)
    g.ensure('sliding.value', IMP(sl, eq(rd('value'), ashr(add(m.shiftedValue, m.delta), m.fs))))
    g.ensure('sliding.position', IMP(sl, AND(eq(rd('shiftedValue'), add(m.shiftedValue, m.delta)), eq(rd('steps'), sub(m.steps, ONE)), eq(rd('offset'), m.off),
                                             eq(rd('delta'), m.delta), eq(rd('endValue'), m.endValue))))
    g.ensure('finished', IMP(off, AND(eq(rd('value'), m.value), eq(rd('offset'), IMAX))))
    g.ensure('result', eq(r, ite(off, c32(NONE), ite(stay, c32(STEP), res))))
    g.frame(*[(m.t, f) for f in ('offset', 'steps', 'delta', 'value', 'shiftedValue', 'endValue')])


@goal('C16', functions=['BKSequenceStateSetPhase'], variants=[('mute', {'to': MUTE}), ('attack', {'to': ATTACK}), ('release', {'to': RELEASE}), ('unknown', {'to': 3})], termination=True)
def envelope_phase(g, to):
    """an envelope begins with its first phase, is released with the phase after its sustain range and slides from its
    current value; it is finished if muted"""
    m = Envelope(g)
    ph0 = m.ph
    m.setup(c32(to))
    rd = lambda f: g.rd(m.t, f)
    if to in (ATTACK, RELEASE):
        o = Z32 if to == ATTACK else m.se
        start = (o, m.shiftedValue, m.value, Z32)
        m.inv({'offset': o, 'shiftedValue': m.shiftedValue, 'value': m.value, 'steps': Z32, 'delta': m.delta, 'endValue': m.endValue}, start)
    r = g.call('BKSequenceStateSetPhase', m.t, c32(to))
    if to == 3:
        g.ensure('result', eq(r, c32(K['INVALID_ATTRIBUTE'])))
        g.frame()
        return
    if to == MUTE:
        g.ensure('result', eq(r, c32(FINISH)))
        g.ensure('position', eq(rd('offset'), m.n))
        g.ensure('no-steps-left', eq(rd('steps'), Z32))
        g.ensure('value', eq(rd('value'), m.value))
        g.ensure('start', eq(rd('shiftedValue'), shl(m.value, m.fs)))
    else:
        res = m.check(TRUE, start, TRUE)
        g.ensure('result', eq(r, res))
    g.ensure('phase', eq(rd('phase'), c32(to)))
    g.frame(*[(m.t, f) for f in ('phase', 'offset', 'steps', 'delta', 'value', 'shiftedValue', 'endValue')])


# ------------------------------------------------------------------ states of a sequence
@goal('C16', functions=['BKSequenceStateSetSequence'], variants=[('new', {'now': 'none', 'new': 'other'}), ('leave', {'now': 'used', 'new': 'none'}),
                                                               ('move', {'now': 'used', 'new': 'other'}), ('none', {'now': 'none', 'new': 'none'}), ('again', {'now': 'used', 'new': 'same'})])
def sequence_state_set(g, now, new):
    """a state is in the list of its sequence and in no other; a new sequence begins in the phase of the state"""
    f = g.obj('funcs', 'BKSequenceFuncs')
    ans = g.sym('answer', 32)
    ph = g.sym('phase', 32, 0, 2)
    g.ghost('told', Z32)
    g.ghost('ok', TRUE)
    a = g.obj('sequence', 'BKSequence')
    b = g.obj('other', 'BKSequence')
    ex = []
    if now == 'used':
        L = g.lst('states', 'BKSequenceState', 'nextState', 'prevState')
        n, R = L.count, L.region
        g.set(a, 'stateList', L.first())
        g.set(R, 'sequence', Arr('fill', pv(a), 'p'))
        m = g.sym('position', 64, 0, 1 << 20)
        g.assume(ult(m, n))
        s = pv(R, scale(m, L.size))
        PH = g.rd(R, 'phase')
        ph = PH.select(m)
        if new != 'same':
            ex += [(a, 'stateList'), (R, 'nextState'), (R, 'prevState'), (R, 'sequence')]
    else:
        o = g.obj('state', 'BKSequenceState')
        s = pv(o)
        g.set(o, 'sequence', NULLP)
        g.set(o, 'phase', ph)
        if new == 'other':
            ex += [(o, 'sequence'), (o, 'nextState'), (o, 'prevState')]
    C = g.lst('others', 'BKSequenceState', 'nextState', 'prevState')
    nc, Q = C.count, C.region
    g.set(b, 'stateList', C.first())
    if new == 'other':
        ex += [(b, 'stateList'), (Q, 'prevState')]

    def cb(g_, S, ar):
        g_.gset(S, 'ok', AND(g_.gget(S, 'ok'), pv_eq(ar[0], s), eq(ar[1], ph)))
        g_.gset(S, 'told', add(g_.gget(S, 'told'), ONE))
        return ans
    g.set(f, 'setPhase', g.callback('vt_cb_setphase', cb, ('p', 32), 32))
    for q in (a, b):
        g.set(q, 'funcs', pv(f))
    r = g.call('BKSequenceStateSetSequence', s, {'none': NULLP, 'other': pv(b), 'same': pv(a)}[new])
    g.ensure('told', AND(g.gget(None, 'ok'), eq(g.gget(None, 'told'), ONE if new == 'other' else Z32)))
    g.ensure('result', eq(r, ans if new == 'other' else Z32))
    if new != 'same' and now == 'used':
        nx, px, sx = [g.rd(R, x) for x in ('nextState', 'prevState', 'sequence')]
        g.ensure('first', pv_eq(g.rd(a, 'stateList'), pv_ite(eq(m, Z64_), L.at(ONE64), L.first())))
        g.forall('order', n, lambda i: OR(eq(i, m), pv_eq(nx.select(i), pv_ite(eq(add(i, ONE64), m), L.at(add(m, ONE64)), L.at(add(i, ONE64))))))
        g.forall('order-back', n, lambda i: OR(eq(i, m), pv_eq(px.select(i), pv_ite(eq(i, add(m, ONE64)), L.before(m), L.before(i)))))
        g.forall('others-keep', n, lambda i: OR(eq(i, m), pv_eq(sx.select(i), pv(a))))
    if new != 'same':
        get = (lambda x: g.rd(R, x).select(m)) if now == 'used' else (lambda x: g.rd(o, x))
        g.ensure('sequence', pv_eq(get('sequence'), pv(b) if new == 'other' else NULLP))
        if now == 'used' or new == 'other':
            g.ensure('links', AND(pv_eq(get('nextState'), C.first() if new == 'other' else NULLP), pv_eq(get('prevState'), NULLP)))
    if new == 'other':
        g.ensure('other.first', pv_eq(g.rd(b, 'stateList'), s))
        pq = g.rd(Q, 'prevState')
        g.forall('other.order-back', nc, lambda i: pv_eq(pq.select(i), pv_ite(eq(i, Z64_), s, C.before(i))))
    g.frame(*ex)


@goal('C16', functions=['BKSequenceDispose'], variants=[('sequence', {'null': False}), ('nothing', {'null': True})], termination=True)
def sequence_dispose(g, null):
    """states forget a disposed sequence, whose memory is given back"""
    if null:
        g.call('BKSequenceDispose', NULLP)
        g.frame()
        return
    s = g.obj('sequence', 'BKSequence')
    L = g.lst('states', 'BKSequenceState', 'nextState', 'prevState')
    n, R = L.count, L.region
    g.set(s, 'stateList', L.first())
    g.set(R, 'sequence', Arr('fill', pv(s), 'p'))

    def arrays(V):
        return {(R, 'sequence'): lambda V: (lambda i: pv_ite(ult(i, V.k), NULLP, pv(s))),
                (R, 'nextState'): lambda V: (lambda i: pv_ite(ult(i, V.k), NULLP, L.at(add(i, ONE64)))),
                (R, 'prevState'): lambda V: (lambda i: pv_ite(ule(i, V.k), NULLP, L.before(i)))}
    g.arrays(arrays)

    def cands(Lp):
        return [('first', lambda V: pv_eq(V.rd(s, 'stateList'), L.at(V.k))), ('within', lambda V: ule(V.k, n))]
    g.cands(cands)
    g.call('BKSequenceDispose', s)
    for f in ('sequence', 'nextState', 'prevState'):
        a = g.rd(R, f)
        g.forall('none.' + f, n, lambda i: pv_eq(a.select(i), NULLP))
    g.ensure('given-back', g.freed(s))
    g.frame(s, ('freed', s), (R, 'sequence'), (R, 'nextState'), (R, 'prevState'))
