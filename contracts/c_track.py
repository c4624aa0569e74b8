"""Contracts of tracks: attributes, effects, notes, and what reaches the unit of the track."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal
from contracts.consts import K
from contracts.c_object import zeroed
from contracts.c_attrs import c32, U, clamp, foff
from contracts.c_data import when

Z32, ONE = bv(0, 32), bv(1, 32)
Z64_, ONE64 = bv(0, 64), bv(1, 64)
MAXV = 32767
UNIT = 1 << 20
STEPS = 1 << 16
INSTR, ARP, PAN, TRI, IGN = 1, 2, 4, 8, 16
VOL, NOTE, DUTY = 32, 64, 128
UPD = VOL | NOTE | DUTY
EFFECTS = ['VOLUME_SLIDE', 'PANNING_SLIDE', 'PORTAMENTO', 'TREMOLO', 'VIBRATO']
EFLAG = {e: 1 << (16 + i) for i, e in enumerate(EFFECTS)}
SLIDES = ['volume', 'panning', 'note', 'tremoloDelta', 'tremoloSteps', 'vibratoDelta', 'vibratoSteps']
SHIFT = {'volume': 15, 'panning': 15, 'note': 0, 'tremoloDelta': 15, 'tremoloSteps': 14, 'vibratoDelta': 0, 'vibratoSteps': 14, 'tremolo': 14, 'vibrato': 0}
INTERVALS = ['tremolo', 'vibrato']
RELEASE_NOTE, MUTE_NOTE = c32(-1), c32(-2)
MUTE, ATTACK, RELEASE = 0, 1, 2
ARPEGGIO = 8


def track(g, name='track'):
    t = g.obj(name, 'BKTrack')
    g.set(t, 'unit.object.isa', pv(g.glob('BKTrackClass')))
    for f, s in SHIFT.items():
        g.set(t, f + '.valueShift', s)
    return t


def has(flags, bit):
    return ne(band(flags, c32(bit)), Z32)


def flag(flags, bit, on):
    return ite(on, bor(flags, c32(bit)), band(flags, c32(~bit)))


def same_flags(f0, f1, but=0):
    """all flags are the same except the given ones and those which ask for an update"""
    m = c32(~(but | UPD))
    return eq(band(f0, m), band(f1, m))


def off(p):
    r = Z64_
    for gd, b, o in p.ts:
        r = ite(gd, o, r)
    return r


def based(p, r):
    return OR(*[gd for gd, b, o in p.ts if b is r])


class Log(object):
    """what a track asks of its unit, its slides and intervals; these functions have contracts of their own (C13, C14, C27)"""

    def __init__(l, g, t, ret=Z32, got=None):
        l.g, l.t = g, t
        g.ghost('l.ok', TRUE)
        for k in ('uv', 'uc', 'sc', 'ic', 'is'):
            g.ghost(k, fill_arr(Z32, 32))

        def unit_set(g_, S, a):
            i = U(a[1])
            g_.gset(S, 'l.ok', AND(g_.gget(S, 'l.ok'), pv_eq(a[0], pv(t))))
            c, v = g_.gget(S, 'uc'), g_.gget(S, 'uv')
            g_.gset(S, 'uc', c.store(i, add(c.select(i), ONE)))
            g_.gset(S, 'uv', v.store(i, a[2]))
            return ret
        g.stub('BKUnitSetAttr', unit_set)

        def unit_get(g_, S, a):
            g_.gset(S, 'l.ok', AND(g_.gget(S, 'l.ok'), pv_eq(a[0], pv(t))))
            g_.poke(S, a[2], got if got is not None else Z32)
            return ret
        if got is not None:
            g.stub('BKUnitGetAttr', unit_get)

        where = [(f, foff(g, 'BKTrack', f + '.value') - foff(g, 'BKSlideState', 'value')) for f in SLIDES]

        def slide(g_, S, a):
            o, hit, sh = off(a[0]), FALSE, Z32
            for f, at in where:
                h = eq(o, bv(at, 64))
                hit, sh = OR(hit, h), ite(h, c32(SHIFT[f]), sh)
            g_.gset(S, 'l.ok', AND(g_.gget(S, 'l.ok'), based(a[0], t), hit))
            c = g_.gget(S, 'sc')
            g_.gset(S, 'sc', c.store(o, add(c.select(o), ONE)))
            g_.put(S, a[0], 'BKSlideState', 'endValue', shl(a[1], sh))
            g_.put(S, a[0], 'BKSlideState', 'steps', a[2])
        g.stub('BKSlideStateSetValueAndSteps', slide)
        wi = [(f, foff(g, 'BKTrack', f + '.value') - foff(g, 'BKIntervalState', 'value')) for f in INTERVALS]

        def interval(g_, S, a):
            o, hit, sh = off(a[0]), FALSE, Z32
            for f, at in wi:
                h = eq(o, bv(at, 64))
                hit, sh = OR(hit, h), ite(h, c32(SHIFT[f]), sh)
            g_.gset(S, 'l.ok', AND(g_.gget(S, 'l.ok'), based(a[0], t), hit))
            c = g_.gget(S, 'ic')
            g_.gset(S, 'ic', c.store(o, add(c.select(o), ONE)))
            g_.put(S, a[0], 'BKIntervalState', 'delta', shl(a[1], sh))
            g_.put(S, a[0], 'BKIntervalState', 'steps', a[2])
        g.stub('BKIntervalStateSetDeltaAndSteps', interval)

        def istep(g_, S, a):
            o = off(a[0])
            g_.gset(S, 'l.ok', AND(g_.gget(S, 'l.ok'), based(a[0], t)))
            c = g_.gget(S, 'is')
            g_.gset(S, 'is', c.store(o, add(c.select(o), ONE)))
        g.stub('BKIntervalStateStep', istep)
        l.where, l.wi = dict(where), dict(wi)

    def ok(l):
        return l.g.gget(None, 'l.ok')

    def count(l, attr):
        return l.g.gget(None, 'uc').select(bv(K[attr], 64))

    def value(l, attr):
        return l.g.gget(None, 'uv').select(bv(K[attr], 64))

    def unit(l, **want):
        """exactly these attributes have been set: name -> (condition, value)"""
        r = l.ok()
        c, v = l.g.gget(None, 'uc'), l.g.gget(None, 'uv')
        for k in UNIT_ATTRS:
            on, x = want.get(k, (FALSE, Z32))
            i = bv(K[k], 64)
            r = AND(r, IMP(NOT(on), eq(c.select(i), Z32)), IMP(on, AND(ult(Z32, c.select(i)), eq(v.select(i), x))))
        return r

    def slides(l, *names):
        """no other slide was changed"""
        c = l.g.gget(None, 'sc')
        return AND(l.ok(), *[eq(c.select(bv(l.where[f], 64)), Z32) for f in SLIDES if f not in names])

    def slide(l, f, end, steps):
        g, t = l.g, l.t
        return AND(eq(g.rd(t, f + '.endValue'), shl(end, c32(SHIFT[f]))), eq(g.rd(t, f + '.steps'), steps),
                   ult(Z32, g.gget(None, 'sc').select(bv(l.where[f], 64))))


UNIT_ATTRS = ['WAVEFORM', 'DUTY_CYCLE', 'PERIOD', 'PHASE', 'PHASE_WRAP', 'VOLUME', 'VOLUME_0', 'VOLUME_1', 'MUTE', 'SAMPLE_PERIOD', 'FLAG_RELEASE', 'SAMPLE_REPEAT']


def frame_slides(t, *fs):
    return [(t, '%s.%s' % (f, x)) for f in fs for x in ('endValue', 'steps')]


def read(g, t, attr):
    out = g.arr('out', 4, 1)
    r = g.call('BKGetAttr', t, K[attr], out)
    return r, g.at(out, 'data', 0)


# ------------------------------------------------------------------ attributes
FIELD = {'MASTER_VOLUME': ('masterVolume', 0, MAXV), 'PITCH': ('pitch', -48 * UNIT, 48 * UNIT), 'SAMPLE_PITCH': ('samplePitch', -48 * UNIT, 48 * UNIT)}


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackGetAttr'], variants=[(a.lower(), {'attr': a}) for a in FIELD])
def track_field(g, attr):
    """the value is clamped, kept and heard with the next update"""
    t = track(g)
    l = Log(g, t)
    v = g.sym('value', 32, signed=True)
    f0 = g.rd(t, 'flags')
    f, lo, hi = FIELD[attr]
    r = g.call('BKSetAttr', t, K[attr], v)
    g.ensure('ok', eq(r, Z32))
    g.ensure('value', eq(g.rd(t, f), clamp(v, lo, hi)))
    g.ensure('update', AND(same_flags(f0, g.rd(t, 'flags')), has(g.rd(t, 'flags'), VOL if attr == 'MASTER_VOLUME' else NOTE)))
    g.ensure('unit', l.unit())
    g.frame((t, f), (t, 'flags'))
    if attr != 'PITCH':
        r, x = read(g, t, attr)
        g.ensure('read-back', AND(eq(r, Z32), eq(x, clamp(v, lo, hi))))


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackGetAttr'], variants=[('volume', {'attr': 'VOLUME', 'lo': 0}), ('panning', {'attr': 'PANNING', 'lo': -MAXV})])
def track_slide(g, attr, lo):
    """a new volume or panning is clamped and becomes the end of its slide, which keeps its number of steps"""
    t = track(g)
    l = Log(g, t)
    f = attr.lower()
    v = g.sym('value', 32, signed=True)
    f0, st = g.rd(t, 'flags'), g.rd(t, f + '.steps')
    r = g.call('BKSetAttr', t, K[attr], v)
    g.ensure('ok', eq(r, Z32))
    g.ensure('slide', AND(l.slide(f, clamp(v, lo, MAXV), st), l.slides(f)))
    g.ensure('update', AND(same_flags(f0, g.rd(t, 'flags')), has(g.rd(t, 'flags'), VOL)))
    g.ensure('unit', l.unit())
    g.frame((t, 'flags'), *frame_slides(t, f))
    r, x = read(g, t, attr)
    g.ensure('read-back', AND(eq(r, Z32), eq(x, clamp(v, lo, MAXV))))


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackGetAttr'], variants=[('arpeggio', {'attr': 'ARPEGGIO_DIVIDER', 'f': 'arpeggioDivider'}), ('effect', {'attr': 'EFFECT_DIVIDER', 'f': 'effectDivider'}), ('instrument', {'attr': 'INSTRUMENT_DIVIDER', 'f': 'instrDivider'})])
def track_divider(g, attr, f):
    """a new divider is used from the next tick on"""
    t = track(g)
    l = Log(g, t)
    v = g.sym('value', 32)
    r = g.call('BKSetAttr', t, K[attr], v)
    g.ensure('ok', eq(r, Z32))
    g.ensure('divider', AND(eq(g.rd(t, f + '.divider'), v), eq(g.rd(t, f + '.counter'), Z32)))
    g.ensure('unit', l.unit())
    g.frame((t, f + '.divider'), (t, f + '.counter'), (t, 'flags'))
    r, x = read(g, t, attr)
    g.ensure('read-back', AND(eq(r, Z32), eq(x, v)))


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackGetAttr'])
def track_triangle(g):
    """only the triangle waveform ignores its volume, and only if it shall"""
    t = track(g)
    l = Log(g, t)
    v, f0, w = g.sym('value', 32), g.rd(t, 'flags'), g.rd(t, 'waveform')
    r = g.call('BKSetAttr', t, K['TRIANGLE_IGNORES_VOLUME'], v)
    on = ne(v, Z32)
    f1 = g.rd(t, 'flags')
    g.ensure('ok', eq(r, Z32))
    g.ensure('flags', AND(same_flags(f0, f1, TRI | IGN), eq(has(f1, TRI), on), eq(has(f1, IGN), AND(on, eq(w, c32(K['TRIANGLE'])))), has(f1, VOL)))
    g.ensure('unit', l.unit())
    g.frame((t, 'flags'))
    r, x = read(g, t, 'TRIANGLE_IGNORES_VOLUME')
    g.ensure('read-back', AND(eq(r, Z32), eq(x, ite(on, ONE, Z32))))


@goal('C15', functions=['BKTrackSetAttr'])
def track_duty(g):
    """the duty cycle the unit accepts is the one of the track"""
    t = track(g)
    res, got = g.sym('result', 32, vals=[0, K['INVALID_VALUE']]), g.sym('accepted', 32, 1, 15)
    l = Log(g, t, res, got)
    v, f0, d0 = g.sym('value', 32), g.rd(t, 'flags'), g.rd(t, 'dutyCycle')
    r = g.call('BKSetAttr', t, K['DUTY_CYCLE'], v)
    g.ensure('ok', eq(r, res))
    g.ensure('duty', eq(g.rd(t, 'dutyCycle'), ite(eq(res, Z32), got, d0)))
    g.ensure('update', AND(same_flags(f0, g.rd(t, 'flags')), IMP(eq(res, Z32), has(g.rd(t, 'flags'), DUTY))))
    g.ensure('unit', l.unit(DUTY_CYCLE=(TRUE, v)))
    g.frame((t, 'flags'), (t, 'dutyCycle'))


def lookups(g):
    """period of a tone; only the tone and the sample rate matter"""
    g.ghost('tone', Z32)
    g.ghost('rate', Z32)
    g.ghost('lookups', Z32)
    g.ghost('tones', Z32)
    per, sper = g.sym('period', 32, 0, (1 << 31) - 1), g.sym('samplePeriod', 32, 0, (1 << 31) - 1)

    def tone(g_, S, a):
        g_.gset(S, 'tone', a[0])
        g_.gset(S, 'rate', a[1])
        g_.gset(S, 'tones', add(g_.gget(S, 'tones'), ONE))
        return per
    g.stub('BKTonePeriodLookup', tone)

    def log2(g_, S, a):
        g_.gset(S, 'tone', a[0])
        g_.gset(S, 'lookups', add(g_.gget(S, 'lookups'), ONE))
        return sper
    g.stub('BKLog2PeriodLookup', log2)
    return per, sper


def context(g, t, name='context'):
    """-> the track is in a context, the context"""
    x = g.obj(name, 'BKContext')
    on = g.symbool('attached')
    g.set(t, 'unit.ctx', pv_ite(on, pv(x), NULLP))
    return on, x


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackRun'])
def track_waveform(g):
    """the waveform of the unit is the one of the track; the period fits to its number of phases"""
    t = track(g)
    res, got = g.sym('result', 32, vals=[0, K['INVALID_VALUE']]), g.sym('accepted', 32, vals=[0] + [K[x] for x in ('SQUARE', 'TRIANGLE', 'NOISE', 'SAWTOOTH', 'SINE')])
    g.range(t, 'unit.phase.count', 1, 64)
    tones(g, t)
    per, sper = lookups(g)
    on, x = context(g, t)
    l = Log(g, t, res, got)
    v, f0, w0 = g.sym('value', 32), g.rd(t, 'flags'), g.rd(t, 'waveform')
    g.assume(OR(eq(res, Z32), ne(w0, c32(0))))
    r = g.call('BKSetAttr', t, K['WAVEFORM'], v)
    ok = eq(res, Z32)
    f1 = g.rd(t, 'flags')
    g.ensure('ok', eq(r, res))
    g.ensure('waveform', eq(g.rd(t, 'waveform'), ite(ok, got, w0)))
    g.ensure('flags', AND(same_flags(f0, f1, IGN), IMP(NOT(ok), eq(has(f0, IGN), has(f1, IGN))), IMP(ok, eq(has(f1, IGN), AND(has(f0, TRI), eq(got, c32(K['TRIANGLE']))))), IMP(ok, has(f1, VOL))))
    g.ensure('requested', AND(l.ok(), eq(l.value('WAVEFORM'), v)))
    g.ensure('period', IMP(AND(ok, on), OR(has(f1, NOTE), AND(ult(Z32, g.gget(None, 'tones')), eq(l.value('PERIOD'), udiv(per, g.rd(t, 'unit.phase.count')))))))
    g.frame((t, 'flags'), (t, 'waveform'))


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackGetAttr'], variants=[('set', {'how': 'BKSetAttr'}), ('get', {'how': 'BKGetAttr'})])
def track_forward(g, how):
    """all other attributes are those of the unit"""
    t = track(g)
    res = g.sym('result', 32)
    a, v = g.sym('attr', 32), g.sym('value', 32)
    mine = ['MASTER_VOLUME', 'VOLUME', 'PANNING', 'NOTE', 'SAMPLE_PITCH', 'ARPEGGIO_DIVIDER', 'EFFECT_DIVIDER', 'INSTRUMENT_DIVIDER', 'TRIANGLE_IGNORES_VOLUME', 'VOLUME_SLIDE', 'PANNING_SLIDE', 'PORTAMENTO']
    if how == 'BKSetAttr':
        mine += ['WAVEFORM', 'DUTY_CYCLE', 'PITCH']
    g.assume(AND(*[ne(a, c32(K[x])) for x in mine]))
    out = g.arr('out', 4, 1)
    g.ghost('good', TRUE)
    g.ghost('calls', Z32)

    def fwd(g_, S, b):
        x = eq(b[2], v) if how == 'BKSetAttr' else pv_eq(b[2], pv(out))
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), pv_eq(b[0], pv(t)), eq(b[1], a), x))
        g_.gset(S, 'calls', add(g_.gget(S, 'calls'), ONE))
        return res
    g.stub('BKUnitSetAttr' if how == 'BKSetAttr' else 'BKUnitGetAttr', fwd)
    r = g.call(how, t, a, v if how == 'BKSetAttr' else out)
    g.ensure('result', eq(r, res))
    g.ensure('forwarded', AND(g.gget(None, 'good'), eq(g.gget(None, 'calls'), ONE)))
    g.frame()


# ------------------------------------------------------------------ effects
@goal('C15', functions=['BKTrackSetEffect', 'BKTrackGetEffect', 'BKTrackSetPtr', 'BKTrackGetPtr'],
      variants=[('%s.%s' % (e.lower(), 'none' if n is None else n), {'e': e, 'n': n}) for e in EFFECTS for n in (None, 0, 1, 2, 3, 4)])
def track_effect(g, e, n):
    """missing values are 0, values are clamped, the effect is on if its first value is not 0; it is read back"""
    t = track(g)
    l = Log(g, t)
    k = 0 if n is None else n
    vs = g.arr('values', 4, max(k, 1))
    x = [g.at(vs, 'data', i) if i < k else Z32 for i in range(3)]
    if e == 'VIBRATO':
        g.assume(AND(sle(c32(-(1 << 28)), x[1]), sle(x[1], c32(1 << 28))))
    f0 = g.rd(t, 'flags')
    steps, more = clamp(x[0], 0, STEPS), clamp(x[2], 0, STEPS)
    ends = {s: g.rd(t, s + '.endValue') for s in SLIDES}
    r = g.call('BKSetPtr', t, K[e], NULLP if n is None else pv(vs), 4 * k)
    f1 = g.rd(t, 'flags')
    bit = EFLAG[e]
    g.ensure('ok', eq(r, Z32))
    g.ensure('flag', AND(same_flags(f0, f1, bit), IMP(slt(Z32, x[0]), has(f1, bit)), IMP(eq(x[0], Z32), NOT(has(f1, bit)))))
    g.ensure('unit', l.unit())
    if e in ('VOLUME_SLIDE', 'PANNING_SLIDE', 'PORTAMENTO'):
        f = {'VOLUME_SLIDE': 'volume', 'PANNING_SLIDE': 'panning', 'PORTAMENTO': 'note'}[e]
        g.ensure('slide', AND(l.slide(f, ashr(ends[f], c32(SHIFT[f])), steps), l.slides(f)))
        g.frame((t, 'flags'), *frame_slides(t, f))
        want = [steps, Z32, Z32]
    else:
        f = e.lower()
        d = clamp(x[1], 0, MAXV) if e == 'TREMOLO' else x[1]
        g.ensure('depth', l.slide(f + 'Delta', d, more))
        g.ensure('length', l.slide(f + 'Steps', steps, more))
        g.ensure('others', l.slides(f + 'Delta', f + 'Steps'))
        now = eq(more, Z32)
        g.ensure('at-once', AND(eq(g.gget(None, 'ic').select(bv(l.wi[f], 64)), ite(now, ONE, Z32)),
                                IMP(now, AND(eq(g.rd(t, f + '.delta'), shl(d, c32(SHIFT[f]))), eq(g.rd(t, f + '.steps'), steps)))))
        g.frame((t, 'flags'), (t, f + '.delta'), (t, f + '.steps'), *frame_slides(t, f + 'Delta', f + 'Steps'))
        want = [steps, d, more]
    out = g.arr('out', 4, max(k, 1))
    r = g.call('BKGetPtr', t, K[e], out, 4 * k)
    g.ensure('read', eq(r, Z32))
    for i in range(k):
        g.ensure('read-back%d' % i, eq(g.at(out, 'data', i), want[i] if i < 3 else Z32))


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackGetAttr'], variants=[(e.lower(), {'e': e}) for e in EFFECTS[:3]])
def track_effect_attr(g, e):
    """the number of steps of a slide is an attribute too"""
    t = track(g)
    l = Log(g, t)
    v = g.sym('value', 32, signed=True)
    f = {'VOLUME_SLIDE': 'volume', 'PANNING_SLIDE': 'panning', 'PORTAMENTO': 'note'}[e]
    f0, end = g.rd(t, 'flags'), g.rd(t, f + '.endValue')
    r = g.call('BKSetAttr', t, K[e], v)
    f1 = g.rd(t, 'flags')
    g.ensure('ok', eq(r, Z32))
    g.ensure('slide', AND(l.slide(f, ashr(end, c32(SHIFT[f])), clamp(v, 0, STEPS)), l.slides(f)))
    g.ensure('flag', AND(same_flags(f0, f1, EFLAG[e]), IMP(slt(Z32, v), has(f1, EFLAG[e])), IMP(eq(v, Z32), NOT(has(f1, EFLAG[e])))))
    g.frame((t, 'flags'), *frame_slides(t, f))
    r, x = read(g, t, e)
    g.ensure('read-back', AND(eq(r, Z32), eq(x, clamp(v, 0, STEPS))))


@goal('C15', functions=['BKTrackSetPtr', 'BKTrackGetPtr', 'BKTrackSetEffect', 'BKTrackGetEffect'], variants=[(h.lower(), {'how': h}) for h in ('BKSetPtr', 'BKGetPtr', 'BKTrackSetEffect', 'BKTrackGetEffect')])
def track_effect_unknown(g, how):
    """unknown effects are refused and change nothing"""
    t = track(g)
    a = g.sym('effect', 32, K['VOLUME_SLIDE'] - 1, K['VOLUME_SLIDE'] + 4094)
    g.assume(AND(*[ne(a, c32(K[e])) for e in EFFECTS]))
    vs = g.arr('values', 4, 3)
    r = g.call(how, t, a, vs, 12)
    g.ensure('refused', eq(r, c32(K['INVALID_ATTRIBUTE'])))
    g.frame()


# ------------------------------------------------------------------ arpeggio
@goal('C15', functions=['BKTrackSetPtr', 'BKTrackGetPtr'], variants=[('none' if n is None else str(n), {'n': n}) for n in (None, 0, 1, 2, 5, 9, 12)])
def track_arpeggio(g, n):
    """the notes which are given, but not more than announced or allowed, are played; without notes there is no arpeggio"""
    t = track(g)
    l = Log(g, t)
    k = 0 if n is None else n
    vs = g.arr('values', 4, max(k, 1))
    x = [g.at(vs, 'data', i) if i < k else Z32 for i in range(12)]
    g.range(t, 'arpeggio.count', 0, ARPEGGIO)
    g.range(t, 'arpeggio.offset', 0, ARPEGGIO - 1)
    f0, o0, notes0 = g.rd(t, 'flags'), g.rd(t, 'arpeggio.offset'), g.rd(t, 'arpeggio.notes')
    r = g.call('BKSetPtr', t, K['ARPEGGIO'], NULLP if n is None else pv(vs), 4 * k)
    cnt = clamp(x[0], 0, min(ARPEGGIO, max(k - 1, 0)))
    f1 = g.rd(t, 'flags')
    g.ensure('ok', eq(r, Z32))
    g.ensure('count', eq(g.rd(t, 'arpeggio.count'), cnt))
    g.ensure('flag', AND(same_flags(f0, f1, ARP), eq(has(f1, ARP), ne(cnt, Z32)), has(f1, NOTE)))
    a = g.rd(t, 'arpeggio.notes')
    for i in range(ARPEGGIO):
        g.ensure('note%d' % i, IMP(slt(c32(i), cnt), eq(a.select(bv(i, 64)), x[i + 1])))
    g.ensure('offset', eq(g.rd(t, 'arpeggio.offset'), ite(ult(o0, cnt), o0, Z32)))
    g.ensure('unit', l.unit())
    g.frame((t, 'flags'), (t, 'arpeggio.count'), (t, 'arpeggio.notes'), (t, 'arpeggio.offset'))
    out = g.arr('out', 4, ARPEGGIO + 1)
    r = g.call('BKGetPtr', t, K['ARPEGGIO'], out, 4 * (ARPEGGIO + 1))
    g.ensure('read-back', AND(eq(r, Z32), eq(g.at(out, 'data', 0), cnt)))
    for i in range(ARPEGGIO):
        g.ensure('read-back%d' % i, IMP(slt(c32(i), cnt), eq(g.at(out, 'data', i + 1), x[i + 1])))


# ------------------------------------------------------------------ updates of the unit
def slide_value(g, t, f):
    return ashr(add(g.rd(t, f + '.value'), g.rd(t, f + '.roundBias')), c32(SHIFT[f]))


def run(g):
    """-> end time, result of the unit"""
    end, res = g.sym('endTime', 32), g.sym('ran', 32)
    g.ghost('runs', Z32)
    g.ghost('run.ok', TRUE)
    return end, res


def stub_run(g, t, end, res, flags):
    def h(g_, S, a):
        g_.gset(S, 'runs', add(g_.gget(S, 'runs'), ONE))
        g_.gset(S, 'run.ok', AND(g_.gget(S, 'run.ok'), pv_eq(a[0], pv(t)), eq(a[1], end)))
        return res
    g.stub('BKUnitRun', h)


def tones(g, t):
    M = 1 << 27
    g.range(t, 'note.value', 0, 96 * UNIT)
    g.set(t, 'note.roundBias', 0)
    for f in ('arpeggio.delta', 'vibrato.value', 'pitch', 'samplePitch'):
        g.range(t, f, -M, M)
    g.set(t, 'vibrato.roundBias', 0)
    g.range(t, 'instrState.states[2].value', -M, M)


@goal('C15', functions=['BKTrackRun'])
def track_volume(g):
    """the volume of the unit is the one of the track, its instrument, tremolo and master volume; panning lowers the other side"""
    t = track(g)
    l = Log(g, t)
    end, res = run(g)
    stub_run(g, t, end, res, None)
    f0 = bor(band(g.sym('flags', 32), c32(~(NOTE | DUTY))), c32(VOL))
    g.set(t, 'flags', f0)
    for f, lo in (('volume', 0), ('panning', -MAXV), ('tremolo', -MAXV)):
        g.range(t, f + '.value', lo << 15, MAXV << 15)
        g.range(t, f + '.roundBias', 0, 1 << 14)
    v, p = slide_value(g, t, 'volume'), slide_value(g, t, 'panning')
    iv = g.range(t, 'instrState.states[0].value', 0, MAXV)
    ip = g.range(t, 'instrState.states[1].value', -MAXV, MAXV)
    m = g.range(t, 'masterVolume', 0, MAXV)
    tr = slide_value(g, t, 'tremolo')
    r = g.call('BKTrackRun', t, end)
    ins, ign = has(f0, INSTR), has(f0, IGN)
    part = lambda x, y: ashr(mul(x, y), c32(15))
    v = ite(AND(ign, ne(v, Z32)), c32(MAXV), v)
    v = ite(AND(ins, OR(NOT(ign), eq(iv, Z32))), part(v, iv), v)
    ab = ite(slt(tr, Z32), sub(Z32, tr), tr)
    v = ite(AND(has(f0, EFLAG['TREMOLO']), NOT(ign)), part(v, sub(c32(MAXV), ab)), v)
    v = part(clamp(v, 0, MAXV), m)
    p = ite(ins, add(p, ip), p)
    both = AND(ne(p, Z32), has(f0, PAN))
    q = clamp(p, -MAXV, MAXV)
    left = ite(slt(Z32, q), part(sub(c32(MAXV), q), v), v)
    right = ite(slt(q, Z32), part(add(c32(MAXV), q), v), v)
    g.ensure('unit', l.unit(VOLUME=(NOT(both), v), VOLUME_0=(both, left), VOLUME_1=(both, right)))
    g.ensure('done', eq(g.rd(t, 'flags'), band(f0, c32(~VOL))))
    g.ensure('runs', AND(eq(r, res), g.gget(None, 'run.ok'), eq(g.gget(None, 'runs'), ONE)))
    g.frame((t, 'flags'))


@goal('C15', functions=['BKTrackRun'])
def track_note(g):
    """the period of the unit is the one of the note with arpeggio, vibrato, instrument and pitch added"""
    t = track(g)
    tones(g, t)
    n = g.range(t, 'unit.phase.count', 1, 1 << 16)
    per, sper = lookups(g)
    on, x = context(g, t)
    l = Log(g, t)
    end, res = run(g)
    stub_run(g, t, end, res, None)
    f0 = bor(band(g.sym('flags', 32), c32(~(VOL | DUTY))), c32(NOTE))
    g.set(t, 'flags', f0)
    w = g.rd(t, 'waveform')
    r = g.call('BKTrackRun', t, end)
    note = slide_value(g, t, 'note')
    note = ite(has(f0, ARP), add(note, g.rd(t, 'arpeggio.delta')), note)
    note = ite(has(f0, EFLAG['VIBRATO']), add(note, slide_value(g, t, 'vibrato')), note)
    note = ite(has(f0, INSTR), add(note, g.rd(t, 'instrState.states[2].value')), note)
    note = add(note, g.rd(t, 'pitch'))
    smp = eq(w, c32(K['SAMPLE']))
    note = ite(smp, add(note, g.rd(t, 'samplePitch')), note)
    g.ensure('tone', IMP(on, AND(eq(g.gget(None, 'tone'), note), IMP(NOT(smp), eq(g.gget(None, 'rate'), g.rd(x, 'sampleRate'))))))
    g.ensure('unit', l.unit(PERIOD=(AND(on, NOT(smp)), udiv(per, ite(ult(n, c32(64)), n, c32(64)))), SAMPLE_PERIOD=(AND(on, smp), sper)))
    g.ensure('done', eq(g.rd(t, 'flags'), band(f0, c32(~NOTE))))
    g.ensure('runs', AND(eq(r, res), g.gget(None, 'run.ok'), eq(g.gget(None, 'runs'), ONE)))
    g.frame((t, 'flags'))


@goal('C15', functions=['BKTrackRun'])
def track_duty_update(g):
    """an instrument with a duty cycle replaces the one of the track; without updates the unit is only run"""
    t = track(g)
    l = Log(g, t)
    end, res = run(g)
    stub_run(g, t, end, res, None)
    f0 = band(g.sym('flags', 32), c32(~(VOL | NOTE)))
    g.set(t, 'flags', f0)
    r = g.call('BKTrackRun', t, end)
    iv = g.rd(t, 'instrState.states[3].value')
    g.ensure('unit', l.unit(DUTY_CYCLE=(has(f0, DUTY), ite(AND(has(f0, INSTR), ne(iv, Z32)), iv, g.rd(t, 'dutyCycle')))))
    g.ensure('done', eq(g.rd(t, 'flags'), band(f0, c32(~DUTY))))
    g.ensure('runs', AND(eq(r, res), g.gget(None, 'run.ok'), eq(g.gget(None, 'runs'), ONE)))
    g.frame((t, 'flags'))


# ------------------------------------------------------------------ notes and instruments
class Instr(object):
    """the instrument functions (C16, C17) as seen by a track"""

    def __init__(q, g, t):
        q.g = g
        q.base = foff(g, 'BKTrack', 'instrState.instrument') - foff(g, 'BKInstrumentState', 'instrument')
        for k in ('i.ok',):
            g.ghost(k, TRUE)
        for k in ('sets', 'phases', 'phase', 'ticks', 'level', 'starts', 'start', 'first'):
            g.ghost(k, Z32)
        duty = foff(g, 'BKTrack', 'instrState.states[3].sequence') - foff(g, 'BKSequenceState', 'sequence')

        def at(p, o):
            return AND(based(p, t), eq(off(p), bv(o, 64)))

        def inc(g_, S, k):
            g_.gset(S, k, add(g_.gget(S, k), ONE))

        def good(g_, S, c):
            g_.gset(S, 'i.ok', AND(g_.gget(S, 'i.ok'), c))

        def setter(g_, S, a):
            good(g_, S, at(a[0], q.base))
            inc(g_, S, 'sets')
            g_.put(S, a[0], 'BKInstrumentState', 'instrument', a[1])
            return Z32
        g.stub('BKInstrumentStateSetInstrument', setter)

        def phase(g_, S, a):
            good(g_, S, at(a[0], q.base))
            inc(g_, S, 'phases')
            g_.gset(S, 'phase', a[1])
            g_.gset(S, 'first', g_.gget(S, 'starts'))
        g.stub('BKInstrumentStateSetPhase', phase)

        def tick(g_, S, a):
            good(g_, S, at(a[0], q.base))
            inc(g_, S, 'ticks')
            g_.gset(S, 'level', a[1])
        g.stub('BKInstrumentStateTick', tick)

        def start(g_, S, a):
            good(g_, S, at(a[0], duty))
            inc(g_, S, 'starts')
            g_.gset(S, 'start', a[1])
            return Z32
        g.stub('BKSequenceStateSetValue', start)

    def n(q, k):
        return q.g.gget(None, k)


def instrument(g, t, name='instrument'):
    d = g.obj(name, 'BKInstrument')
    seqs = []
    for i in range(4):
        h = g.symbool('%s_has%d' % (name, i))
        seqs.append((h, pv_ite(h, pv(g.obj('%s_sequence%d' % (name, i), 'BKSequence')), NULLP)))
    g.set(d, 'sequences', Arr('fn', lambda i: _pick(i, [s for h, s in seqs]), 'p'))
    return d, seqs


def _pick(i, vals):
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = pv_ite(eq(i, bv(k, i.w)), vals[k], r)
    return r


def playing(g, t):
    """-> the track has an instrument, its sequences"""
    d, seqs = instrument(g, t)
    on = g.symbool('hasInstrument')
    f = g.sym('flags', 32)
    g.set(t, 'flags', flag(f, INSTR, on))
    g.set(t, 'instrState.instrument', pv_ite(on, pv(d), NULLP))
    for i, (h, s) in enumerate(seqs):
        g.set(t, 'instrState.states[%d].sequence' % i, pv_ite(on, s, NULLP))
    return on, d, seqs


def heard(g, flags, seqs, on):
    """values of all sequences reach the unit with the next update"""
    bits = [VOL, VOL, NOTE, DUTY]
    return AND(*[IMP(AND(on, h), has(flags, b)) for (h, s), b in zip(seqs, bits)])


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackGetAttr'])
def track_note_play(g):
    """a note is clamped and played; after a silence instrument, arpeggio and sample begin, otherwise the note slides"""
    t = track(g)
    on, d, seqs = playing(g, t)
    l, q = Log(g, t), Instr(g, t)
    v = g.sym('note', 32, 0, (1 << 31) - 1)
    f0, cur, w, o0 = g.rd(t, 'flags'), g.range(t, 'curNote', -1, 96 * UNIT), g.rd(t, 'waveform'), g.rd(t, 'arpeggio.offset')
    st, x0, c0 = g.rd(t, 'note.steps'), g.rd(t, 'note.value'), g.rd(t, 'instrDivider.counter')
    r = g.call('BKSetAttr', t, K['NOTE'], v)
    f1 = g.rd(t, 'flags')
    new, begin = clamp(v, 0, 96 * UNIT), eq(cur, c32(-1))
    attack = AND(begin, on)
    g.ensure('ok', eq(r, Z32))
    g.ensure('note', AND(l.slide('note', new, st), l.slides('note'), eq(g.rd(t, 'curNote'), new)))
    g.ensure('jumps', eq(g.rd(t, 'note.value'), ite(begin, new, x0)))
    g.ensure('stops', IMP(begin, eq(g.rd(t, 'note.step'), Z32)))
    g.ensure('unit', l.unit(MUTE=(TRUE, Z32), FLAG_RELEASE=(TRUE, Z32), PHASE=(AND(begin, eq(w, c32(K['SAMPLE']))), c32(-1))))
    g.ensure('attack', AND(q.n('i.ok'), eq(q.n('phases'), ite(attack, ONE, Z32)), IMP(attack, AND(eq(q.n('phase'), c32(ATTACK)), eq(g.rd(t, 'instrDivider.counter'), Z32))),
                           IMP(NOT(attack), eq(g.rd(t, 'instrDivider.counter'), c0))))
    own = AND(attack, seqs[3][0])
    g.ensure('duty-cycle', AND(IMP(own, AND(eq(q.n('start'), g.rd(t, 'dutyCycle')), ult(Z32, q.n('first')))), IMP(NOT(own), eq(q.n('starts'), Z32))))
    g.ensure('flags', AND(same_flags(f0, f1), has(f1, NOTE), heard(g, f1, seqs, attack)))
    g.ensure('arpeggio', eq(g.rd(t, 'arpeggio.offset'), ite(begin, Z32, o0)))
    g.frame((t, 'flags'), (t, 'curNote'), (t, 'note.value'), (t, 'note.step'), (t, 'arpeggio.offset'), (t, 'instrDivider.counter'), *frame_slides(t, 'note'))
    r, x = read(g, t, 'NOTE')
    g.ensure('read-back', AND(eq(r, Z32), eq(x, new)))


@goal('C15', functions=['BKTrackSetAttr', 'BKTrackGetAttr'], variants=[('release', {'v': -1}), ('mute', {'v': -2})])
def track_note_end(g, v):
    """a released note ends with its instrument or sample, otherwise at once; a muted one ends at once"""
    t = track(g)
    on, d, seqs = playing(g, t)
    l, q = Log(g, t), Instr(g, t)
    f0, uf, end, x0, s0 = g.rd(t, 'flags'), g.rd(t, 'unit.object.flags'), g.rd(t, 'note.endValue'), g.rd(t, 'note.value'), g.rd(t, 'note.step')
    r = g.call('BKSetAttr', t, K['NOTE'], c32(v))
    f1 = g.rd(t, 'flags')
    g.ensure('ok', eq(r, Z32))
    g.ensure('note', eq(g.rd(t, 'curNote'), c32(-1)))
    if v == -1:
        later = OR(on, has(uf, 1))
        g.ensure('unit', l.unit(FLAG_RELEASE=(later, ONE), MUTE=(NOT(later), ONE)))
        g.ensure('slide', AND(l.slides(), eq(g.rd(t, 'note.value'), x0), eq(g.rd(t, 'note.step'), ite(later, s0, Z32))))
    else:
        g.ensure('unit', l.unit(FLAG_RELEASE=(TRUE, Z32), MUTE=(TRUE, ONE)))
        g.ensure('slide', AND(l.slides(), eq(g.rd(t, 'note.value'), end), eq(g.rd(t, 'note.step'), Z32)))
    g.ensure('instrument', AND(q.n('i.ok'), eq(q.n('phases'), ite(on, ONE, Z32)), IMP(on, eq(q.n('phase'), c32(RELEASE if v == -1 else MUTE))), eq(q.n('starts'), Z32)))
    g.ensure('flags', AND(same_flags(f0, f1), has(f1, NOTE), heard(g, f1, seqs, on)))
    g.frame((t, 'flags'), (t, 'curNote'), (t, 'note.value'), (t, 'note.step'))
    r, x = read(g, t, 'NOTE')
    g.ensure('read-back', AND(eq(r, Z32), eq(x, c32(-1))))


@goal('C15', functions=['BKTrackSetPtr', 'BKTrackGetPtr'], variants=[('set', {'new': True}), ('remove', {'new': False})])
def track_instrument(g, new):
    """a new instrument plays the current note from its attack or is muted; setting the same again changes nothing;
    without note a track which loses its instrument is muted"""
    t = track(g)
    on, d, seqs = playing(g, t)
    l, q = Log(g, t), Instr(g, t)
    f0, cur = g.rd(t, 'flags'), g.range(t, 'curNote', -1, 96 * UNIT)
    c0 = g.rd(t, 'instrDivider.counter')
    end, x0, s0 = g.rd(t, 'note.endValue'), g.rd(t, 'note.value'), g.rd(t, 'note.step')
    if new:
        e, other = instrument(g, t, 'other')
        again = g.symbool('again')
        p = pv_ite(AND(on, again), pv(d), pv(e))
        change = NOT(AND(on, again))
        sq = other[3][0]
    else:
        p, change, sq = NULLP, on, FALSE
    r = g.call('BKSetPtr', t, K['INSTRUMENT'], p, 8)
    f1 = g.rd(t, 'flags')
    silent = eq(cur, c32(-1))
    g.ensure('ok', eq(r, Z32))
    g.ensure('instrument', AND(q.n('i.ok'), eq(q.n('sets'), ite(change, ONE, Z32)), pv_eq(g.rd(t, 'instrState.instrument'), p)))
    g.ensure('flags', AND(same_flags(f0, f1, INSTR), eq(has(f1, INSTR), B(new)), eq(band(f1, c32(UPD)), c32(UPD))))
    if new:
        g.ensure('phase', AND(eq(q.n('phases'), ite(change, ONE, Z32)), IMP(change, AND(eq(q.n('phase'), ite(silent, c32(MUTE), c32(ATTACK))), eq(g.rd(t, 'instrDivider.counter'), Z32)))))
        g.ensure('duty-cycle', IMP(AND(change, sq, NOT(silent)), AND(eq(q.n('start'), g.rd(t, 'dutyCycle')), ult(Z32, q.n('first')))))
        g.ensure('unit', AND(l.unit(), l.slides()))
        g.ensure('no-change', IMP(NOT(change), eq(g.rd(t, 'instrDivider.counter'), c0)))
        g.frame((t, 'flags'), (t, 'instrState.instrument'), (t, 'instrDivider.counter'))
    else:
        mute = AND(change, silent)
        g.ensure('phase', eq(q.n('phases'), Z32))
        g.ensure('unit', AND(l.unit(MUTE=(mute, ONE), FLAG_RELEASE=(mute, Z32)), l.slides()))
        g.ensure('note', AND(eq(g.rd(t, 'curNote'), cur), eq(g.rd(t, 'note.value'), ite(mute, end, x0)), eq(g.rd(t, 'note.step'), ite(mute, Z32, s0))))
        g.frame((t, 'flags'), (t, 'instrState.instrument'), (t, 'note.value'), (t, 'note.step'))
    out = g.arr('out', 8, 1, 'ptr')
    r = g.call('BKGetPtr', t, K['INSTRUMENT'], out, 8)
    g.ensure('read-back', AND(eq(r, Z32), pv_eq(g.at(out, 'data', 0), p)))


@goal('C15', functions=['BKTrackInstrStateCallback'], variants=[('dispose', {'ev': 1}), ('reset', {'ev': 0}), ('mute', {'ev': 2})])
def track_instrument_event(g, ev):
    """a disposed instrument is given up, a changed one is heard at once, the end of one ends the note"""
    t = track(g)
    tones(g, t)
    g.range(t, 'unit.phase.count', 1, 64)
    d, seqs = instrument(g, t)
    f0 = bor(g.sym('flags', 32), c32(INSTR))
    g.set(t, 'flags', f0)
    g.set(t, 'instrState.instrument', pv(d))
    lookups(g)
    on, x = context(g, t)
    for f in ('states[0].value', 'states[1].value'):
        g.range(t, 'instrState.' + f, 0, MAXV)
    for f in ('volume', 'panning', 'tremolo'):
        g.range(t, f + '.value', 0, MAXV << 15)
        g.range(t, f + '.roundBias', 0, 1 << 14)
    g.range(t, 'masterVolume', 0, MAXV)
    l, q = Log(g, t), Instr(g, t)
    cur = g.range(t, 'curNote', -1, 96 * UNIT)
    g.call('BKTrackInstrStateCallback', c32(ev), t)
    f1 = g.rd(t, 'flags')
    g.ensure('flags', same_flags(f0, f1, INSTR if ev == 1 else 0))
    g.ensure('good', AND(l.ok(), q.n('i.ok')))
    if ev == 1:
        g.ensure('given-up', AND(NOT(has(f1, INSTR)), pv_isnull(g.rd(t, 'instrState.instrument')), eq(band(f1, c32(UPD)), c32(UPD))))
        g.ensure('unit', l.unit(MUTE=(eq(cur, c32(-1)), ONE), FLAG_RELEASE=(eq(cur, c32(-1)), Z32)))
    elif ev == 0:
        done = lambda *a: OR(*[ult(Z32, l.count(x)) for x in a])
        g.ensure('heard', AND(OR(has(f1, VOL), done('VOLUME', 'VOLUME_0')), OR(has(f1, DUTY), done('DUTY_CYCLE')), IMP(on, OR(has(f1, NOTE), done('PERIOD', 'SAMPLE_PERIOD')))))
        g.ensure('note', eq(g.rd(t, 'curNote'), cur))
    else:
        g.ensure('note', eq(g.rd(t, 'curNote'), c32(-1)))
        g.ensure('unit', l.unit(MUTE=(TRUE, ONE), FLAG_RELEASE=(TRUE, Z32)))
        g.ensure('muted', AND(eq(q.n('phases'), ONE), eq(q.n('phase'), c32(MUTE))))


# ------------------------------------------------------------------ ticks
def ticked(c, n):
    return eq(c, Z32), sub(ite(eq(c, Z32), n, c), ONE)


@goal('C15', functions=['BKTrackTick'])
def track_tick(g):
    """arpeggio, instrument and effects advance when their divider says so, and everything which changed reaches the unit"""
    t = track(g)
    tones(g, t)
    g.range(t, 'unit.phase.count', 1, 64)
    lookups(g)
    on, x = context(g, t)
    ins, d, seqs = playing(g, t)
    f0 = g.rd(t, 'flags')
    g.range(t, 'masterVolume', 0, MAXV)
    for f, lo in (('volume', 0), ('panning', -MAXV), ('tremolo', -MAXV)):
        g.range(t, f + '.value', lo << 15, MAXV << 15)
        g.range(t, f + '.roundBias', 0, 1 << 14)
    g.range(t, 'instrState.states[0].value', 0, MAXV)
    g.range(t, 'instrState.states[1].value', -MAXV, MAXV)
    for f in SLIDES:
        g.range(t, f + '.step', 0, STEPS)
        g.range(t, f + '.stepDelta', -(1 << 20), 1 << 20)
        if SHIFT[f] == 15 or f == 'note':
            continue
        g.range(t, f + '.value', 0, 1 << 30)
        g.range(t, f + '.roundBias', 0, (1 << SHIFT[f]) // 2)
    g.range(t, 'tremoloDelta.value', 0, MAXV << 15)
    g.range(t, 'tremoloDelta.roundBias', 0, 1 << 14)
    div = {}
    for f in ('arpeggioDivider', 'instrDivider', 'effectDivider'):
        n = g.range(t, f + '.divider', 1, 1 << 20)
        c = g.sym(f, 32)
        c = ite(ult(c, n), c, Z32)
        g.set(t, f + '.counter', c)
        div[f] = c, ticked(c, n)
    cnt = g.range(t, 'arpeggio.count', 1, ARPEGGIO)
    o = g.sym('noteOffset', 32)
    o = ite(ult(o, cnt), o, Z32)
    g.set(t, 'arpeggio.offset', o)
    notes, M = g.rd(t, 'arpeggio.notes'), 1 << 27
    g.assume(AND(*[AND(sle(c32(-M), notes.select(bv(i, 64))), sle(notes.select(bv(i, 64)), c32(M))) for i in range(ARPEGGIO)]))
    l, q = Log(g, t), Instr(g, t)
    pre = {f: {x: g.rd(t, f + '.' + x) for x in ('value', 'step', 'stepDelta', 'endValue', 'steps', 'roundBias')} for f in SLIDES}
    d0 = g.rd(t, 'arpeggio.delta')
    g.call('BKTrackTick', NULLP, t)
    f1 = g.rd(t, 'flags')
    g.ensure('flags', same_flags(f0, f1))
    arp = has(f0, ARP)
    eff = OR(*[has(f0, EFLAG[e]) for e in EFFECTS])
    for f, act in (('arpeggioDivider', arp), ('instrDivider', ins), ('effectDivider', eff)):
        c, (tk, c1) = div[f]
        g.ensure('counter.' + f, eq(g.rd(t, f + '.counter'), ite(act, c1, c)))
    go = AND(arp, div['arpeggioDivider'][1][0])
    g.ensure('arpeggio', AND(eq(g.rd(t, 'arpeggio.delta'), ite(go, notes.select(U(o)), d0)),
                             eq(g.rd(t, 'arpeggio.offset'), ite(go, ite(ult(add(o, ONE), cnt), add(o, ONE), Z32), o))))
    g.ensure('instrument', AND(q.n('i.ok'), eq(q.n('ticks'), ite(ins, ONE, Z32)), IMP(ins, eq(q.n('level'), ite(div['instrDivider'][1][0], ONE, Z32)))))
    tk = div['effectDivider'][1][0]
    for f in SLIDES:
        e = {'volume': 'VOLUME_SLIDE', 'panning': 'PANNING_SLIDE', 'note': 'PORTAMENTO'}.get(f)
        if e:
            act = AND(tk, has(f0, EFLAG[e]))
        else:
            b = f[:7]
            act = AND(tk, has(f0, EFLAG[b.upper()]), ne(pre[b + 'Delta']['steps'], Z32))
        y = pre[f]
        act = AND(act, slt(Z32, y['step']))
        left = sub(y['step'], ONE)
        g.ensure('slide.' + f, AND(eq(g.rd(t, f + '.step'), ite(act, left, y['step'])),
                                   eq(g.rd(t, f + '.value'), ite(act, ite(eq(left, Z32), y['endValue'], add(y['value'], y['stepDelta'])), y['value']))))
    for f in INTERVALS:
        act = AND(tk, has(f0, EFLAG[f.upper()]))
        go = AND(act, ne(pre[f + 'Delta']['steps'], Z32))
        i = bv(l.wi[f], 64)
        g.ensure('interval.' + f, AND(eq(g.gget(None, 'is').select(i), ite(act, ONE, Z32)), eq(g.gget(None, 'ic').select(i), ite(go, ONE, Z32))))
        g.ensure('interval-slide.' + f, IMP(go, AND(eq(g.rd(t, f + '.delta'), shl(slide_value(g, t, f + 'Delta'), c32(SHIFT[f]))), eq(g.rd(t, f + '.steps'), slide_value(g, t, f + 'Steps')))))
    done = lambda *a: OR(*[ult(Z32, l.count(x)) for x in a])
    h = lambda i: AND(ins, seqs[i][0])
    vol = OR(has(f0, VOL), has(f0, EFLAG['VOLUME_SLIDE']), has(f0, EFLAG['PANNING_SLIDE']), has(f0, EFLAG['TREMOLO']), h(0), h(1))
    note = OR(has(f0, NOTE), has(f0, EFLAG['PORTAMENTO']), has(f0, EFLAG['VIBRATO']), AND(arp, div['arpeggioDivider'][1][0]), h(2))
    g.ensure('volume-heard', IMP(vol, done('VOLUME', 'VOLUME_0')))
    g.ensure('note-heard', IMP(AND(on, note), done('PERIOD', 'SAMPLE_PERIOD')))
    g.ensure('duty-cycle-heard', IMP(OR(has(f0, DUTY), h(3)), done('DUTY_CYCLE')))
    g.ensure('up-to-date', eq(band(f1, c32(UPD)), Z32))
    ex = [(t, f) for f in ('flags', 'arpeggio.delta', 'arpeggio.offset')] + [(t, f + '.counter') for f in div]
    ex += [(t, f + '.' + x) for f in SLIDES for x in ('value', 'step')] + [(t, f + '.' + x) for f in INTERVALS for x in ('delta', 'steps')]
    g.frame(*ex)


# ------------------------------------------------------------------ samples and other pointers
@goal('C15', functions=['BKTrackSetPtr'], variants=[(a.lower(), {'attr': a}) for a in ('WAVEFORM', 'SAMPLE')])
def track_sample(g, attr):
    """data the unit accepts is played with its own pitch; refused data is reported"""
    t = track(g)
    tones(g, t)
    g.range(t, 'unit.phase.count', 1, 64)
    per, sper = lookups(g)
    on, x = context(g, t)
    waves = [0] + [K[x] for x in ('SQUARE', 'TRIANGLE', 'NOISE', 'SAWTOOTH', 'SINE', 'CUSTOM', 'SAMPLE')]
    w0, w1 = g.sym('before', 32, vals=waves), g.sym('after', 32, vals=waves)
    res = g.sym('result', 32, vals=[0] + [K[x] for x in ('INVALID_VALUE', 'INVALID_NUM_CHANNELS', 'INVALID_NUM_FRAMES')])
    l = Log(g, t, Z32, None)
    cur, d = g.obj('current', 'BKData'), g.obj('data', 'BKData')
    for y in (cur, d):
        g.range(y, 'samplePitch', -48 * UNIT, 48 * UNIT)
    p = pv_ite(g.symbool('none'), NULLP, pv_ite(g.symbool('again'), pv(cur), pv(d)))
    p0 = pv_ite(g.symbool('nothing'), NULLP, pv(cur))
    g.set(t, 'unit.sample.dataState.data', p0)
    for k, v in (('set', Z32), ('p.ok', TRUE)):
        g.ghost(k, v)

    def setp(g_, S, a):
        g_.gset(S, 'p.ok', AND(g_.gget(S, 'p.ok'), pv_eq(a[0], pv(t)), eq(a[1], c32(K[attr])), pv_eq(a[2], p)))
        g_.gset(S, 'set', add(g_.gget(S, 'set'), ONE))
        g_.put(S, a[0], 'BKUnit', 'sample.dataState.data', pv_ite(eq(res, Z32), p, g_.get(S, a[0], 'BKUnit', 'sample.dataState.data')))
        return res
    g.stub('BKUnitSetPtr', setp)

    def getw(g_, S, a):
        g_.gset(S, 'p.ok', AND(g_.gget(S, 'p.ok'), pv_eq(a[0], pv(t)), eq(a[1], c32(K['WAVEFORM']))))
        g_.poke(S, a[2], ite(eq(g_.gget(S, 'set'), Z32), w0, w1))
        return Z32
    g.stub('BKUnitGetAttr', getw)
    f0 = g.rd(t, 'flags')
    wave0, sp0 = g.rd(t, 'waveform'), g.rd(t, 'samplePitch')
    r = g.call('BKSetPtr', t, K[attr], p, 8)
    f1 = g.rd(t, 'flags')
    need = TRUE if attr == 'WAVEFORM' else NOT(AND(eq(w0, c32(K['SAMPLE'])), pv_eq(p, p0)))
    did = ult(Z32, g.gget(None, 'set'))
    bad = AND(did, ne(res, Z32))
    w = ite(did, w1, w0)
    g.ensure('set', AND(g.gget(None, 'p.ok'), IMP(need, did)))
    g.ensure('result', eq(r, ite(did, res, Z32)))
    g.ensure('waveform', eq(g.rd(t, 'waveform'), ite(bad, wave0, w)))
    now = g.rd(t, 'unit.sample.dataState.data')
    pitch = pv_ite(pv_isnull(now), NULLP, now)
    want = ite(pv_isnull(now), Z32, ite(pv_eq(now, pv(d)), g.rd(d, 'samplePitch'), g.rd(cur, 'samplePitch')))
    g.ensure('pitch', eq(g.rd(t, 'samplePitch'), ite(bad, sp0, want)))
    g.ensure('flags', AND(same_flags(f0, f1, IGN), IMP(NOT(bad), AND(has(f1, VOL), eq(has(f1, IGN), AND(has(f0, TRI), eq(w, c32(K['TRIANGLE'])))))), IMP(bad, eq(has(f1, IGN), has(f0, IGN)))))
    done = lambda *a: OR(*[ult(Z32, l.count(x)) for x in a])
    g.ensure('period', IMP(AND(on, NOT(bad)), OR(has(f1, NOTE), done('PERIOD', 'SAMPLE_PERIOD'))))
    g.frame((t, 'flags'), (t, 'waveform'), (t, 'samplePitch'), (t, 'unit.sample.dataState.data'))


@goal('C15', functions=['BKTrackSetPtr', 'BKTrackGetPtr'], variants=[('set', {'how': 'BKSetPtr'}), ('get', {'how': 'BKGetPtr'})])
def track_forward_ptr(g, how):
    """all other pointers are those of the unit"""
    t = track(g)
    res, a = g.sym('result', 32), g.sym('attr', 32)
    mine = ['INSTRUMENT', 'ARPEGGIO'] + (['WAVEFORM', 'SAMPLE'] if how == 'BKSetPtr' else [])
    g.assume(AND(ne(band(a, c32(~4095)), c32(5 << 12)), *[ne(a, c32(K[x])) for x in mine]))
    out = g.arr('out', 4, 4)
    g.ghost('good', TRUE)
    g.ghost('calls', Z32)

    def fwd(g_, S, b):
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), pv_eq(b[0], pv(t)), eq(b[1], a), pv_eq(b[2], pv(out))))
        g_.gset(S, 'calls', add(g_.gget(S, 'calls'), ONE))
        return res
    g.stub('BKUnitSetPtr' if how == 'BKSetPtr' else 'BKUnitGetPtr', fwd)
    r = g.call(how, t, a, out, 16)
    g.ensure('result', eq(r, res))
    g.ensure('forwarded', AND(g.gget(None, 'good'), eq(g.gget(None, 'calls'), ONE)))
    g.frame()


@goal('C15', functions=['BKTrackSampleDataStateCallback'])
def track_data_event(g):
    """changed data reaches the unit, whose answer is returned; the period fits to the new data"""
    t = track(g)
    tones(g, t)
    g.range(t, 'unit.phase.count', 1, 64)
    lookups(g)
    on, x = context(g, t)
    l = Log(g, t)
    ev, res = g.sym('event', 32), g.sym('answer', 32)
    g.ghost('good', FALSE)

    def h(g_, S, a):
        g_.gset(S, 'good', AND(eq(a[0], ev), pv_eq(a[1], pv(t))))
        return res
    g.stub('BKUnitSampleDataStateCallback', h)
    r = g.call('BKTrackSampleDataStateCallback', ev, t)
    g.ensure('answer', AND(eq(r, res), g.gget(None, 'good')))
    g.ensure('period', IMP(AND(on, eq(res, Z32)), OR(has(g.rd(t, 'flags'), NOTE), ult(Z32, l.count('PERIOD')), ult(Z32, l.count('SAMPLE_PERIOD')))))
    g.frame((t, 'flags'))


# ------------------------------------------------------------------ lifecycle
@goal('C15', functions=['BKTrackAttach'])
def track_attach(g):
    """an attached track is ticked by the context and gives its unit volume and period for this context"""
    t = track(g)
    tones(g, t)
    g.range(t, 'unit.phase.count', 1, 64)
    lookups(g)
    x = g.obj('context', 'BKContext')
    nch = g.range(x, 'numChannels', 1, 8)
    f0 = band(g.sym('flags', 32), c32(~PAN))
    g.set(t, 'flags', f0)
    g.range(t, 'masterVolume', 0, MAXV)
    for f, lo in (('volume', 0), ('panning', -MAXV), ('tremolo', -MAXV)):
        g.range(t, f + '.value', lo << 15, MAXV << 15)
        g.range(t, f + '.roundBias', 0, 1 << 14)
    g.range(t, 'instrState.states[0].value', 0, MAXV)
    g.range(t, 'instrState.states[1].value', -MAXV, MAXV)
    g.set(t, 'unit.ctx', NULLP)
    res = g.sym('result', 32, vals=[0, K['INVALID_STATE']])
    l = Log(g, t)
    for k, v in (('good', TRUE), ('attached', Z32), ('dividers', Z32)):
        g.ghost(k, v)

    def attach(g_, S, a):
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), pv_eq(a[0], pv(t)), pv_eq(a[1], pv(x))))
        g_.gset(S, 'attached', add(g_.gget(S, 'attached'), ONE))
        g_.put(S, a[0], 'BKUnit', 'ctx', pv_ite(eq(res, Z32), pv(x), NULLP))
        return res
    g.stub('BKUnitAttach', attach)
    g.stub('BKContextSetAttrInt', lambda g_, S, a: g_.fresh('attr', 32))
    div = foff(g, 'BKTrack', 'divider.object.isa') - foff(g, 'BKDivider', 'object.isa')

    def divider(g_, S, a):
        g_.gset(S, 'good', AND(g_.gget(S, 'good'), pv_eq(a[0], pv(x)), based(a[1], t), eq(off(a[1]), bv(div, 64)), eq(a[2], c32(g_.track_clock))))
        g_.gset(S, 'dividers', add(g_.gget(S, 'dividers'), ONE))
        return Z32
    g.track_clock = 0
    g.stub('BKContextAttachDivider', divider)
    r = g.call('BKTrackAttach', t, x)
    ok = eq(res, Z32)
    f1 = g.rd(t, 'flags')
    g.ensure('result', AND(eq(r, res), g.gget(None, 'good'), eq(g.gget(None, 'attached'), ONE)))
    g.ensure('ticks', eq(g.gget(None, 'dividers'), ite(ok, ONE, Z32)))
    g.ensure('panning', AND(same_flags(f0, f1, PAN), eq(has(f1, PAN), AND(ok, eq(nch, c32(2))))))
    done = lambda *a: OR(*[ult(Z32, l.count(x)) for x in a])
    g.ensure('volume', IMP(ok, OR(has(f1, VOL), done('VOLUME', 'VOLUME_0'))))
    g.ensure('period', IMP(ok, OR(has(f1, NOTE), done('PERIOD', 'SAMPLE_PERIOD'))))
    g.frame((t, 'flags'), (t, 'unit.ctx'))


@goal('C15', functions=['BKTrackDetach', 'BKDispose'], variants=[('detach', {'fn': 'BKTrackDetach'}), ('dispose', {'fn': 'BKDispose'})])
def track_detach(g, fn):
    """a detached track is neither ticked nor played anymore; a disposed one gives up instrument and sample too"""
    t = track(g)
    f0 = g.rd(t, 'flags')
    g.set(t, 'unit.object.flags', 1 << 24)
    for k, v in (('good', TRUE), ('dividers', Z32), ('units', Z32), ('instr', Z32), ('disposed', Z32)):
        g.ghost(k, v)
    div = foff(g, 'BKTrack', 'divider.object.isa') - foff(g, 'BKDivider', 'object.isa')
    ins = foff(g, 'BKTrack', 'instrState.instrument') - foff(g, 'BKInstrumentState', 'instrument')

    def on(k, at, arg=None):
        def h(g_, S, a):
            g_.gset(S, 'good', AND(g_.gget(S, 'good'), based(a[0], t), eq(off(a[0]), bv(at, 64)), *([pv_isnull(a[1])] if arg else [])))
            g_.gset(S, k, add(g_.gget(S, k), ONE))
            return Z32 if arg else None
        return h
    g.stub('BKDividerDetach', on('dividers', div))
    g.stub('BKUnitDetach', on('units', 0))
    g.stub('BKUnitDisposeObject', on('disposed', 0))
    g.stub('BKInstrumentStateSetInstrument', on('instr', ins, True))
    g.call(fn, t)
    gone = fn == 'BKDispose'
    g.ensure('detached', AND(g.gget(None, 'good'), eq(g.gget(None, 'dividers'), ONE), ult(Z32, g.gget(None, 'units'))))
    g.ensure('given-up', AND(eq(g.gget(None, 'instr'), ONE if gone else Z32), eq(g.gget(None, 'disposed'), ONE if gone else Z32)))
    if gone:
        zeroed(g, pv(t), 'BKTrack', TRUE, skip=())
        g.frame(t)
    else:
        g.ensure('panning', AND(same_flags(f0, g.rd(t, 'flags'), PAN), NOT(has(g.rd(t, 'flags'), PAN))))
        g.frame((t, 'flags'))


def silent(g, t, l, master, wave, duty):
    """a track without note, effects and instrument"""
    rd = lambda f: g.rd(t, f)
    g.ensure('dividers', AND(eq(rd('arpeggioDivider.divider'), c32(4)), eq(rd('instrDivider.divider'), c32(4)), eq(rd('effectDivider.divider'), ONE),
                             *[eq(rd(f + '.counter'), Z32) for f in ('arpeggioDivider', 'instrDivider', 'effectDivider')]))
    g.ensure('kept', AND(eq(rd('masterVolume'), master), eq(rd('waveform'), wave), eq(rd('dutyCycle'), duty)))
    g.ensure('note', eq(rd('curNote'), c32(-1)))
    g.ensure('volume', AND(l.ok(), eq(rd('volume.endValue'), c32(MAXV << 15))))
    for f, s in SHIFT.items():
        g.ensure('slide.' + f, eq(rd(f + '.valueShift'), c32(s)))
        g.ensure('steps.' + f, AND(eq(rd(f + '.steps'), Z32), IMP(B(f != 'volume' and f in SLIDES), eq(rd(f + '.endValue' if f in SLIDES else f + '.delta'), Z32))))
    g.ensure('pitch', AND(eq(rd('pitch'), Z32), eq(rd('samplePitch'), Z32)))
    g.ensure('arpeggio', AND(eq(rd('arpeggio.count'), Z32), eq(rd('arpeggio.offset'), Z32), eq(rd('arpeggio.delta'), Z32)))
    g.ensure('instrument', AND(pv_isnull(rd('instrState.instrument')), pv_eq(rd('instrState.callback'), pv_func('BKTrackInstrStateCallback')), pv_eq(rd('instrState.callbackUserInfo'), pv(t)),
                               *[pv_isnull(rd('instrState.states[%d].sequence' % i)) for i in range(4)]))
    g.ensure('data-events', AND(pv_eq(rd('unit.sample.dataState.callback'), pv_func('BKTrackSampleDataStateCallback')), pv_eq(rd('unit.sample.dataState.callbackUserInfo'), pv(t))))
    g.ensure('muted', AND(ult(Z32, l.count('MUTE')), eq(l.value('MUTE'), ONE)))
    f1 = rd('flags')
    g.ensure('effects', eq(band(f1, c32(sum(EFLAG.values()) | INSTR | ARP)), Z32))
    g.ensure('update', AND(has(f1, VOL), has(f1, NOTE)))


@goal('C15', functions=['BKTrackClear', 'BKTrackReset'], variants=[('clear', {'fn': 'BKTrackClear'}), ('reset', {'fn': 'BKTrackReset'})])
def track_clear(g, fn):
    """clearing keeps waveform, duty cycle and master volume and resets everything else; a reset sets the default duty cycle"""
    t = track(g)
    g.set(t, 'unit.ctx', NULLP)
    for f in ('instrState.instrument',):
        g.set(t, f, NULLP)
    f0 = g.rd(t, 'flags')
    g.assume(NOT(has(f0, INSTR)))
    m, w0, d0 = g.range(t, 'masterVolume', 0, MAXV), g.rd(t, 'waveform'), g.rd(t, 'dutyCycle')
    for f in SHIFT:
        g.set(t, f + '.valueShift', 0)
    l = Log(g, t, Z32, None)

    def getw(g_, S, a):
        # the unit accepts everything
        v = g_.gget(S, 'uv').select(U(a[1]))
        g_.gset(S, 'l.ok', AND(g_.gget(S, 'l.ok'), pv_eq(a[0], pv(t))))
        g_.poke(S, a[2], v)
        return Z32
    g.stub('BKUnitGetAttr', getw)
    g.ghost('cleared', Z32)
    for n in ('BKUnitClear', 'BKUnitReset'):
        def clear(g_, S, a, n=n):
            g_.gset(S, 'l.ok', AND(g_.gget(S, 'l.ok'), pv_eq(a[0], pv(t))))
            g_.gset(S, 'cleared', bor(g_.gget(S, 'cleared'), ONE if n == 'BKUnitClear' else c32(2)))
            g_.put(S, a[0], 'BKUnit', 'sample.dataState.callback', pv_func('BKUnitSampleDataStateCallback'))
            g_.put(S, a[0], 'BKUnit', 'sample.dataState.callbackUserInfo', a[0])
        g.stub(n, clear)
    g.call(fn, t)
    duty = d0 if fn == 'BKTrackClear' else c32(4)
    g.ensure('unit-cleared', eq(g.gget(None, 'cleared'), ONE if fn == 'BKTrackClear' else c32(3)))
    silent(g, t, l, m, w0, duty)
    g.ensure('unit', AND(eq(l.value('WAVEFORM'), w0), eq(l.value('DUTY_CYCLE'), duty)))
    f1 = g.rd(t, 'flags')
    g.ensure('flags', AND(eq(band(f1, c32(TRI | PAN)), band(f0, c32(TRI | PAN))), eq(has(f1, IGN), AND(has(f0, TRI), eq(w0, c32(K['TRIANGLE']))))))


@goal('C15', functions=['BKTrackInit', 'BKTrackAlloc'], variants=[('init', {'heap': False}), ('alloc', {'heap': True})], malloc_may_fail=True)
def track_init(g, heap):
    """a new track is silent, unattached, runs its unit and its effects, and hears of its data"""
    g.heap_types('BKTrack')
    w = g.sym('waveform', 32)
    if heap:
        out = g.arr('out', 8, 1, 'ptr')
        r = g.call('BKTrackAlloc', out, w)
        p = g.at(out, 'data', 0)
        ok = eq(r, Z32)
    else:
        t = g.obj('track', 'BKTrack')
        r = g.call('BKTrackInit', t, w)
        p, ok = pv(t), TRUE
        g.ensure('result', eq(r, Z32))
    rd = lambda f: g.field(p, 'BKTrack', f)
    known = OR(*[eq(w, c32(K[x])) for x in ('SQUARE', 'TRIANGLE', 'NOISE', 'SAWTOOTH', 'SINE')])
    g.ensure('class', when(g, ok, lambda: AND(pv_eq(rd('unit.object.isa'), pv(g.glob('BKTrackClass'))), eq(rd('unit.object.flags'), c32(3 << 24 if heap else 1 << 24)))))
    g.ensure('functions', when(g, ok, lambda: AND(pv_eq(rd('unit.run'), pv_func('BKTrackRun')), pv_eq(rd('unit.reset'), pv_func('BKTrackReset')), pv_eq(rd('unit.end'), pv_func('BKUnitEnd')))))
    g.ensure('divider', when(g, ok, lambda: AND(eq(rd('divider.divider'), ONE), pv_eq(rd('divider.callback.func'), pv_func('BKTrackTick')), pv_eq(rd('divider.callback.userInfo'), p))))
    g.ensure('data-events', when(g, ok, lambda: AND(pv_eq(rd('unit.sample.dataState.callback'), pv_func('BKTrackSampleDataStateCallback')), pv_eq(rd('unit.sample.dataState.callbackUserInfo'), p))))
    g.ensure('instrument-events', when(g, ok, lambda: AND(pv_eq(rd('instrState.callback'), pv_func('BKTrackInstrStateCallback')), pv_eq(rd('instrState.callbackUserInfo'), p), pv_isnull(rd('instrState.instrument')))))
    g.ensure('waveform', when(g, ok, lambda: AND(eq(rd('waveform'), ite(known, w, Z32)), eq(rd('unit.waveform'), ite(known, w, Z32)), eq(rd('dutyCycle'), c32(4)))))
    g.ensure('playable', when(g, ok, lambda: ult(Z32, rd('unit.phase.count'))))
    g.ensure('silent', when(g, ok, lambda: AND(eq(rd('unit.mute'), ONE), eq(rd('curNote'), c32(-1)), eq(rd('masterVolume'), Z32), eq(rd('volume.value'), c32(MAXV << 15)), pv_isnull(rd('unit.ctx')))))
    g.ensure('dividers', when(g, ok, lambda: AND(eq(rd('arpeggioDivider.divider'), c32(4)), eq(rd('instrDivider.divider'), c32(4)), eq(rd('effectDivider.divider'), ONE))))
    g.ensure('flags', when(g, ok, lambda: AND(has(rd('flags'), TRI), eq(has(rd('flags'), IGN), eq(rd('waveform'), c32(K['TRIANGLE']))), eq(band(rd('flags'), c32(sum(EFLAG.values()) | INSTR | ARP | PAN)), Z32))))
