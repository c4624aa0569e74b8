"""Contracts of BKUnit: waveform and sample playback, attributes, attaching."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal
from irv.loops import Inv

Z32, ONE, Z64_ = bv(0, 32), bv(1, 32), bv(0, 64)
MAXV = 32767
SQUARE, TRIANGLE, NOISE, SAWTOOTH, SINE, CUSTOM, SAMPLE = 1, 2, 3, 4, 5, 6, 7


def X(t):
    return sext(t, 64)


def U(t):
    return zext(t, 64)


# ------------------------------------------------------------------ what the waveforms are
TRI = [0, 2047, 4095, 6143, 8191, 10239, 12287, 14335]
TRI = TRI + TRI[::-1]
TRI = TRI + [0] * 0 + [-v for v in [2047, 4095, 6143, 8191, 10239, 12287, 14335, 16383]] + [-v for v in [16383, 14335, 12287, 10239, 8191, 6143, 4095, 2047]]
SAW = [32766 - 5461 * i for i in range(7)]


def sine():
    import math
    return [int(math.sin(2 * math.pi * i / 32) * 32767 + (1e-6 if i < 16 else -1e-6)) for i in range(32)]


def square(duty):
    """`duty` neighbouring phases of 16 differ from the rest"""
    if duty <= 8:
        s = 1 if duty == 1 else 2 + (duty - 2) // 2 if duty < 8 else 5
        return [MAXV if s <= i < s + duty else 0 for i in range(16)]
    return [-MAXV if 15 - duty <= i < 15 else 0 for i in range(16)]


def table(vals, i):
    r = bv(vals[-1] & 0xffffffff, 32)
    for k in range(len(vals) - 2, -1, -1):
        r = ite(eq(i, bv(k, 32)), bv(vals[k] & 0xffffffff, 32), r)
    return r


# ------------------------------------------------------------------ playing a waveform
from contracts.consts import K
N = 8
WAVES = [('square', {'wave': 'SQUARE'}), ('triangle', {'wave': 'TRIANGLE'}), ('sawtooth', {'wave': 'SAWTOOTH'}), ('sine', {'wave': 'SINE'}),
         ('noise', {'wave': 'NOISE'}), ('custom', {'wave': 'CUSTOM'})]


def amplitude(g, u, wave, ph, frames, duty):
    """level of the waveform at a phase, before the volume"""
    if wave == 'SQUARE':
        r = Z32
        for d in range(1, 16):
            r = ite(eq(duty, bv(d, 32)), table(square(d), ph), r)
        return r
    if wave == 'TRIANGLE':
        return table(TRI, ph)
    if wave == 'SAWTOOTH':
        return table(SAW, ph)
    if wave == 'SINE':
        return table([int(v / 2) for v in sine()], ph)
    if wave == 'CUSTOM':
        return sext(frames.select(U(ph)), 32)
    return ite(eq(lfsr(ph)[1], Z32), bv(-16383 & 0xffffffff, 32), bv(16383, 32))


def lfsr(ph):
    b = band(bxor(bxor(ph, lshr(ph, bv(2, 32))), bxor(lshr(ph, bv(3, 32)), lshr(ph, bv(5, 32)))), ONE)
    return bor(lshr(ph, ONE), shl(b, bv(15, 32))), b


@goal('C26', functions=['BKUnitRun'], variants=WAVES)
def unit_run_wave(g, wave):
    """every audible channel gets the waveform: one step per period, scaled by its volume, continued over runs"""
    g.usual(endTime=(1 << 16, 1 << 20), unit__period=(1 << 15, 1 << 20), unit__time=(0, 1 << 17), ctx__numChannels=(1, 3), unit__mute=(0, 0), unit__phase__wrap=(0, 5), unit__phase__wrapCount=(1, 4))
    ctx = g.obj('ctx', 'BKContext')
    ch = g.structs('channels', 'BKBuffer', N)
    nc = g.range(ctx, 'numChannels', 1, N)
    g.set(ctx, 'channels', pv(ch))
    u = g.obj('unit', 'BKUnit')
    g.set(u, 'ctx', pv(ctx))
    g.set(u, 'waveform', K[wave])
    end = g.sym('endTime', 32, 0, 1 << 31)
    p = g.range(u, 'period', 1, (1 << 31) - 1)
    t0 = g.range(u, 'time', 0, (1 << 31))
    g.bound(udiv(end, p), 6)
    g.arange(u, 'volume', 0, MAXV)
    duty = g.range(u, 'dutyCycle', 1, 15)
    muted = ne(g.rd(u, 'mute'), Z32)
    count = {'SQUARE': 16, 'TRIANGLE': 32, 'SAWTOOTH': 7, 'SINE': 32}.get(wave)
    frames = None
    wrap, w0 = g.rd(u, 'phase.wrap'), g.rd(u, 'phase.wrapCount')
    if count:
        p0 = g.range(u, 'phase.phase', 0, count - 1)
        n = bv(count, 32)
    else:
        n = g.range(u, 'phase.count', 2, 64)
        p0 = g.range(u, 'phase.phase', 0, 65535)
        g.assume(IMP(ne(wrap, Z32), AND(ule(bv(2, 32), wrap), ule(ONE, w0), ule(w0, wrap), ule(wrap, bv((1 << 31) - 1, 32)))))
        if wave == 'CUSTOM':
            g.assume(ult(p0, n))
            fr = g.arr('frames', 2, U(n))
            g.set(u, 'sample.frames', pv(fr))
            frames = g.rd(fr, 'data')
    seed = bv(0x4a41, 32) if wave == 'NOISE' else Z32
    start = ite(eq(p0, Z32), seed, p0)
    vol, last0 = g.rd(u, 'volume'), g.rd(u, 'lastPulse')

    def begin(ph, wc):
        """the phase that is played: a pattern with a wrap starts again"""
        if count:
            return ph, wc
        again = AND(ne(wrap, Z32), eq(sub(wc, ONE), Z32))
        return ite(again, seed, ph), ite(eq(wrap, Z32), wc, ite(again, wrap, sub(wc, ONE)))

    def level(ph, wc, v):
        return ashr(mul(amplitude(g, u, wave, begin(ph, wc)[0], frames, duty), v), bv(15, 32))

    def step(ph, wc):
        ph, wc = begin(ph, wc)
        return (lfsr(ph)[0] if wave == 'NOISE' else ite(eq(add(ph, ONE), n), Z32, add(ph, ONE))), wc
    done = lambda t, *a: ule(end, t)
    FT = g.fun('time', 32, done, lambda t: t, lambda t: (add(t, p),))
    FP = g.fun('phase', 32, done, lambda t, ph, wc: ph, lambda t, ph, wc: (add(t, p),) + step(ph, wc))
    FW = g.fun('wrap', 32, done, lambda t, ph, wc: wc, lambda t, ph, wc: (add(t, p),) + step(ph, wc))
    FL = g.fun('level', 32, done, lambda t, ph, wc, l, v: l, lambda t, ph, wc, l, v: (add(t, p),) + step(ph, wc) + (level(ph, wc, v), v))

    c = g.sym('channel', 32, 0, N - 1)          # the channel which is listened to
    g.assume(ult(c, nc))
    vc_, lc = vol.select(U(c)), last0.select(U(c))
    for k, v in (('ok', TRUE), ('t', t0), ('ph', start), ('wc', w0), ('l', lc), ('ended', Z32)):
        g.ghost(k, v)
    audible = lambda j: AND(ult(bv(j, 32), nc), ne(vol.select(bv(j, 64)), Z32), NOT(muted))
    bsize = g.struct_size('BKBuffer')

    def chan(q):
        idx, hit = Z32, FALSE
        for gd, b, o in q.ts:
            if b is ch and o.op == 'lin' and o.data[0] == 0 and list(o.data[1]) == [bsize]:
                x = o.args[0]
                idx, hit = ite(gd, trunc(x, 32), idx), OR(hit, AND(gd, ult(x, bv(N, 64))))
            elif b is ch:
                for i in range(N):
                    h = AND(gd, eq(o, bv(i * bsize, 64)))
                    idx, hit = ite(h, bv(i, 32), idx), OR(hit, h)
        return idx, hit
    NAMES = ('t', 'ph', 'wc', 'l')

    def pulse(g_, S, a):
        q = lambda x: g.gget(S, x)
        i, hit = chan(a[0])
        on = eq(i, c)
        t, ph, wc, l = [q(x) for x in NAMES]
        want = level(ph, wc, vc_)
        g.gset(S, 'ok', AND(q('ok'), hit, ult(i, nc), NOT(muted), ult(a[1], end), IMP(on, AND(ne(vc_, Z32), eq(a[1], t), eq(a[2], sub(want, l))))))
        nx = (add(t, p),) + step(ph, wc) + (want,)
        for x, old, new in zip(NAMES, (t, ph, wc, l), nx):
            g.gset(S, x, ite(on, new, old))
    g.stub('BKBufferAddPulse', pulse)

    def bend(g_, S, a):
        i, hit = chan(a[0])
        m = g.gget(S, 'ended')
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), hit, ult(i, nc), eq(a[1], end), eq(band(m, shl(ONE, i)), Z32)))
        g.gset(S, 'ended', bor(m, shl(ONE, i)))
        return Z32
    g.stub('BKBufferEnd', bend)

    def some(k):
        return OR(*[AND(ult(bv(j, 32), k), audible(j)) for j in range(N)])
    fin = (FT(t0), FP(t0, start, w0), FW(t0, start, w0), FL(t0, start, w0, lc, vc_))
    ARR = {(u, 'lastPulse'): lambda V: (lambda i: ite(AND(ult(i, V.k), ne(vol.select(i), Z32), NOT(muted)), FL(t0, start, w0, last0.select(i), vol.select(i)), last0.select(i)))}
    g.arrays(lambda V: ARR)
    is32 = lambda v: not isinstance(v, PV) and getattr(v, 'w', 0) == 32

    def cands(L):
        out = [('ok', lambda V: V.ghost('ok'))]
        k32 = lambda V: trunc(V.k, 32)
        on = AND(ne(vc_, Z32), NOT(muted))
        ps = [(x, lambda V, x=x: V.phis[x]) for x in L.other + list(L.steps)]
        ps = [(x, f) for x, f in ps if is32(L.phis[x])]
        cells = [(x, lambda V, x=x: V.rd(u, x)) for x in ('phase.phase', 'phase.wrapCount')]
        # over the channels
        for x, f, F_, z in [('o-phase', cells[0][1], fin[1], p0), ('o-wrap', cells[1][1], fin[2], w0)] + [(x + '=o-time', f, fin[0], Z32) for x, f in ps]:
            out.append((x, lambda V, f=f, F_=F_, z=z: eq(f(V), ite(some(k32(V)), F_, z))))
        for x, F_, z in zip(NAMES, fin, (t0, start, w0, lc)):
            out.append(('o-' + x, lambda V, x=x, F_=F_, z=z: eq(V.ghost(x), ite(AND(on, ult(c, k32(V))), F_, z))))
        out.append(('o-ended', lambda V: eq(V.ghost('ended'), sub(shl(ONE, k32(V)), ONE))))
        # over the pulses of channel e
        es = [x for x, v in L.entry.env.items() if isinstance(v, PV) and x in L.st.env and any(b is ch for _, b, _o in v.ts)]
        for e in es[:1]:
            def E(V, e=e):
                return chan(V.st.env[e])[0]
            for x in NAMES:
                out.append(('others-' + x, lambda V, x=x: OR(eq(E(V), c), eq(V.ghost(x), (V.entry or V.st).ghost[x]))))
            # what a variable of the loop can stand for follows from its value before the loop
            def role(*v0):
                hit = [(x, f) for x, f in ps if any(L.entry.env.get(x) is v for v in v0)]
                return hit or ps
            times, phs, wcs = role(t0), role(start, p0) + cells[:1], role(w0) + cells[1:]
            others = [(x, f) for x, f in ps if not any(x == y for y, _f in times + phs + wcs)] or ps
            out += [(x + '>=k', lambda V, f=f: ule(V.k, U(f(V)))) for x, f in times]
            for nm, fs in zip(NAMES, (times, phs, wcs, others)):
                for x, f in fs:
                    out.append(('%s=%s' % (x, nm), lambda V, f=f, nm=nm: IMP(eq(E(V), c), eq(f(V), V.ghost(nm)))))
            for x, f in phs:
                out.append(('%s-below' % x, lambda V, f=f: ult(f(V), n if wave != 'NOISE' else bv(65536, 32))))
            for x, f in wcs:
                out.append(('%s-wraps' % x, lambda V, f=f: OR(eq(wrap, Z32), AND(ule(ONE, f(V)), ule(f(V), wrap)))))
                out.append(('%s-fixed' % x, lambda V, f=f: IMP(eq(wrap, Z32), eq(f(V), w0))))
            v0 = lambda V: vol.select(U(E(V)))
            l0 = lambda V: last0.select(U(E(V)))
            if count:
                wcs = [('w0', lambda V: w0)]
            for xt, ft in times:
                out.append(('%s-FT' % xt, lambda V, ft=ft: (FT.unfold(ft(V)), eq(FT(ft(V)), fin[0]))[1]))
                for xp, fp in phs:
                    for xw, fw in wcs:
                        if len({xt, xp, xw}) < 3:
                            continue

                        def fpw(V, ft=ft, fp=fp, fw=fw):
                            s_ = (ft(V), fp(V), fw(V))
                            FP.unfold(*s_)
                            FW.unfold(*s_)
                            return AND(eq(FP(*s_), fin[1]), eq(FW(*s_), fin[2]))
                        out.append(('%s-%s-%s-FP' % (xt, xp, xw), fpw))
                        for xl, fl in others:
                            if xl in (xt, xp, xw):
                                continue

                            def fpl(V, ft=ft, fp=fp, fw=fw, fl=fl):
                                s_ = (ft(V), fp(V), fw(V), fl(V), v0(V))
                                FL.unfold(*s_)
                                return eq(FL(*s_), FL(t0, start, w0, l0(V), v0(V)))
                            out.append(('%s-%s-%s-%s-FL' % (xt, xp, xw, xl), fpl))
        return out
    g.cands(cands)
    r = g.call('BKUnitRun', u, end)
    any_ = some(nc)
    on = AND(ne(vc_, Z32), NOT(muted))
    g.ensure('pulses', g.gget(None, 'ok'))
    g.ensure('all-pulses', IMP(on, AND(*[eq(g.gget(None, x), f) for x, f in zip(NAMES, fin)])))
    g.ensure('all-channels-ended', eq(g.gget(None, 'ended'), sub(shl(ONE, nc), ONE)))
    ft = fin[0]
    g.ensure('next-pulse-time', eq(g.rd(u, 'time'), ite(any_, ite(ult(ft, end), end, ft), end)))
    g.ensure('phase', eq(g.rd(u, 'phase.phase'), ite(any_, fin[1], p0)))
    g.ensure('wrap', eq(g.rd(u, 'phase.wrapCount'), ite(any_, fin[2], w0)))
    g.ensure('level', eq(g.rd(u, 'lastPulse').select(U(c)), ite(on, fin[3], lc)))
    g.forall('other-levels', N, lambda i: OR(ult(i, U(nc)), eq(g.rd(u, 'lastPulse').select(i), last0.select(i))))
    g.ensure('result', eq(r, Z32))
    g.frame((u, 'lastPulse'), (u, 'time'), (u, 'phase.phase'), (u, 'phase.wrapCount'))
