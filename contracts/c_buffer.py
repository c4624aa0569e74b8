"""Contracts of BKBuffer (band-limited synthesis buffer)."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal

CAP = 4096            # frames that 12.20 times can address
NF = 4129             # frames array
W = 32                # pulse width


def buf_inv(g, buf):
    g.range(buf, 'capacity', 0, CAP)


def clamp16(x):
    """saturation of a 32-bit value to 16 bits"""
    return ite(slt(x, bv(-32768, 32)), bv(-32768, 16), ite(slt(bv(32767, 32), x), bv(32767, 16), extract(15, 0, x)))


def step(acc, frame):
    """one-pole high-pass (leaky integrator): a' = a - a/512 + frame"""
    return add(sub(acc, ashr(acc, bv(9, 32))), frame)


def sample(acc):
    return clamp16(ashr(acc, bv(14, 32)))


def phi_cands(recs):
    """loop candidates: some header value equals rec(k + d); ghost definition unfolded at k"""
    def c(L):
        out = []
        for rec, offs in recs:
            for d in offs:
                rec.unfold(add(L.k, d))
                for p in L.other:
                    def b(V, p=p, rec=rec, d=d):
                        v = V.phis[p]
                        if isinstance(v, PV) or v.w != rec.w:
                            return FALSE
                        return eq(v, rec.at(add(V.k, d)))
                    out.append(('%s=%s(k+%s)' % (p, rec.name, show(d)), b))
        return out
    return c


@goal('C01', 'C02', variants=[('interlace%d' % i, {'il': i}) for i in range(0, 9)], functions=['BKBufferRead'], unroll=4)
def read(g, il):
    """BKBufferRead: returns min(size, available), writes exactly that many interlaced samples,
    each the saturated leaky integral of the pending frames; shifts the pending frames."""
    buf = g.obj('buf', 'BKBuffer')
    buf_inv(g, buf)
    size = g.sym('size', 32)
    cap = g.rd(buf, 'capacity')
    step_ = max(il, 1)
    n = ite(ult(size, cap), size, cap)
    g.bound(n, 4)
    nn = zext(n, 64)
    # the caller provides exactly the room the samples need
    N = ite(eq(n, bv(0, 32)), Z64, add(scale(sub(nn, bv(1, 64)), step_), bv(1, 64)))
    out = g.arr('out', 2, N)
    fr0, acc0, t0, out0 = g.rd(buf, 'frames'), g.rd(buf, 'accum'), g.rd(buf, 'time'), g.rd(out, 'data')
    G = g.rec('acc', 32, acc0, lambda k, a: step(a, fr0.select(k)))
    # an arbitrary output index
    J = g.sym('J', 64, 0, 4095)
    I = g.sym('I', 64, 0, 1 << 20)
    G.unfold(J)
    base = phi_cands([(G, [Z64])])

    def cands(L):
        out_ = base(L)
        if g.sym_mode:
            out_.append(('k<=n', lambda V: ule(V.k, nn)))
            out_.append(('written', lambda V: IMP(ult(J, V.k), eq(V.rd(out, 'data').select(scale(J, step_)), sample(G.at(add(J, bv(1, 64))))))))
            out_.append(('gaps', lambda V: IMP(OR(ne(urem(I, bv(step_, 64)), Z64), ule(scale(V.k, step_), I)), eq(V.rd(out, 'data').select(I), out0.select(I)))))
        return out_
    g.cands(cands)
    r = g.call('BKBufferRead', buf, out, size, il)
    g.ensure('returns-frames-read', eq(r, n))
    o = g.rd(out, 'data')
    g.ensure('sample-is-saturated-leaky-integral', IMP(ult(J, nn), eq(o.select(scale(J, step_)), sample(G.at(add(J, bv(1, 64)))))))
    if step_ > 1:
        g.ensure('other-channels-untouched', IMP(AND(ult(I, N), ne(urem(I, bv(step_, 64)), Z64)), eq(o.select(I), out0.select(I))))
    lim = add(zext(cap, 64), bv(33, 64))
    fr = g.rd(buf, 'frames')
    g.forall('pending-frames-shifted', NF, lambda i: eq(fr.select(i), ite(ult(i, sub(lim, nn)), fr0.select(add(i, nn)), ite(ult(i, lim), bv(0, 32), fr0.select(i)))))
    g.ensure('integrator-state', eq(g.rd(buf, 'accum'), G.at(nn)))
    g.ensure('capacity-reduced', eq(g.rd(buf, 'capacity'), sub(cap, n)))
    g.ensure('time-reduced', eq(g.rd(buf, 'time'), sub(t0, scale(n, 1 << 20))))
    g.frame((out, 'data'), (buf, 'frames'), (buf, 'accum'), (buf, 'capacity'), (buf, 'time'))


@goal('C01', 'C03', functions=['BKBufferAddPulse'])
def add_pulse(g):
    """BKBufferAddPulse superposes amplitude * kernel row, over exactly 32 frames"""
    buf = g.obj('buf', 'BKBuffer')
    ker = g.obj('kernel', 'BKBufferPulse')
    g.set(buf, 'pulse', pv(ker))
    time, amp = g.sym('time', 32), g.sym('pulse', 32, -65535, 65535, signed=True)
    t = add(g.rd(buf, 'time'), time)
    off = zext(lshr(t, bv(20, 32)), 64)
    row = zext(band(lshr(t, bv(15, 32)), bv(31, 32)), 64)
    fr0 = g.rd(buf, 'frames')
    ph = g.rd(ker, 'frames')
    r = g.call('BKBufferAddPulse', buf, time, amp)
    g.ensure('returns-0', eq(r, bv(0, 32)))
    fr = g.rd(buf, 'frames')

    for c in range(W):
        tap = mul(sext(ph.select(add(scale(row, 32), bv(c, 64))), 32), amp)
        i = add(off, bv(c, 64))
        g.ensure('tap%d' % c, eq(fr.select(i), add(fr0.select(i), tap)))
    g.forall('other-frames-unchanged', NF, lambda i: OR(ult(sub(i, off), bv(32, 64)), eq(fr.select(i), fr0.select(i))))
    g.frame((buf, 'frames'))


@goal('C01', 'C03', functions=['BKBufferAddFrame'])
def add_frame(g):
    buf = g.obj('buf', 'BKBuffer')
    time, amp = g.sym('time', 32), g.sym('frame', 16, signed=True)
    off = zext(lshr(add(g.rd(buf, 'time'), time), bv(20, 32)), 64)
    fr0 = g.rd(buf, 'frames')
    g.call('BKBufferAddFrame', buf, time, amp)
    fr = g.rd(buf, 'frames')
    g.forall('one-frame', NF, lambda i: eq(fr.select(i), add(fr0.select(i), ite(eq(i, off), scale(sext(amp, 32), 32767), bv(0, 32)))))
    g.frame((buf, 'frames'))


@goal('C01', functions=['BKBufferEnd'])
def end(g):
    buf = g.obj('buf', 'BKBuffer')
    buf_inv(g, buf)
    time = g.sym('time', 32)
    cap, t0 = g.rd(buf, 'capacity'), g.rd(buf, 'time')
    off = lshr(add(t0, time), bv(20, 32))
    g.call('BKBufferEnd', buf, time)
    c = g.rd(buf, 'capacity')
    g.ensure('capacity-is-max', eq(c, ite(ult(cap, off), off, cap)))
    g.ensure('invariant', ule(c, bv(CAP, 32)))
    g.frame((buf, 'capacity'))


@goal('C01', functions=['BKBufferShift', 'BKBufferSize'])
def shift(g):
    """time never passes the written capacity"""
    buf = g.obj('buf', 'BKBuffer')
    g.range(buf, 'capacity', 0, CAP - 1)
    time = g.sym('time', 32)
    cap, t0 = g.rd(buf, 'capacity'), g.rd(buf, 'time')
    # the time may be before the buffer (modulo 2^32) when frames have been read ahead
    left = sub(scale(cap, 1 << 20), t0)
    t1 = add(t0, ite(ult(left, time), left, time))
    g.call('BKBufferShift', buf, time)
    t = g.rd(buf, 'time')
    g.ensure('advances-up-to-capacity', eq(t, t1))
    g.frame((buf, 'time'))
    r = g.call('BKBufferSize', buf)
    g.ensure('size-within-capacity', ule(r, cap))
    g.ensure('size', IMP(ule(t, scale(cap, 1 << 20)), eq(r, lshr(t, bv(20, 32)))))
    g.ensure('nothing-after-reading-ahead', IMP(ult(cap, lshr(t, bv(20, 32))), eq(r, bv(0, 32))))
    g.frame((buf, 'time'))


@goal('C03', functions=['BKBufferInit'])
def buffer_init(g):
    buf = g.obj('buf', 'BKBuffer')
    g.call('BKBufferInit', buf)
    fr = g.rd(buf, 'frames')
    g.forall('silence', NF, lambda i: eq(fr.select(i), bv(0, 32)))
    for f in ('time', 'capacity', 'accum'):
        g.ensure(f + '-zero', eq(g.rd(buf, f), bv(0, 32)))
    g.ensure('default-kernel', pv_eq(g.rd(buf, 'pulse'), pv(g.glob('BKBufferStepPhasesHarm'))))


@goal('C03', functions=['BKBufferClear', 'BKBufferDispose'], variants=[('clear', {'fn': 'BKBufferClear'}), ('dispose', {'fn': 'BKBufferDispose'})])
def buffer_clear(g, fn):
    buf = g.obj('buf', 'BKBuffer')
    ker = g.obj('kernel', 'BKBufferPulse')
    g.set(buf, 'pulse', pv(ker))
    g.call(fn, buf)
    fr = g.rd(buf, 'frames')
    g.forall('silence', NF, lambda i: eq(fr.select(i), bv(0, 32)))
    for f in ('time', 'capacity', 'accum'):
        g.ensure(f + '-zero', eq(g.rd(buf, f), bv(0, 32)))
    g.frame((buf, 'frames'), (buf, 'time'), (buf, 'capacity'), (buf, 'accum'))
