"""Contracts of the tone and sample pitch tables and of the status names."""
from math import floor
from irv.terms import *
from irv.mem import *
from irv.contract import goal

# equal temperament, A 4 (note 57) at 440 Hz; an independent computation of the tables
TONE = [int(floor(2 ** 19 / (440.0 * 2 ** ((n - 57) / 12.0)))) for n in range(97)]
LOG2 = [int(floor(2 ** (20 + (n - 48) / 12.0) + 1e-7)) for n in range(97)]
MIN_RATE, MAX_RATE = 16000, 96000


def c64(v):
    return bv(v, 64)


def rate_of(r):
    """sample rates outside the supported range count as its nearest bound"""
    return ite(ult(r, bv(MIN_RATE, 32)), bv(MIN_RATE, 32), ite(ult(bv(MAX_RATE, 32), r), bv(MAX_RATE, 32), r))


@goal('C12', functions=['BKTonePeriodLookup'], variants=[('octave%d' % o, {'o': o}) for o in range(9)])
def tone_period(g, o):
    """the period of every note of the octave is the equal tempered one, interpolated between
    notes, in steps of 4 times the sample rate; lemmas on the factor of the sample rate: it is within
    one step of the exact value, never rises with the tone and gives a period of 32 bits"""
    rate = g.sym('rate', 32)
    a, b = zext(g.sym('frac_a', 20), 32), zext(g.sym('frac_b', 20), 32)
    g.assume(ule(a, b))
    R = rate_of(rate)
    prev = None

    def factor(n, frac):
        T0, T1 = TONE[n], TONE[min(n + 1, 96)]
        f = lshr(frac, bv(4, 32))
        ideal = sub(bv(T0 << 16, 32), mul(bv(T0 - T1, 32), f))
        return ideal, lshr(ideal, bv(18, 32))

    for n in range(o * 12, min(o * 12 + 12, 97)):
        if n == 96:
            p = g.call('BKTonePeriodLookup', bv(n << 20, 32), rate)
            ideal, K = factor(n, bv(0, 32))
            L = K
        else:
            p = g.call('BKTonePeriodLookup', add(bv(n << 20, 32), a), rate)
            ideal, K = factor(n, a)
            L = factor(n, b)[1]
        g.ensure('period-%d' % n, eq(p, shl(mul(K, R), bv(2, 32))))
        g.ensure('lemma-32-bit-%d' % n, ule(K, bv(((1 << 32) - 1) // (4 * MAX_RATE), 32)))
        g.ensure('lemma-accurate-%d' % n, AND(ule(shl(K, bv(18, 32)), ideal), ult(ideal, add(shl(K, bv(18, 32)), bv(1 << 18, 32)))))
        g.ensure('lemma-not-rising-%d' % n, ule(L, K))
        if prev is not None:
            g.ensure('lemma-not-rising-across-%d' % n, ule(K, prev))
        prev = L
    g.frame()


@goal('C12', functions=['BKTonePeriodLookup', 'BKLog2PeriodLookup'], variants=[('tone', {'fn': 'BKTonePeriodLookup'}), ('sample', {'fn': 'BKLog2PeriodLookup'})])
def tone_clamp(g, fn):
    """tones below the lowest and above the highest note count as these notes"""
    t, rate = g.sym('tone', 32, signed=True), g.sym('rate', 32)
    x = [rate] if fn == 'BKTonePeriodLookup' else []
    lo, hi = g.call(fn, bv(0, 32), *x), g.call(fn, bv(96 << 20, 32), *x)
    r = g.call(fn, t, *x)
    g.ensure('low', IMP(sle(t, bv(0, 32)), eq(r, lo)))
    g.ensure('high', IMP(sle(bv(96 << 20, 32), t), eq(r, hi)))


@goal('C12', functions=['BKLog2PeriodLookup'], variants=[('octave%d' % o, {'o': o}) for o in range(9)], cost=4)
def sample_period(g, o):
    """the pitch factor doubles with every octave, is 1 at the middle note and never falls with the tone"""
    a, b = zext(g.sym('frac_a', 20), 32), zext(g.sym('frac_b', 20), 32)
    g.assume(ule(a, b))
    prev = None
    for n in range(o * 12, min(o * 12 + 12, 97)):
        if n == 96:
            p = q = g.call('BKLog2PeriodLookup', bv(n << 20, 32))
            f = c64(0)
        else:
            p = g.call('BKLog2PeriodLookup', add(bv(n << 20, 32), a))
            q = g.call('BKLog2PeriodLookup', add(bv(n << 20, 32), b))
            f = zext(lshr(a, bv(12, 32)), 64)
        T0, T1 = LOG2[n], LOG2[min(n + 1, 96)]
        ideal = add(c64(T0 << 8), mul(c64(T1 - T0), f))
        P = shl(zext(p, 64), c64(8))
        g.ensure('not-above-%d' % n, ule(P, ideal))
        g.ensure('accurate-%d' % n, ult(ideal, add(P, c64(4 << 8))))
        g.ensure('not-falling-%d' % n, ule(p, q))
        if prev is not None:
            g.ensure('not-falling-across-%d' % n, ule(prev, p))
        if n % 12 == 0:
            g.ensure('octave-%d' % n, IMP(eq(a, bv(0, 32)), eq(p, bv((1 << 20) << (n // 12) >> 4, 32))))
        prev = q
    g.frame()


NAMES = {1: 'Allocation error', 2: 'Invalid argument', 3: 'Invalid value', 4: 'Invalid state', 5: 'Invalid number of channels',
         6: 'Invalid number of frames', 7: 'Invalid number of bits', 8: 'Invalid return value', 9: 'File error',
         10: 'File not readable', 11: 'File not writable', 12: 'File not seekable', 13: 'Other error'}


@goal('C25', functions=['BKStatusGetName'])
def status_name(g):
    """every status has a name; unknown values, whatever they are, give the name for unknown ones"""
    s = g.sym('status', 32, signed=True)
    p = g.call('BKStatusGetName', s)
    base = -7 * 4096
    for i in range(28):
        want = bv(ord('Unknown status'[i]) if i < 14 else 0, 8)
        for k, n in NAMES.items():
            want = ite(eq(s, bv(base + k, 32)), bv(ord(n[i]) if i < len(n) else 0, 8), want)
        # bytes behind the end of a name are not looked at
        inside = ult(bv(i, 32), bv(15, 32))
        for k, n in NAMES.items():
            inside = ite(eq(s, bv(base + k, 32)), B(i < len(n) + 1), inside)
        g.ensure('char%d' % i, IMP(inside, eq(g.load(p, 8, i), want)))
    g.ensure('not-null', NOT(pv_isnull(p)))
