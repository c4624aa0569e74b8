"""Contracts of slides and intervals (volume, panning, portamento, tremolo, vibrato)."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal

MAXSTEPS = (1 << 23) - 1
# (fraction bits, largest absolute value) as used for volume/panning, effect steps and notes
SHAPES = [('volume', 15, -32767, 32767), ('steps', 14, 0, 1 << 16), ('note', 0, -(1 << 28), 1 << 28)]
V = [(n, {'s': s, 'L': l, 'M': m}) for n, s, l, m in SHAPES]
Z = bv(0, 32)


def c(v):
    return bv(v, 32)


def X(t):
    return sext(t, 64)


def slide_inv(g, st, s, L, M):
    """the remaining steps never lead past the end value"""
    val, end, sd = X(g.rd(st, 'value')), X(g.rd(st, 'endValue')), X(g.rd(st, 'stepDelta'))
    step, steps, bias = g.rd(st, 'step'), g.rd(st, 'steps'), g.rd(st, 'roundBias')
    lo, hi = bv(L << s, 64), bv(M << s, 64)
    way = sub(end, val)
    go = mul(sd, X(step))
    z = bv(0, 64)
    return [('shift', eq(g.rd(st, 'valueShift'), c(s))),
            ('value-range', AND(sle(lo, val), sle(val, hi))),
            ('end-range', AND(sle(lo, end), sle(end, hi), eq(band(g.rd(st, 'endValue'), c((1 << s) - 1)), Z))),
            ('steps-range', AND(sle(Z, step), sle(step, steps), sle(steps, c(MAXSTEPS)))),
            ('bias-below-one', AND(sle(Z, bias), slt(bias, c(1 << s)))),
            ('no-overshoot', IMP(slt(Z, step), OR(AND(sle(z, sd), sle(go, way)), AND(sle(sd, z), sle(way, go)))))]


def ab(x):
    return ite(slt(x, bv(0, x.w)), neg(x), x)


def assume_inv(g, inv):
    for n, t in inv:
        g.assume(t)


def ensure_inv(g, inv):
    for n, t in inv:
        g.ensure(n, t)


@goal('C13', functions=['BKSlideStateInit'], inv=False)
def slide_init(g):
    """the value is kept with as many fraction bits as the largest value leaves room for"""
    st = g.obj('state', 'BKSlideState')
    m = g.sym('maxValue', 32, 0, 1 << 30, signed=True)
    g.call('BKSlideStateInit', st, m)
    sh = g.rd(st, 'valueShift')
    for f in ('value', 'endValue', 'stepDelta', 'roundBias', 'step', 'steps'):
        g.ensure('zero-' + f, eq(g.rd(st, f), Z))
    g.ensure('fits', AND(ule(sh, c(30)), ule(shl(zext(m, 64), zext(sh, 64)), bv(1 << 30, 64))))
    g.ensure('tight', OR(eq(m, Z), eq(sh, c(30)), ult(bv(1 << 29, 64), shl(zext(m, 64), zext(sh, 64)))))
    g.ensure('integral', IMP(eq(m, Z), eq(sh, Z)))


@goal('C14', functions=['BKIntervalStateInit'], inv=False)
def interval_init(g):
    st = g.obj('state', 'BKIntervalState')
    m = g.sym('maxValue', 32, 0, 1 << 30, signed=True)
    g.call('BKIntervalStateInit', st, m)
    sh = g.rd(st, 'valueShift')
    for f in ('value', 'delta', 'stepDelta', 'roundBias', 'step', 'steps', 'phase'):
        g.ensure('zero-' + f, eq(g.rd(st, f), Z))
    g.ensure('fits', AND(ule(sh, c(30)), ule(shl(zext(m, 64), zext(sh, 64)), bv(1 << 30, 64))))


@goal('C13', functions=['BKSlideStateSetValueAndSteps'], variants=V, cost=30, exec_limit=300)
def slide_set(g, s, L, M):
    """a slide starts at the current value and is going to take exactly the given steps"""
    st = g.obj('state', 'BKSlideState')
    g.set(st, 'valueShift', s)
    g.range(st, 'value', L << s, M << s)
    g.range(st, 'roundBias', 0, (1 << s) - 1)
    e, n = g.sym('endValue', 32, L, M, signed=True), g.sym('nsteps', 32, signed=True)
    v0 = g.rd(st, 'value')
    g.call('BKSlideStateSetValueAndSteps', st, e, n)
    N = ite(slt(n, Z), Z, ite(slt(c(MAXSTEPS), n), c(MAXSTEPS), n))
    g.ensure('end', eq(g.rd(st, 'endValue'), shl(e, c(s))))
    g.ensure('starts-from-current', IMP(ne(N, Z), eq(g.rd(st, 'value'), v0)))
    g.ensure('immediately-without-steps', IMP(eq(N, Z), eq(g.rd(st, 'value'), shl(e, c(s)))))
    g.ensure('step', eq(g.rd(st, 'step'), N))
    g.ensure('steps', eq(g.rd(st, 'steps'), N))
    ensure_inv(g, slide_inv(g, st, s, L, M))
    g.frame(st)


@goal('C13', functions=['BKSlideStateStep'], variants=V, cost=5)
def slide_step(g, s, L, M):
    """each step moves towards the end value, which is reached exactly with the last step"""
    st = g.obj('state', 'BKSlideState')
    g.set(st, 'valueShift', s)
    assume_inv(g, slide_inv(g, st, s, L, M))
    v0, e, k = X(g.rd(st, 'value')), X(g.rd(st, 'endValue')), g.rd(st, 'step')
    z = bv(0, 64)
    g.call('BKSlideStateStep', st)
    v1 = X(g.rd(st, 'value'))
    g.ensure('counts', eq(g.rd(st, 'step'), ite(eq(k, Z), Z, sub(k, c(1)))))
    g.ensure('reached', IMP(eq(k, c(1)), eq(v1, e)))
    g.ensure('towards', OR(AND(sle(v0, v1), sle(v1, e)), AND(sle(e, v1), sle(v1, v0)), eq(k, Z)))
    g.ensure('halted', IMP(eq(k, Z), eq(v1, v0)))
    ensure_inv(g, slide_inv(g, st, s, L, M))
    g.frame((st, 'value'), (st, 'step'))


@goal('C13', functions=['BKSlideStateGetValue'], variants=V)
def slide_get(g, s, L, M):
    """an exactly reached value is read exactly; in between it is rounded to a neighbour"""
    st = g.obj('state', 'BKSlideState')
    g.set(st, 'valueShift', s)
    assume_inv(g, slide_inv(g, st, s, L, M))
    v = X(g.rd(st, 'value'))
    r = X(g.call('BKSlideStateGetValue', st))
    fl = ashr(v, bv(s, 64))
    g.ensure('exact', IMP(eq(shl(fl, bv(s, 64)), v), eq(r, fl)))
    g.ensure('neighbour', OR(eq(r, fl), eq(r, add(fl, bv(1, 64)))))
    g.frame()


@goal('C13', functions=['BKSlideStateSetValue', 'BKSlideStateSetSteps', 'BKSlideStateHalt'], variants=[(n + '-' + w, {'s': s, 'L': l, 'M': m, 'w': w}) for n, s, l, m in SHAPES for w in ('value', 'steps', 'halt')], cost=8)
def slide_change(g, s, L, M, w):
    """changing only one of end value and steps keeps the other; halting stops the slide"""
    st = g.obj('state', 'BKSlideState')
    g.set(st, 'valueShift', s)
    assume_inv(g, slide_inv(g, st, s, L, M))
    v0, e0, n0 = g.rd(st, 'value'), g.rd(st, 'endValue'), g.rd(st, 'steps')
    if w == 'value':
        e = g.sym('endValue', 32, L, M, signed=True)
        g.call('BKSlideStateSetValue', st, e)
        g.ensure('end', eq(g.rd(st, 'endValue'), shl(e, c(s))))
        g.ensure('steps', AND(eq(g.rd(st, 'steps'), n0), eq(g.rd(st, 'step'), n0)))
        g.ensure('value', eq(g.rd(st, 'value'), ite(eq(n0, Z), shl(e, c(s)), v0)))
    elif w == 'steps':
        n = g.sym('nsteps', 32, 0, MAXSTEPS, signed=True)
        g.call('BKSlideStateSetSteps', st, n)
        g.ensure('end', eq(g.rd(st, 'endValue'), e0))
        g.ensure('steps', AND(eq(g.rd(st, 'steps'), n), eq(g.rd(st, 'step'), n)))
        g.ensure('value', eq(g.rd(st, 'value'), ite(eq(n, Z), e0, v0)))
    else:
        f = g.sym('setEnd', 32, signed=True)
        g.call('BKSlideStateHalt', st, f)
        g.ensure('value', eq(g.rd(st, 'value'), ite(ne(f, Z), e0, v0)))
        g.ensure('stopped', eq(g.rd(st, 'step'), Z))
    ensure_inv(g, slide_inv(g, st, s, L, M))
    g.frame(st)


# ------------------------------------------------------------------ intervals
ISHAPES = [('tremolo', 14, 32767), ('vibrato', 0, 1 << 28)]
IV = [(n, {'s': s, 'M': m}) for n, s, m in ISHAPES]


def interval_inv(g, st, s, M):
    """four phases of equally many steps: up, down to zero, down, up to zero, inside +-delta"""
    val, dl, sd = X(g.rd(st, 'value')), X(g.rd(st, 'delta')), X(g.rd(st, 'stepDelta'))
    step, steps, bias, ph = g.rd(st, 'step'), g.rd(st, 'steps'), g.rd(st, 'roundBias'), g.rd(st, 'phase')
    lim = bv(M << s, 64)
    z = bv(0, 64)
    left = X(sub(steps, step))
    positive = sle(z, dl)
    half = ult(ph, c(2))             # value has the sign of delta
    out = AND(ne(ph, c(1)), ne(ph, c(3)))   # moving away from zero
    top = ite(half, dl, neg(dl))
    ztop = sle(z, top)
    end = add(val, mul(sd, left))    # where the remaining steps of the phase would lead
    inside = lambda v: ite(ztop, AND(sle(z, v), sle(v, top)), AND(sle(top, v), sle(v, z)))
    # step direction: away from zero moves towards top
    dirok = ite(XORB(out, ztop), sle(sd, z), sle(z, sd))
    run = ne(steps, Z)
    return [('shift', eq(g.rd(st, 'valueShift'), c(s))),
            ('delta-range', AND(sle(neg(lim), dl), sle(dl, lim), eq(band(g.rd(st, 'delta'), c((1 << s) - 1)), Z))),
            ('steps-range', AND(sle(Z, step), sle(steps, c(MAXSTEPS)), OR(slt(step, steps), AND(eq(step, Z), eq(steps, Z))))),
            ('phase-range', ult(ph, c(4))),
            ('bias-below-one', AND(sle(Z, bias), slt(bias, c(1 << s)))),
            ('off', IMP(NOT(run), AND(eq(val, z), eq(dl, z)))),
            ('value-inside', inside(val)),
            ('phase-end-inside', IMP(run, inside(end))),
            ('direction', IMP(run, dirok)),
            ('depth', IMP(run, AND(sle(neg(ab(dl)), mul(sd, X(steps))), sle(mul(sd, X(steps)), ab(dl)))))]


@goal('C14', functions=['BKIntervalStateSetDeltaAndSteps'], variants=[(n + '-phase%d' % p, {'s': s, 'M': m, 'p': p}) for n, s, m in ISHAPES for p in range(4)], cost=40)
def interval_set(g, s, M, p):
    """changing depth or speed keeps the phase and stays inside the new depth"""
    st = g.obj('state', 'BKIntervalState')
    g.set(st, 'valueShift', s)
    g.set(st, 'phase', p)
    assume_inv(g, interval_inv(g, st, s, M))
    d, n = g.sym('newdelta', 32, -M, M, signed=True), g.sym('nsteps', 32, signed=True)
    N = ite(slt(n, Z), Z, ite(slt(c(MAXSTEPS), n), c(MAXSTEPS), n))
    g.call('BKIntervalStateSetDeltaAndSteps', st, d, n)
    g.ensure('delta', eq(g.rd(st, 'delta'), ite(eq(N, Z), Z, shl(d, c(s)))))
    g.ensure('steps', eq(g.rd(st, 'steps'), N))
    g.ensure('phase', eq(g.rd(st, 'phase'), ite(eq(N, Z), Z, c(p))))
    ensure_inv(g, interval_inv(g, st, s, M))
    g.frame(st)


@goal('C14', functions=['BKIntervalStateStep'], variants=IV, cost=10)
def interval_step(g, s, M):
    """the phase changes exactly after the given number of steps; extremes are hit exactly"""
    st = g.obj('state', 'BKIntervalState')
    g.set(st, 'valueShift', s)
    assume_inv(g, interval_inv(g, st, s, M))
    dl, ph, k, n = g.rd(st, 'delta'), g.rd(st, 'phase'), g.rd(st, 'step'), g.rd(st, 'steps')
    g.call('BKIntervalStateStep', st)
    last = AND(ne(n, Z), eq(k, sub(n, c(1))))
    ph1 = band(add(ph, c(1)), c(3))
    g.ensure('phase', eq(g.rd(st, 'phase'), ite(last, ph1, ph)))
    g.ensure('step', eq(g.rd(st, 'step'), ite(OR(last, eq(n, Z)), Z, add(k, c(1)))))
    g.ensure('extreme', IMP(last, eq(g.rd(st, 'value'), ite(eq(ph1, c(1)), dl, ite(eq(ph1, c(3)), neg(dl), Z)))))
    ensure_inv(g, interval_inv(g, st, s, M))
    g.frame((st, 'value'), (st, 'step'), (st, 'phase'), (st, 'stepDelta'))


@goal('C14', functions=['BKIntervalStateGetValue'], variants=IV)
def interval_get(g, s, M):
    st = g.obj('state', 'BKIntervalState')
    g.set(st, 'valueShift', s)
    assume_inv(g, interval_inv(g, st, s, M))
    v, dl = X(g.rd(st, 'value')), X(g.rd(st, 'delta'))
    r = X(g.call('BKIntervalStateGetValue', st))
    fl = ashr(v, bv(s, 64))
    d = ashr(dl, bv(s, 64))
    a = ite(slt(d, bv(0, 64)), neg(d), d)
    g.ensure('exact', IMP(eq(shl(fl, bv(s, 64)), v), eq(r, fl)))
    g.ensure('inside-depth', AND(sle(neg(a), r), sle(r, a)))
    g.frame()


@goal('C14', functions=['BKIntervalStateSetDelta', 'BKIntervalStateSetSteps'], variants=[(n + '-' + w, {'s': s, 'M': m, 'w': w}) for n, s, m in ISHAPES for w in ('delta', 'steps')], cost=40)
def interval_change(g, s, M, w):
    """changing only one of depth and speed keeps the other"""
    st = g.obj('state', 'BKIntervalState')
    g.set(st, 'valueShift', s)
    assume_inv(g, interval_inv(g, st, s, M))
    d0, n0 = g.rd(st, 'delta'), g.rd(st, 'steps')
    if w == 'delta':
        d = g.sym('newdelta', 32, -M, M, signed=True)
        g.call('BKIntervalStateSetDelta', st, d)
        g.ensure('delta', eq(g.rd(st, 'delta'), ite(eq(n0, Z), Z, shl(d, c(s)))))
        g.ensure('steps', eq(g.rd(st, 'steps'), n0))
    else:
        n = g.sym('nsteps', 32, 0, MAXSTEPS, signed=True)
        g.call('BKIntervalStateSetSteps', st, n)
        g.ensure('delta', eq(g.rd(st, 'delta'), ite(eq(n, Z), Z, d0)))
        g.ensure('steps', eq(g.rd(st, 'steps'), n))
    g.frame(st)
