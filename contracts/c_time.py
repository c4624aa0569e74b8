"""Contracts of BKTime: fixed point time is the integer samples * 2^20 + frac."""
from irv.terms import *
from irv.mem import *
from irv.contract import goal

UNIT = 1 << 20


def b32(c):
    return ite(c, bv(1, 32), bv(0, 32))


@goal('C11', functions=['BKTimeMake', 'BKTimeGetTime', 'BKTimeGetFrac'])
def time_make(g):
    """a time made of samples and a fraction is exactly their sum, for every sample count"""
    s, f = g.sym('samples', 32, signed=True), g.sym('frac', 32)
    t = g.call('BKTimeMake', s, f)
    g.ensure('value', eq(t, add(scale(sext(s, 64), UNIT), zext(f, 64))))
    if g.sym_mode:
        pass
    a = g.call('BKTimeGetTime', t)
    b = g.call('BKTimeGetFrac', t)
    g.ensure('samples', IMP(ult(f, bv(UNIT, 32)), eq(a, s)))
    g.ensure('frac', IMP(ult(f, bv(UNIT, 32)), eq(b, f)))
    g.ensure('frac-in-unit', ult(b, bv(UNIT, 32)))


@goal('C11', functions=['BKTimeGetTime', 'BKTimeGetFrac', 'BKTimeGetFUInt20'])
def time_parts(g):
    t = g.sym('t', 64, -(1 << 51), (1 << 51) - 1, signed=True)
    a = g.call('BKTimeGetTime', t)
    b = g.call('BKTimeGetFrac', t)
    g.ensure('recompose', eq(t, add(scale(sext(a, 64), UNIT), zext(b, 64))))
    g.ensure('frac-in-unit', ult(b, bv(UNIT, 32)))
    c = g.call('BKTimeGetFUInt20', t)
    g.ensure('short', IMP(AND(sle(bv(0, 64), t), slt(t, bv(1 << 32, 64))), eq(zext(c, 64), t)))


@goal('C11', functions=['BKTimeAdd', 'BKTimeSub', 'BKTimeAddFUInt20', 'BKTimeSubFUInt20'])
def time_arith(g):
    a = g.sym('a', 64, -(1 << 60), 1 << 60, signed=True)
    b = g.sym('b', 64, -(1 << 60), 1 << 60, signed=True)
    p = g.sym('p', 32)
    s = g.call('BKTimeAdd', a, b)
    g.ensure('add', eq(s, add(a, b)))
    g.ensure('add-sub', eq(g.call('BKTimeSub', s, b), a))
    q = g.call('BKTimeAddFUInt20', a, p)
    g.ensure('add20', eq(q, add(a, zext(p, 64))))
    g.ensure('monotone', sle(a, q))
    g.ensure('add-sub20', eq(g.call('BKTimeSubFUInt20', q, p), a))


@goal('C11', functions=['BKTimeIsEqual', 'BKTimeIsGreater', 'BKTimeIsGreaterEqual', 'BKTimeIsLess', 'BKTimeIsLessEqual', 'BKTimeIsGreaterFUInt20', 'BKTimeIsLessFUInt20'])
def time_order(g):
    """comparisons agree with the order of the represented numbers"""
    a, b = g.sym('a', 64, signed=True), g.sym('b', 64, signed=True)
    p = g.sym('p', 32)
    p64 = zext(p, 64)
    for fn, y, c in (('BKTimeIsEqual', b, eq(a, b)), ('BKTimeIsGreater', b, slt(b, a)), ('BKTimeIsGreaterEqual', b, sle(b, a)),
                     ('BKTimeIsLess', b, slt(a, b)), ('BKTimeIsLessEqual', b, sle(a, b)),
                     ('BKTimeIsGreaterFUInt20', p, slt(p64, a)), ('BKTimeIsLessFUInt20', p, slt(a, p64))):
        r = g.call(fn, a, y)
        g.ensure(fn[6:], eq(ne(r, bv(0, 32)), c) if False else IFF(ne(r, bv(0, 32)), c))
