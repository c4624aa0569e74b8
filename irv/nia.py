"""Integer translation of bit-vector formulas, for obligations with products and quotients.

Every term is represented by its signed value, an unbounded integer; operations which may
wrap around subtract a fresh multiple of 2^w, quotients get their defining equation
x = q*y + r.  What is not translated becomes an unconstrained integer, so only 'unsat'
answers are meaningful (they are sound: the translation has every bit-vector model)."""
import z3
from .terms import *


class Tr(object):
    def __init__(self, facts):
        self.memo = {}
        self.bmemo = {}
        self.side = []
        self.n = 0
        self.bounds = {}
        for f in facts:
            self.collect(f)

    def collect(self, f):
        if f.op == 'and':
            for a in f.args:
                self.collect(a)
        elif f.op in ('slt', 'sle'):
            a, b = f.args
            d = 1 if f.op == 'slt' else 0
            if a.op == 'c':
                self.bnd(b, tosigned(a.data, a.w) + d, None)
            elif b.op == 'c':
                self.bnd(a, None, tosigned(b.data, b.w) - d)
        elif f.op in ('ult', 'ule'):
            a, b = f.args
            d = 1 if f.op == 'ult' else 0
            if b.op == 'c' and b.data - d < 1 << (b.w - 1):
                self.bnd(a, 0, b.data - d)
        elif f.op == 'not' and f.args[0].op in ('slt', 'sle'):
            g = f.args[0]
            a, b = g.args
            d = 0 if g.op == 'slt' else 1
            # not a < b: b <= a
            if b.op == 'c':
                self.bnd(a, tosigned(b.data, b.w) + d, None)
            elif a.op == 'c':
                self.bnd(b, None, tosigned(a.data, a.w) - d)
        elif f.op == 'not' and f.args[0].op in ('ult', 'ule'):
            pass

    def bnd(self, t, lo, hi):
        l, h = self.bounds.get(t.id, (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1))
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        self.bounds[t.id] = (l, h)

    def fresh(self, p='x'):
        self.n += 1
        return z3.Int('%s_%d' % (p, self.n))

    def opaque(self, w, lo=None, hi=None):
        v = self.fresh('o')
        lo = -(1 << (w - 1)) if lo is None else lo
        hi = (1 << (w - 1)) - 1 if hi is None else hi
        self.side.append(z3.And(v >= lo, v <= hi))
        return v, lo, hi

    def wrap(self, z, lo, hi, w):
        """signed w bit value of the integer z in [lo, hi]"""
        a, b = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if lo >= a and hi <= b:
            return z, lo, hi
        q = self.fresh('k')
        self.side.append(z3.And(z - q * (1 << w) >= a, z - q * (1 << w) <= b))
        ql, qh = (lo - a) >> w, (hi - a) >> w
        self.side.append(z3.And(q >= ql, q <= qh))
        if ql == qh:
            return z - ql * (1 << w), lo - ql * (1 << w), hi - ql * (1 << w)
        return z - q * (1 << w), a, b

    def U(self, t):
        z, lo, hi = self.I(t)
        if lo >= 0:
            return z, lo, hi
        m = 1 << t.w
        if hi < 0:
            return z + m, lo + m, hi + m
        return z3.If(z < 0, z + m, z), 0, m - 1

    def fdiv(self, z, lo, hi, k):
        """floor (z / 2^k)"""
        if k == 0:
            return z, lo, hi
        q = self.fresh('q')
        self.side.append(z3.And(q * (1 << k) <= z, z < (q + 1) * (1 << k)))
        self.side.append(z3.And(q >= lo >> k, q <= hi >> k))
        return q, lo >> k, hi >> k

    def I(self, t):
        r = self.memo.get(t.id)
        if r is None:
            z, lo, hi = self._I(t)
            b = self.bounds.get(t.id)
            if b:
                lo, hi = max(lo, b[0]), min(hi, b[1])
            r = (z, lo, hi)
            self.memo[t.id] = r
        return r

    def div(self, x, y):
        """truncated quotient and remainder"""
        zx, xl, xh = x
        zy, yl, yh = y
        q, r = self.fresh('q'), self.fresh('r')
        ay = zy if yl >= 0 else z3.If(zy < 0, -zy, zy)
        nz = [zy != 0] if yl <= 0 <= yh else []
        c = [zx == q * zy + r]
        mx = max(abs(xl), abs(xh))
        if xl >= 0:
            c += [r >= 0, r < ay]
        elif xh <= 0:
            c += [r <= 0, -r < ay]
        else:
            c += [z3.Implies(zx >= 0, z3.And(r >= 0, r < ay)), z3.Implies(zx <= 0, z3.And(r <= 0, -r < ay))]
        if yl >= 0:
            c += [z3.Implies(zx >= 0, z3.And(q >= 0, q <= zx)), z3.Implies(zx <= 0, z3.And(q <= 0, q >= zx))]
        c += [q <= mx, q >= -mx]
        f = z3.And(*c)
        self.side.append(z3.Implies(z3.And(*nz), f) if nz else f)
        ql, qh = -mx, mx
        if xl >= 0 and yl >= 0:
            ql, qh = 0, xh // max(1, yl)
            if not nz:
                self.side.append(z3.And(q >= ql, q <= qh))
        if nz:
            return (q, None, None), (r, None, None)
        m = max(abs(yl), abs(yh)) - 1
        return (q, ql, qh), (r, -min(m, mx) if xl < 0 else 0, min(m, mx) if xh > 0 else 0)

    def _I(self, t):
        op, w, a = t.op, t.w, t.args
        if op == 'c':
            v = tosigned(t.data, w)
            return z3.IntVal(v), v, v
        if op in ('v', 'sel', 'uf'):
            b = self.bounds.get(t.id, (None, None))
            return self.opaque(w, *b)
        if op == 'lin':
            c, ks = t.data
            z, lo, hi = tosigned(c, w), tosigned(c, w), tosigned(c, w)
            for k, x in zip(ks, a):
                k = tosigned(k, w)
                y, l, h = self.I(x)
                z = z + k * y
                lo += min(k * l, k * h)
                hi += max(k * l, k * h)
            return self.wrap(z, lo, hi, w)
        if op == 'mul':
            x, xl, xh = self.I(a[0])
            y, yl, yh = self.I(a[1])
            ps = [xl * yl, xl * yh, xh * yl, xh * yh]
            return self.wrap(x * y, min(ps), max(ps), w)
        if op == 'ite':
            c = self.Bo(a[0])
            x, xl, xh = self.I(a[1])
            y, yl, yh = self.I(a[2])
            return z3.If(c, x, y), min(xl, yl), max(xh, yh)
        if op == 'sext':
            return self.I(a[0])
        if op == 'zext':
            return self.U(a[0])
        if op == 'extract':
            hi_, lo_ = t.data
            if lo_ == 0:
                z, l, h = self.I(a[0])
            else:
                z, l, h = self.I(a[0])
                z, l, h = self.fdiv(z, l, h, lo_)
            return self.wrap(z, l, h, w)
        if op == 'shl' and a[1].op == 'c':
            k = a[1].data
            if k >= w:
                return z3.IntVal(0), 0, 0
            z, l, h = self.I(a[0])
            return self.wrap(z * (1 << k), l << k, h << k, w)
        if op == 'ashr' and a[1].op == 'c':
            z, l, h = self.I(a[0])
            return self.fdiv(z, l, h, min(a[1].data, w - 1))
        if op == 'lshr' and a[1].op == 'c':
            if a[1].data >= w:
                return z3.IntVal(0), 0, 0
            z, l, h = self.U(a[0])
            z, l, h = self.fdiv(z, l, h, a[1].data)
            return self.wrap(z, l, h, w)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            f = self.I if op[0] == 's' else self.U
            x, y = f(a[0]), f(a[1])
            key = ('div', op[0], a[0].id, a[1].id)
            if key not in self.memo:
                self.memo[key] = self.div(x, y)
            z, l, h = self.memo[key][0 if op.endswith('div') else 1]
            if l is None:
                # divisor may be 0: any value then
                v, l2, h2 = self.opaque(w)
                self.side.append(z3.Implies(y[0] != 0, v == z))
                return v, l2, h2
            if op[0] == 'u' or not (l >= -(1 << (w - 1)) and h <= (1 << (w - 1)) - 1):
                return self.wrap(z, l, h, w)
            return z, l, h
        if op == 'and_' and a[1].op == 'c' and (a[1].data & (a[1].data + 1)) == 0:
            k = a[1].data.bit_length()
            z, l, h = self.I(a[0])
            if l >= 0 and h < (1 << k):
                return z, l, h
            q, _, _ = self.fdiv(z, l, h, k)
            return self.wrap(z - q * (1 << k), 0, (1 << k) - 1, w)
        return self.opaque(w)

    def Bo(self, t):
        r = self.bmemo.get(t.id)
        if r is None:
            r = self._B(t)
            self.bmemo[t.id] = r
        return r

    def _B(self, t):
        op, a = t.op, t.args
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'v':
            return z3.Bool(t.data)
        if op == 'not':
            return z3.Not(self.Bo(a[0]))
        if op == 'and':
            return z3.And(*[self.Bo(x) for x in a])
        if op == 'eq':
            if a[0].w == 0:
                return self.Bo(a[0]) == self.Bo(a[1])
            return self.I(a[0])[0] == self.I(a[1])[0]
        if op in ('slt', 'sle', 'ult', 'ule'):
            f = self.I if op[0] == 's' else self.U
            x, y = f(a[0])[0], f(a[1])[0]
            return x < y if op.endswith('lt') else x <= y
        if op == 'ite':
            return z3.If(self.Bo(a[0]), self.Bo(a[1]), self.Bo(a[2]))
        self.n += 1
        return z3.Bool('ob_%d' % self.n)


def has_nl(fs):
    seen = set()
    st = list(fs)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ('mul', 'sdiv', 'udiv', 'srem', 'urem') and not (t.op != 'mul' and t.args[1].op == 'c'):
            return True
        st.extend(t.args)
    return False


def check(fs, ms):
    tr = Tr(fs)
    zs = [tr.Bo(f) for f in fs]
    s = z3.Solver()
    s.set('timeout', int(ms))
    s.add(*tr.side)
    s.add(*zs)
    r = s.check()
    return 'unsat' if r == z3.unsat else 'unknown'
