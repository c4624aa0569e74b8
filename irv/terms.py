"""Hash-consed bit-vector / Boolean terms with local simplification.

Width 0 is Bool.  Bit-vector sums are kept in a canonical linear form, so that
address and index arithmetic cancels syntactically.
"""
import sys
sys.setrecursionlimit(1000000)


class T(object):
    __slots__ = ('op', 'args', 'w', 'data', 'id', '_z', 'neg')

    def __repr__(self):
        return show(self)


_tab = {}
_next = [0]


def mk(op, args, w, data=None):
    key = (op, tuple([a.id for a in args]), w, data)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.w = w
        t.data = data
        t._z = None
        t.neg = None
        _next[0] += 1
        t.id = _next[0]
        _tab[key] = t
    return t


TRUE = mk('true', (), 0)
FALSE = mk('false', (), 0)


def B(x):
    return TRUE if x else FALSE


def mask(w):
    return (1 << w) - 1


def bv(v, w):
    return mk('c', (), w, v & ((1 << w) - 1))


def var(name, w):
    return mk('v', (), w, name)


_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), w)


def isc(t):
    return t.op == 'c'


def sval(t):
    v = t.data
    return v - (1 << t.w) if v >> (t.w - 1) else v


def tosigned(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- linear
def lin_parts(t):
    """-> (const, [(term, coef)])"""
    if t.op == 'c':
        return t.data, ()
    if t.op == 'lin':
        return t.data[0], tuple(zip(t.args, t.data[1]))
    return 0, ((t, 1),)


def mklin(c, parts, w):
    m = mask(w)
    acc = {}
    for t, k in parts:
        if t.id in acc:
            acc[t.id] = (t, (acc[t.id][1] + k) & m)
        else:
            acc[t.id] = (t, k & m)
    items = sorted([(i, t, k) for i, (t, k) in acc.items() if k], key=lambda x: x[0])
    c &= m
    if not items:
        return bv(c, w)
    if len(items) == 1 and c == 0 and items[0][2] == 1:
        return items[0][1]
    return mk('lin', tuple([i[1] for i in items]), w, (c, tuple([i[2] for i in items])))


def add(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a.op == 'c' and b.op == 'c':
        return bv(a.data + b.data, a.w)
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    return mklin(ca + cb, tuple(pa) + tuple(pb), a.w)


def scale(a, k):
    c, p = lin_parts(a)
    return mklin(c * k, [(t, q * k) for t, q in p], a.w)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    assert a.w == b.w
    if a.op == 'c':
        return scale(b, a.data)
    if b.op == 'c':
        return scale(a, b.data)
    if a.op == 'ite' and b.op != 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == 'ite' and a.op != 'ite' and b.args[1].op == 'c' and b.args[2].op == 'c':
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    ka, a = split_coef(a)
    kb, b = split_coef(b)
    if ka * kb != 1:
        return scale(mul(a, b), ka * kb)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), a.w)


def split_coef(a):
    """a == k * b with the power of two common to all coefficients taken out"""
    if a.op != 'lin':
        return 1, a
    c, ks = a.data
    if len(ks) == 1 and c == 0:
        return ks[0], a.args[0]
    return 1, a


# ---------------------------------------------------------------- bool
def NOT(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ult':
        return ule(a.args[1], a.args[0])
    if a.op == 'ule':
        return ult(a.args[1], a.args[0])
    if a.op == 'slt':
        return sle(a.args[1], a.args[0])
    if a.op == 'sle':
        return slt(a.args[1], a.args[0])
    return mk('not', (a,), 0)


def AND(*xs):
    out = []
    seen = set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if isinstance(x, (list, tuple)):
            stack.extend(reversed(x))
            continue
        if x is True or x is TRUE:
            continue
        if x is False or x is FALSE:
            return FALSE
        if x.op == 'and':
            stack.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if NOT(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), 0)


def OR(*xs):
    flat = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            flat.extend(x)
        else:
            flat.append(x)
    r = AND(*[NOT(B(x) if isinstance(x, bool) else x) for x in flat])
    return NOT(r) if r.op != 'and' else mkor(r)


def mkor(r):
    return mk('not', (r,), 0)


def IMP(a, b):
    return OR(NOT(a), b)


def XORB(a, b):
    if a is b:
        return FALSE
    if a is TRUE:
        return NOT(b)
    if b is TRUE:
        return NOT(a)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return ite(a, NOT(b), b)


def IFF(a, b):
    return NOT(XORB(a, b))


def ite(c, a, b):
    if c is True or c is TRUE:
        return a
    if c is False or c is FALSE:
        return b
    if a is b:
        return a
    assert a.w == b.w, ('ite width', a.w, b.w)
    if a.w == 0:
        if a is TRUE:
            return OR(c, b)
        if a is FALSE:
            return AND(NOT(c), b)
        if b is TRUE:
            return OR(NOT(c), a)
        if b is FALSE:
            return AND(c, a)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), a.w)


def leaves_const(t, lim=64):
    """constant leaf values of an ite tree, or None"""
    out = set()
    st = [t]
    n = 0
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        n += 1
        if n > lim:
            return None
        if x.op == 'ite':
            st.append(x.args[1])
            st.append(x.args[2])
        elif x.op == 'c':
            out.add(x.data)
        else:
            return None
    return out


def eq(a, b):
    assert a.w == b.w, ('eq width', a.w, b.w)
    if a is b:
        return TRUE
    if a.w == 0:
        return IFF(a, b)
    if a.op == 'c' and b.op == 'c':
        return B(a.data == b.data)
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c' and a.op == 'ite':
        ls = leaves_const(a)
        if ls is not None:
            if b.data not in ls:
                return FALSE
            if ls == {b.data}:
                return TRUE
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.args[1].op == 'c' or a.args[2].op == 'c':
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'c' and a.op in ('zext', 'sext'):
        x = a.args[0]
        if a.op == 'zext':
            if b.data >> x.w:
                return FALSE
            return eq(x, bv(b.data, x.w))
        v = tosigned(b.data, x.w) & mask(a.w)
        if v != b.data:
            return FALSE
        return eq(x, bv(b.data, x.w))
    if a.op in ('zext', 'sext') and b.op == a.op and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'c':
            return B(d.data == 0)
        if d.op == 'lin':
            c, ks = d.data
            # normalise: move constant to the right
            if len(ks) == 1 and ks[0] in (1, mask(a.w)):
                k = ks[0]
                v = (-c if k == 1 else c) & mask(a.w)
                x = d.args[0]
                if x.op in ('zext', 'sext', 'ite'):
                    return eq(x, bv(v, a.w))
                return mk('eq', (x, bv(v, a.w)), 0)
    if a.op == 'c':
        a, b = b, a
    if b.op != 'c' and a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 0)


def ne(a, b):
    return NOT(eq(a, b))


def urange(t):
    """cheap unsigned range (lo, hi)"""
    if t.op == 'c':
        return t.data, t.data
    if t.op == 'zext':
        return urange(t.args[0])
    if t.op == 'and_' and t.args[1].op == 'c':
        return 0, t.args[1].data
    if t.op == 'lshr' and t.args[1].op == 'c':
        lo, hi = urange(t.args[0])
        return lo >> t.args[1].data, hi >> t.args[1].data
    if t.op == 'urem' and t.args[1].op == 'c' and t.args[1].data:
        return 0, t.args[1].data - 1
    if t.op == 'ite':
        a = urange(t.args[1])
        b = urange(t.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op == 'lin':
        c, ks = t.data
        lo = hi = c
        for x, k in zip(t.args, ks):
            l, h = urange(x)
            lo += l * k
            hi += h * k
        if hi <= mask(t.w):
            return lo, hi
    return 0, mask(t.w)


def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return B(a.data < b.data)
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    if b.op == 'c' and b.data == 1:
        return eq(a, bv(0, a.w))
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0])
    return mk('ult', (a, b), 0)


def ule(a, b):
    assert a.w == b.w
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return B(a.data <= b.data)
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha <= lb:
        return TRUE
    if la > hb:
        return FALSE
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return ule(a.args[0], b.args[0])
    return mk('ule', (a, b), 0)


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return ule(b, a)


def srange(t):
    if t.op == 'c':
        v = sval(t)
        return v, v
    if t.op == 'sext':
        return srange(t.args[0])
    if t.op == 'zext':
        return urange(t.args[0])
    if t.op == 'ite':
        a = srange(t.args[1])
        b = srange(t.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op in ('and_', 'lshr', 'urem'):
        l, h = urange(t)
        if h < (1 << (t.w - 1)):
            return l, h
    if t.op == 'ashr' and t.args[1].op == 'c':
        l, h = srange(t.args[0])
        return l >> t.args[1].data, h >> t.args[1].data
    if t.op == 'lin':
        c, ks = t.data
        w = t.w
        lo = hi = tosigned(c, w)
        for x, k in zip(t.args, ks):
            k = tosigned(k, w)
            l, h = srange(x)
            if k >= 0:
                lo += l * k
                hi += h * k
            else:
                lo += h * k
                hi += l * k
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return lo, hi
    if t.op == 'mul':
        a = srange(t.args[0])
        b = srange(t.args[1])
        ps = [x * y for x in a for y in b]
        if min(ps) >= -(1 << (t.w - 1)) and max(ps) < (1 << (t.w - 1)):
            return min(ps), max(ps)
    return -(1 << (t.w - 1)), (1 << (t.w - 1)) - 1


def slt(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    la, ha = srange(a)
    lb, hb = srange(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    return mk('slt', (a, b), 0)


def sle(a, b):
    assert a.w == b.w
    if a is b:
        return TRUE
    la, ha = srange(a)
    lb, hb = srange(b)
    if ha <= lb:
        return TRUE
    if la > hb:
        return FALSE
    return mk('sle', (a, b), 0)


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return sle(b, a)


# ---------------------------------------------------------------- bits
def zext(a, w):
    if a.w == w:
        return a
    if a.w == 0:
        return ite(a, bv(1, w), bv(0, w))
    if a.op == 'c':
        return bv(a.data, w)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk('zext', (a,), w)


def sext(a, w):
    if a.w == w:
        return a
    if a.w == 0:
        return ite(a, bv(-1, w), bv(0, w))
    if a.op == 'c':
        return bv(sval(a), w)
    if a.op == 'sext':
        return sext(a.args[0], w)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk('sext', (a,), w)


def extract(hi, lo, a):
    w = hi - lo + 1
    if w == a.w:
        return a
    if a.op == 'c':
        return bv(a.data >> lo, w)
    if a.op in ('zext', 'sext'):
        x = a.args[0]
        if hi < x.w:
            return extract(hi, lo, x)
        if a.op == 'zext' and lo >= x.w:
            return bv(0, w)
        if lo == 0:
            return zext(x, w) if a.op == 'zext' else sext(x, w)
    if a.op == 'extract':
        return extract(hi + a.data[1], lo + a.data[1], a.args[0])
    if a.op == 'concat':
        h, l = a.args
        if hi < l.w:
            return extract(hi, lo, l)
        if lo >= l.w:
            return extract(hi - l.w, lo - l.w, h)
    if lo == 0 and a.op == 'lin':
        c, ks = a.data
        return mklin(c, [(extract(hi, 0, x), k) for x, k in zip(a.args, ks)], w) \
            if all(True for x in a.args) else None
    if lo == 0 and a.op == 'mul':
        return mul(extract(hi, 0, a.args[0]), extract(hi, 0, a.args[1]))
    if a.op == 'ite':
        if a.args[1].op in ('c',) or a.args[2].op in ('c',):
            return ite(a.args[0], extract(hi, lo, a.args[1]), extract(hi, lo, a.args[2]))
    if a.op in ('and_', 'or_', 'xor'):
        f = {'and_': band, 'or_': bor, 'xor': bxor}[a.op]
        return f(extract(hi, lo, a.args[0]), extract(hi, lo, a.args[1]))
    return mk('extract', (a,), w, (hi, lo))


def trunc(a, w):
    if w == 0 or (w == 1 and False):
        return eq(extract(0, 0, a), bv(1, 1))
    return extract(w - 1, 0, a)


def concat(h, l):
    if h.op == 'c' and l.op == 'c':
        return bv((h.data << l.w) | l.data, h.w + l.w)
    if h.op == 'c' and h.data == 0:
        return zext(l, h.w + l.w)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.data[1] == l.data[0] + 1:
        return extract(h.data[0], l.data[1], h.args[0])
    return mk('concat', (h, l), h.w + l.w)


def band(a, b):
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        if a.op == 'c':
            return bv(a.data & b.data, a.w)
        if b.data == 0:
            return b
        if b.data == mask(a.w):
            return a
        if a.op == 'ite' and leaves_const(a) is not None:
            return ite(a.args[0], band(a.args[1], b), band(a.args[2], b))
        if a.op == 'and_' and a.args[1].op == 'c':
            return band(a.args[0], bv(a.args[1].data & b.data, a.w))
        if a.op == 'or_' and a.args[1].op == 'c':
            return bor(band(a.args[0], b), bv(a.args[1].data & b.data, a.w))
        return mk('and_', (a, b), a.w)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('and_', (a, b), a.w)


def bor(a, b):
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        if a.op == 'c':
            return bv(a.data | b.data, a.w)
        if b.data == 0:
            return a
        if b.data == mask(a.w):
            return b
        if a.op == 'ite' and leaves_const(a) is not None:
            return ite(a.args[0], bor(a.args[1], b), bor(a.args[2], b))
        if a.op == 'or_' and a.args[1].op == 'c':
            return bor(a.args[0], bv(a.args[1].data | b.data, a.w))
        return mk('or_', (a, b), a.w)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('or_', (a, b), a.w)


def bxor(a, b):
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        if a.op == 'c':
            return bv(a.data ^ b.data, a.w)
        if b.data == 0:
            return a
        if b.data == mask(a.w):
            return sub(bv(-1, a.w), a)
        if a.op == 'ite' and leaves_const(a) is not None:
            return ite(a.args[0], bxor(a.args[1], b), bxor(a.args[2], b))
        if a.op == 'xor' and a.args[1].op == 'c':
            return bxor(a.args[0], bv(a.args[1].data ^ b.data, a.w))
        return mk('xor', (a, b), a.w)
    if a is b:
        return bv(0, a.w)
    if a.id > b.id:
        a, b = b, a
    return mk('xor', (a, b), a.w)


def shl(a, b):
    if b.op == 'c':
        if b.data >= a.w:
            return bv(0, a.w)
        return scale(a, 1 << b.data)
    return mk('shl', (a, b), a.w)


def lshr(a, b):
    if b.op == 'c':
        if b.data >= a.w:
            return bv(0, a.w)
        if b.data == 0:
            return a
        if a.op == 'c':
            return bv(a.data >> b.data, a.w)
        if a.op == 'lshr' and a.args[1].op == 'c':
            return lshr(a.args[0], bv(a.args[1].data + b.data, a.w))
        if a.op == 'zext' and b.data >= a.args[0].w:
            return bv(0, a.w)
    return mk('lshr', (a, b), a.w)


def ashr(a, b):
    if b.op == 'c':
        if b.data == 0:
            return a
        if a.op == 'c':
            return bv(sval(a) >> min(b.data, a.w - 1), a.w)
    return mk('ashr', (a, b), a.w)


def udiv(a, b):
    if b.op == 'c' and b.data:
        if b.data == 1:
            return a
        if a.op == 'c':
            return bv(a.data // b.data, a.w)
        if b.data & (b.data - 1) == 0:
            return lshr(a, bv(b.data.bit_length() - 1, a.w))
    return mk('udiv', (a, b), a.w)


def urem(a, b):
    if b.op == 'c' and b.data:
        if a.op == 'c':
            return bv(a.data % b.data, a.w)
        if b.data & (b.data - 1) == 0:
            return band(a, bv(b.data - 1, a.w))
    return mk('urem', (a, b), a.w)


def _tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def sdiv(a, b):
    if b.op == 'c' and b.data:
        if b.data == 1:
            return a
        if a.op == 'c':
            return bv(_tdiv(sval(a), sval(b)), a.w)
    return mk('sdiv', (a, b), a.w)


def srem(a, b):
    if b.op == 'c' and b.data and a.op == 'c':
        x, y = sval(a), sval(b)
        return bv(x - y * _tdiv(x, y), a.w)
    return mk('srem', (a, b), a.w)


def select(name, idx, w):
    """element of an (initial) array symbol, index 64 bits"""
    assert idx.w == 64
    return mk('sel', (idx,), w, name)


def uf(name, args, w):
    return mk('uf', tuple(args), w, name)


# ---------------------------------------------------------------- printing
_inf = {'eq': '=', 'ult': '<u', 'ule': '<=u', 'slt': '<', 'sle': '<=', 'and_': '&', 'or_': '|', 'xor': '^',
        'mul': '*', 'shl': '<<', 'lshr': '>>u', 'ashr': '>>', 'udiv': '/u', 'sdiv': '/', 'urem': '%u', 'srem': '%'}


def show(t, depth=6):
    if t.op == 'c':
        return str(sval(t)) if t.w >= 16 else str(t.data)
    if t.op == 'v':
        return t.data
    if t.op in ('true', 'false'):
        return t.op
    if depth == 0:
        return '..'
    d = depth - 1
    if t.op == 'lin':
        c, ks = t.data
        s = ' + '.join(['%s%s' % ('' if k == 1 else '%d*' % tosigned(k, t.w), show(x, d)) for x, k in zip(t.args, ks)])
        if c:
            s += ' + %d' % tosigned(c, t.w)
        return '(' + s + ')'
    if t.op in _inf:
        return '(%s %s %s)' % (show(t.args[0], d), _inf[t.op], show(t.args[1], d))
    if t.op == 'sel':
        return '%s[%s]' % (t.data, show(t.args[0], d))
    if t.op == 'not':
        return '!' + show(t.args[0], d)
    if t.op == 'extract':
        return '%s{%d:%d}' % (show(t.args[0], d), t.data[0], t.data[1])
    return '%s(%s)' % (t.op if t.op != 'uf' else t.data, ', '.join(show(a, d) for a in t.args))


# ---------------------------------------------------------------- evaluation
def evalt(t, env, memo=None):
    """env: object with .var(name,w) and .sel(name,idx,w) and .uf(name,args,w). Bool -> 0/1"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[x.id] = _ev(x, [memo[a.id] for a in x.args], env)
    return memo[t.id]


def _ev(x, a, env):
    op = x.op
    w = x.w
    m = mask(w) if w else 1
    if op == 'c':
        return x.data
    if op == 'v':
        return env.var(x.data, w) & m
    if op == 'true':
        return 1
    if op == 'false':
        return 0
    if op == 'lin':
        c, ks = x.data
        return (c + sum(k * v for k, v in zip(ks, a))) & m
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op == 'not':
        return 1 - a[0]
    if op == 'and':
        return int(all(a))
    if op == 'eq':
        return int(a[0] == a[1])
    if op == 'ult':
        return int(a[0] < a[1])
    if op == 'ule':
        return int(a[0] <= a[1])
    if op in ('slt', 'sle'):
        ww = x.args[0].w
        p, q = tosigned(a[0], ww), tosigned(a[1], ww)
        return int(p < q) if op == 'slt' else int(p <= q)
    if op == 'mul':
        return (a[0] * a[1]) & m
    if op == 'zext':
        return a[0]
    if op == 'sext':
        return tosigned(a[0], x.args[0].w) & m
    if op == 'extract':
        return (a[0] >> x.data[1]) & m
    if op == 'concat':
        return (a[0] << x.args[1].w) | a[1]
    if op == 'and_':
        return a[0] & a[1]
    if op == 'or_':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'shl':
        return (a[0] << a[1]) & m if a[1] < w else 0
    if op == 'lshr':
        return a[0] >> a[1] if a[1] < w else 0
    if op == 'ashr':
        return (tosigned(a[0], w) >> min(a[1], w - 1)) & m
    if op == 'udiv':
        return a[0] // a[1] if a[1] else m
    if op == 'urem':
        return a[0] % a[1] if a[1] else a[0]
    if op == 'sdiv':
        p, q = tosigned(a[0], w), tosigned(a[1], w)
        if q == 0:
            return 1 if p < 0 else m
        return _tdiv(p, q) & m
    if op == 'srem':
        p, q = tosigned(a[0], w), tosigned(a[1], w)
        if q == 0:
            return a[0]
        return (p - q * _tdiv(p, q)) & m
    if op == 'sel':
        return env.sel(x.data, a[0], w) & m
    if op == 'uf':
        return env.uf(x.data, tuple(a), w) & m
    raise Exception('eval ' + op)


def free_vars(t, acc=None, seen=None):
    if acc is None:
        acc = set()
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            acc.add(x.data)
        elif x.op in ('sel', 'uf'):
            acc.add(x.data)
        st.extend(x.args)
    return acc


def subst(t, m, memo=None):
    """m: {term id -> term}"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.id in m:
            memo[x.id] = m[x.id]
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[x.id] = rebuild(x, [memo[a.id] for a in x.args])
    return memo[t.id]


def rebuild(x, a):
    op = x.op
    if not a:
        return x
    if op == 'lin':
        c, ks = x.data
        r = bv(c, x.w)
        for k, v in zip(ks, a):
            r = add(r, scale(v, k))
        return r
    f = {'ite': ite, 'not': NOT, 'and': AND, 'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle, 'mul': mul,
         'and_': band, 'or_': bor, 'xor': bxor, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem,
         'sdiv': sdiv, 'srem': srem, 'concat': concat}.get(op)
    if f:
        return f(*a)
    if op == 'zext':
        return zext(a[0], x.w)
    if op == 'sext':
        return sext(a[0], x.w)
    if op == 'extract':
        return extract(x.data[0], x.data[1], a[0])
    return mk(op, tuple(a), x.w, x.data)
