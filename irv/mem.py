"""Typed region memory: objects with named cells and array sections."""
from .terms import *
from . import llir


class EngineError(Exception):
    pass


class Base(object):
    pass


class IntBase(Base):
    name = 'int'

    def __repr__(self):
        return 'INT'


INTB = IntBase()


class FuncBase(Base):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '&' + self.name


_funcs = {}


def func_base(name):
    if name not in _funcs:
        _funcs[name] = FuncBase(name)
    return _funcs[name]


class Cell(object):
    __slots__ = ('off', 'size', 'kind', 'name', 'signed')

    def __init__(self, off, size, kind, name, signed=False):
        self.off, self.size, self.kind, self.name, self.signed = off, size, kind, name, signed


class Sec(object):
    __slots__ = ('start', 'stride', 'count', 'loff', 'esize', 'kind', 'name', 'key', 'signed')

    def __init__(self, start, stride, count, loff, esize, kind, name, signed=False):
        self.start, self.stride, self.count, self.loff = start, stride, count, loff
        self.esize, self.kind, self.name = esize, kind, name
        self.signed = signed
        self.key = None

    def count_t(self):
        return bv(self.count, 64) if isinstance(self.count, int) else self.count


class Layout(object):
    def __init__(self):
        self.cells = {}
        self.secs = []
        self.names = {}

    def add_cell(self, c):
        self.cells[c.off] = c
        self.names[c.name] = c

    def add_sec(self, s):
        s.key = ('s', len(self.secs))
        self.secs.append(s)
        self.names[s.name] = s


def layout_from_ll(mod, ty, lay=None, off=0, name='', count=None):
    """layout for an LLVM type (used for allocas, globals)"""
    if lay is None:
        lay = Layout()
    k = ty.k
    if k == 'arr':
        el = ty.el
        n = ty.n
        while el.k == 'arr':
            n *= el.n
            el = el.el
        if el.k == 'struct':
            s = mod.sizeof(el)
            for i in range(n):
                layout_from_ll(mod, el, lay, off + i * s, '%s[%d]' % (name, i))
        else:
            s = mod.sizeof(el)
            lay.add_sec(Sec(off, s, n, 0, s, 'ptr' if el.k == 'ptr' else 'int', name or 'data'))
    elif k == 'struct':
        for i, (f, o) in enumerate(zip(mod.fields(ty), mod.offs(ty))):
            layout_from_ll(mod, f, lay, off + o, (name + '.' if name else '') + 'f%d' % i)
    else:
        s = mod.sizeof(ty)
        lay.add_cell(Cell(off, s, 'ptr' if k == 'ptr' else 'int', name or 'val'))
    return lay


def layout_from_di(mod, d, lay=None, off=0, name='', expand=16):
    if lay is None:
        lay = Layout()
    d = mod.strip(d)
    if d is None or not d:
        raise EngineError('no debug type for ' + name)
    tag = d.get('tag')
    if d.get('kind') == 'DIBasicType' or tag in ('DW_TAG_pointer_type', 'DW_TAG_enumeration_type'):
        size = int(d['size']) // 8
        sg = d.get('encoding') in ('DW_ATE_signed', 'DW_ATE_signed_char')
        lay.add_cell(Cell(off, size, 'ptr' if tag == 'DW_TAG_pointer_type' else 'int', name or 'val', sg))
    elif tag == 'DW_TAG_structure_type':
        for mn, mo, md in mod.members(d):
            layout_from_di(mod, mod.di(md['baseType']), lay, off + mo, (name + '.' if name else '') + mn, expand)
    elif tag == 'DW_TAG_union_type':
        # first member wins
        ms = mod.members(d)
        layout_from_di(mod, mod.di(ms[0][2]['baseType']), lay, off, (name + '.' if name else '') + ms[0][0], expand)
    elif tag == 'DW_TAG_array_type':
        n = 1
        for it in mod.di(d['elements'])['items']:
            c = mod.di(it).get('count', '0')
            n *= int(c) if c.lstrip('-').isdigit() else 0
        el = mod.strip(mod.di(d['baseType']))
        if el.get('tag') == 'DW_TAG_structure_type':
            s = int(el['size']) // 8
            for i in range(n):
                layout_from_di(mod, el, lay, off + i * s, '%s[%d]' % (name, i), expand)
        else:
            s = int(el['size']) // 8
            sg = el.get('encoding') in ('DW_ATE_signed', 'DW_ATE_signed_char')
            if n:
                lay.add_sec(Sec(off, s, n, 0, s, 'ptr' if el.get('tag') == 'DW_TAG_pointer_type' else 'int', name, sg))
    elif tag == 'DW_TAG_subroutine_type':
        pass
    else:
        raise EngineError('debug type %s for %s' % (tag, name))
    return lay


def layout_array_of(mod, elem_lay, stride, count):
    """array of structs/scalars with (symbolic) count -> structure of sections"""
    lay = Layout()
    for c in elem_lay.cells.values():
        lay.add_sec(Sec(0, stride, count, c.off, c.size, c.kind, c.name, c.signed))
    for s in elem_lay.secs:
        if s.count > 16:
            if isinstance(count, int) and count <= 16:
                lay = Layout()
                for i in range(count):
                    for c in elem_lay.cells.values():
                        lay.add_cell(Cell(c.off + i * stride, c.size, c.kind, '[%d].%s' % (i, c.name), c.signed))
                    for t in elem_lay.secs:
                        lay.add_sec(Sec(t.start + i * stride, t.stride, t.count, t.loff, t.esize, t.kind, '[%d].%s' % (i, t.name), t.signed))
                return lay
            raise EngineError('nested arrays in dynamic array')
    for s in elem_lay.secs:
        for j in range(s.count):
            lay.add_sec(Sec(0, stride, count, s.start + s.loff + j * s.stride, s.esize, s.kind, '%s[%d]' % (s.name, j), s.signed))
    return lay


_rid = [0]


class Region(Base):
    def __init__(self, name, size, lay, kind='obj', const=False):
        _rid[0] += 1
        self.id = _rid[0]
        self.name = name
        self.size = size          # int or T(64) or None
        self.lay = lay
        self.kind = kind
        self.const = const
        self.fill = None          # for untyped fresh memory: None=uninit, int byte
        self.addr = None
        self.typename = None
        self.typed_lazily = False

    def __repr__(self):
        return self.name

    def size_t(self):
        return bv(self.size, 64) if isinstance(self.size, int) else self.size

    def addr_t(self):
        if self.addr is None:
            self.addr = var('addr_%s_%d' % (self.name, self.id), 64)
        return self.addr


class PV(object):
    """guarded set of pointer targets"""
    __slots__ = ('ts',)

    def __init__(self, ts):
        self.ts = tuple(ts)

    def __repr__(self):
        return 'PV(' + '; '.join('%s%r+%s' % ('' if g is TRUE else show(g, 3) + ' ? ', b, show(o, 4)) for g, b, o in self.ts) + ')'

    def same(self, other):
        if self is other:
            return True
        if len(self.ts) != len(other.ts):
            return False
        return all(a[0] is b[0] and a[1] is b[1] and a[2] is b[2] for a, b in zip(self.ts, other.ts))


Z64 = bv(0, 64)
NULLP = PV([(TRUE, INTB, Z64)])


def pv(base, off=Z64):
    return PV([(TRUE, base, off)])


def pv_int(t):
    return PV([(TRUE, INTB, t)])


def pv_func(name):
    return PV([(TRUE, func_base(name), Z64)])


def pv_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.same(b):
        return a
    ts = {}
    order = []
    for cond, p in ((c, a), (NOT(c), b)):
        for g, base, off in p.ts:
            gg = AND(cond, g)
            if gg is FALSE:
                continue
            k = (id(base), off.id)
            if k in ts:
                ts[k] = (OR(ts[k][0], gg), base, off)
            else:
                ts[k] = (gg, base, off)
                order.append(k)
    out = [ts[k] for k in order]
    if len(out) == 1:
        out = [(TRUE, out[0][1], out[0][2])]
    if len(out) > 12:
        # fold offsets per base
        by = {}
        for g, base, off in out:
            if id(base) in by:
                g0, b0, o0 = by[id(base)]
                by[id(base)] = (OR(g0, g), base, ite(g, off, o0))
            else:
                by[id(base)] = (g, base, off)
        out = list(by.values())
    return PV(out)


def pv_add(p, d):
    if d.op == 'c' and d.data == 0:
        return p
    return PV([(g, b, add(o, d)) for g, b, o in p.ts])


def pv_addr(p):
    r = None
    for g, b, o in reversed(p.ts):
        if b is INTB:
            x = o
        elif isinstance(b, FuncBase):
            x = add(var('faddr_' + b.name, 64), o)
        else:
            x = add(b.addr_t(), o)
        r = x if r is None else ite(g, x, r)
    return r


def pv_eq(p, q):
    acc = []
    for g1, b1, o1 in p.ts:
        for g2, b2, o2 in q.ts:
            g = AND(g1, g2)
            if g is FALSE:
                continue
            if b1 is b2:
                e = eq(o1, o2)
            elif b1 is INTB and b2 is not INTB and o1.op != 'c':
                e = eq(o1, pv_addr(PV([(TRUE, b2, o2)])))
            elif b2 is INTB and b1 is not INTB and o2.op != 'c':
                e = eq(o2, pv_addr(PV([(TRUE, b1, o1)])))
            else:
                e = FALSE
            acc.append(AND(g, e))
    return OR(*acc)


def pv_isnull(p):
    return pv_eq(p, NULLP)


# ------------------------------------------------------------------ arrays
class Arr(object):
    __slots__ = ('k', 'a', 'w', 'memo', 'depth')

    def __init__(self, k, a, w):
        self.k = k
        self.a = a
        self.w = w        # element width in bits, or 'p'
        self.memo = None

    def select(self, idx):
        if self.memo is None:
            self.memo = {}
        r = self.memo.get(idx.id)
        if r is None:
            r = self._sel(idx)
            self.memo[idx.id] = r
        return r

    def _sel(self, idx):
        node = self
        while True:
            k = node.k
            if k == 'base':
                return select(node.a, idx, node.w)
            if k == 'const':
                if idx.op == 'c':
                    if idx.data < len(node.a):
                        return node.a[idx.data]
                    return default_of(node.w)
                return mux(node.a, idx, node.w)
            if k == 'fill':
                return node.a
            if k == 'fn':
                return node.a(idx)
            if k == 'store':
                prev, i, v = node.a
                e = eq(i, idx)
                if e is TRUE:
                    return v
                if e is FALSE:
                    node = prev
                    continue
                return vite(e, v, prev.select(idx))
            if k == 'range':
                prev, lo, hi, fn = node.a
                c = AND(ule(lo, idx), ult(idx, hi))
                if c is TRUE:
                    return fn(idx)
                if c is FALSE:
                    node = prev
                    continue
                return vite(c, fn(idx), prev.select(idx))
            if k == 'ite':
                c, x, y = node.a
                return vite(c, x.select(idx), y.select(idx))
            raise EngineError('arr ' + k)

    def store(self, i, v):
        if self.k == 'store' and self.a[1] is i:
            return self.a[0].store(i, v)
        if self.k == 'const' and i.op == 'c' and i.data < len(self.a):
            l = list(self.a)
            l[i.data] = v
            return Arr('const', l, self.w)
        return Arr('store', (self, i, v), self.w)

    def range_set(self, lo, hi, fn):
        return Arr('range', (self, lo, hi, fn), self.w)


def default_of(w):
    return NULLP if w == 'p' else bv(0, w)


def base_arr(name, w):
    return Arr('base', name, w)


def fill_arr(v, w):
    return Arr('fill', v, w)


def mux(vals, idx, w):
    """balanced selection; out-of-range index gives element 0 (bounds are checked separately)"""
    n = len(vals)
    if n == 0:
        return default_of(w)
    bits = max(1, (n - 1).bit_length())
    low = extract(bits - 1, 0, idx)

    def rec(lo, b):
        if lo >= n:
            return None
        if b < 0:
            return vals[lo]
        x = rec(lo, b - 1)
        y = rec(lo + (1 << b), b - 1)
        if y is None:
            return x
        return vite(eq(extract(b, b, low), bv(1, 1)), y, x)
    return rec(0, bits - 1)


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, PV):
        return pv_ite(c, a, b)
    if isinstance(a, Arr):
        return Arr('ite', (c, a, b), a.w)
    return ite(c, a, b)


def vsame(a, b):
    if a is b:
        return True
    if isinstance(a, PV) and isinstance(b, PV):
        return a.same(b)
    return False


class ListShape(object):
    """nodes of a linked list of any length, stored as an array of structs in list order"""

    def __init__(self, region, size, count):
        self.region, self.size, self.count = region, size, count

    def at(self, k):
        return pv_ite(ult(k, self.count), pv(self.region, scale(k, self.size)), NULLP)

    def first(self):
        return self.at(Z64)

    def last(self):
        return pv_ite(eq(self.count, Z64), NULLP, pv(self.region, scale(sub(self.count, bv(1, 64)), self.size)))

    def before(self, k):
        return pv_ite(eq(k, Z64), NULLP, pv(self.region, scale(sub(k, bv(1, 64)), self.size)))
