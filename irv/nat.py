"""Concrete execution of a goal against the natively compiled real code.

Run as a child process with the address sanitizer preloaded:
   nat.py LIB IR TASKS.json      (tasks: goal ids with models and/or random seeds)
prints one JSON line per finding."""
import array
import ctypes
import json
import os
import random
import sys
import time

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from irv.terms import *
from irv.mem import *
from irv import llir
from irv.contract import Reject, Rec, Fun, arange, mklist

MAXBYTES = 1 << 24


class Lib(object):
    def __init__(self, so, syms, every=None):
        self.all = every or {}
        self.lib = ctypes.CDLL(so)
        self.syms = syms
        a = 'vt_raw'
        self.base = ctypes.cast(getattr(self.lib, a), ctypes.c_void_p).value - syms[a]
        self.rev = {self.base + v: k for k, v in syms.items()}
        self.lib.vt_raw.restype = ctypes.c_void_p
        self.lib.vt_raw.argtypes = [ctypes.c_size_t]

    def poke(self, a, code):
        pg = a & ~4095
        n = ((a + len(code) + 4095) & ~4095) - pg
        if ctypes.CDLL(None).mprotect(ctypes.c_void_p(pg), ctypes.c_size_t(n), 7) != 0:
            raise Reject('mprotect')
        ctypes.memmove(a, code, len(code))

    def addr(self, n):
        if n not in self.syms:
            raise Reject('no symbol ' + n)
        return self.base + self.syms[n]


CODES = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}


def rnd_value(rng, w):
    c = rng.random()
    if c < 0.35:
        v = rng.randint(0, 8)
    elif c < 0.45:
        v = -rng.randint(1, 8)
    elif c < 0.6:
        b = 1 << rng.randint(0, w - 1)
        v = b + rng.randint(-1, 1)
    elif c < 0.7:
        v = -(1 << rng.randint(0, w - 1)) + rng.randint(-1, 1)
    elif c < 0.85:
        v = rng.getrandbits(rng.randint(1, w))
    else:
        v = rng.getrandbits(w)
    return v & mask(w)


class Snap(object):
    def __init__(self):
        self.mem = {}


class NatG(object):
    sym_mode = False

    def __init__(self, mod, lib, goal, model=None, rng=None, bounded=True, plan=None):
        self.raws = {}
        self.mod, self.lib, self.goal = mod, lib, goal
        self.model, self.rng, self.bounded = model, rng, bounded
        self.unroll = goal.opt.get('unroll', 6)
        self.plan = plan
        self.regs = []
        self.allregs = []
        self.inputs = {}
        self.failed = []
        self.checked = 0
        self.calls = 0
        self.init = {}      # (region, leafname) -> value
        self.doms = {}
        self.mat = False
        self.names = {}
        self.globs = {}
        self.layc = {}
        self.ghosts = {}
        self.keep = []
        self.cbaddr = {}
        self.cberr = None
        self.patched = []

    # ---------------------------------------------------------- values
    def pick(self, name, w, dom=None, signed=False):
        if self.model is not None:
            v = self.model['vars'].get(name)
            if v is None:
                # eliminated variables: anything satisfying the preconditions
                v = 0
                if dom and dom[0] is not None and not (isinstance(dom[0], list)):
                    v = max(0, dom[0])
            return v & mask(w)
        rng = self.rng
        if name in self.usual_dom and rng.random() < 0.9:
            return rng.randint(*self.usual_dom[name]) & mask(w)
        if dom:
            lo, hi = dom
            if lo is None:
                lo = -(1 << (w - 1)) if signed else 0
            if hi is None:
                hi = (1 << (w - 1)) - 1 if signed else mask(w)
            for _ in range(8):
                v = rnd_value(rng, w)
                s = tosigned(v, w) if signed else v
                if lo <= s <= hi:
                    return v
            c = rng.random()
            if c < 0.3:
                return rng.choice([lo, lo + 1, hi, hi - 1]) & mask(w) if hi > lo else lo & mask(w)
            return rng.randint(lo, hi) & mask(w)
        return rnd_value(rng, w)

    def _reg(self, r, track=True):
        base = r.name
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        r.uname = base if n == 0 else '%s~%d' % (base, n)
        if track:
            self.regs.append(r)
        self.allregs.append(r)
        r.nat = None
        return r

    def struct_layout(self, name):
        if name not in self.layc:
            d = self.mod.find_struct_di(name)
            if d is None:
                raise Reject('no struct ' + name)
            self.layc[name] = (int(d['size']) // 8, d, layout_from_di(self.mod, d))
        return self.layc[name]

    def obj(self, name, typ):
        size, d, lay = self.struct_layout(typ)
        r = Region(name, size, lay)
        r.typename = typ
        return self._reg(r)

    def arr(self, name, esize, count, kind='int', signed=True):
        n = count if isinstance(count, int) else count.data
        if n * esize > MAXBYTES:
            raise Reject('too big')
        lay = Layout()
        lay.add_sec(Sec(0, esize, n, 0, esize, kind, 'data', signed))
        return self._reg(Region(name, n * esize, lay))

    def structs(self, name, typ, count):
        size, d, el = self.struct_layout(typ)
        n = count if isinstance(count, int) else count.data
        if n * size > MAXBYTES:
            raise Reject('too big')
        return self._reg(Region(name, n * size, layout_array_of(self.mod, el, size, n)))

    def opaque(self, name):
        r = Region(name, 1, Layout(), 'opaque')
        return self._reg(r, False)

    def glob(self, name):
        if name not in self.globs:
            ty, init, const = self.mod.globals['@' + name]
            r = Region(name, self.mod.sizeof(ty), layout_from_ll(self.mod, ty), 'global')
            self._reg(r, False)
            r.nat = self.lib.addr(name)
            self.globs[name] = r
        return self.globs[name]

    def sym(self, name, w, lo=None, hi=None, signed=False, vals=None):
        if vals is not None and self.model is None:
            v = self.rng.choice(vals) & mask(w)
        else:
            v = self.pick(name, w, (lo, hi) if lo is not None or hi is not None else None, signed)
        t = bv(v, w)
        self.inputs[name] = tosigned(v, w) if signed else v
        if lo is not None:
            self.assume(sle(bv(lo, w), t) if signed else ule(bv(lo, w), t))
        if hi is not None:
            self.assume(sle(t, bv(hi, w)) if signed else ule(t, bv(hi, w)))
        if vals is not None:
            self.assume(OR(*[eq(t, bv(x, w)) for x in vals]))
        return t

    def symbool(self, name):
        if self.model is not None:
            v = self.model['vars'].get(name, 0)
        else:
            v = self.rng.randint(0, 1)
        self.inputs[name] = v
        return B(v)

    # ---------------------------------------------------------- leaves
    def find_leaf(self, r, name):
        l = r.lay.names.get(name)
        if l is None:
            c = [n for n in r.lay.names if n.endswith('.' + name)]
            if len(c) != 1:
                raise EngineError('no field %s in %s' % (name, r.name))
            l = r.lay.names[c[0]]
        return l

    def set(self, r, f, v):
        l = self.find_leaf(r, f)
        if isinstance(v, int):
            v = bv(v, 8 * l.size)
        if isinstance(v, list):
            v = Arr('const', v, 'p' if l.kind == 'ptr' else 8 * l.esize)
        self.init[(r.id, l.name)] = v

    def set_at(self, r, f, i, v):
        l = self.find_leaf(r, f)
        a = self.leaf_init(r, l)
        if isinstance(v, int):
            v = bv(v, 8 * l.esize)
        self.init[(r.id, l.name)] = a.store(bv(i, 64), v)

    def range(self, r, f, lo=None, hi=None):
        l = self.find_leaf(r, f)
        k = (r.id, l.name)
        self.doms[k] = (lo, hi, l.signed)
        v = self.rd(r, f)
        if lo is not None:
            self.assume(sle(bv(lo, v.w), v) if l.signed else ule(bv(lo, v.w), v))
        if hi is not None:
            self.assume(sle(v, bv(hi, v.w)) if l.signed else ule(v, bv(hi, v.w)))
        return v

    def arange(self, r, f, lo, hi):
        arange(self, r, f, lo, hi)

    def lst(self, name, typ, nextf, prevf=None, most=1 << 20):
        return mklist(self, name, typ, nextf, prevf, min(most, 64) if self.rng is not None else most)

    def leaf_init(self, r, l):
        k = (r.id, l.name)
        v = self.init.get(k)
        if v is not None:
            return v
        nm = '%s.%s' % (r.uname, l.name)
        dom = self.doms.get(k)
        if isinstance(l, Cell):
            if l.kind == 'ptr':
                v = NULLP
                if self.model is not None and 'null?' + nm in self.model['vars'] and not self.model['vars']['null?' + nm]:
                    v = pv(self.opaque(nm))
            else:
                x = self.pick(nm, 8 * l.size, dom[:2] if dom else None, dom[2] if dom else l.signed)
                v = bv(x, 8 * l.size)
                self.inputs[nm] = tosigned(x, 8 * l.size) if l.signed else x
        else:
            if l.kind == 'ptr':
                v = fill_arr(NULLP, 'p')
            else:
                w = 8 * l.esize
                n = l.count
                if self.model is not None:
                    tab, dflt = self.model['sels'].get(nm, ({}, 0))
                    tab = {int(i): x for i, x in tab.items()}
                    if dom and (dom[0] is not None):
                        pass
                    v = Arr('fn', (lambda i, tab=tab, dflt=dflt, w=w: bv(tab.get(i.data, dflt), w)), w)
                    self.inputs[nm] = {str(i): tab[i] for i in sorted(tab)[:40]}
                else:
                    mode = self.rng.random()
                    m = min(n, 70000)
                    one = lambda: self.pick(nm, w, dom[:2] if dom else None, l.signed)
                    if mode >= 0.7 and not dom and l.esize in CODES:
                        big = self.rng.getrandbits(8 * l.esize * m).to_bytes(l.esize * m, 'little') if m else b''
                        vals = array.array(CODES[l.esize], big).tolist()
                    elif m > 512:
                        vals = self.rng.choices([one() for _ in range(200)], k=m)
                    else:
                        vals = [one() for _ in range(m)]
                    v = Arr('fn', (lambda i, vals=vals, w=w: bv(vals[i.data] if i.data < len(vals) else 0, w)), w)
                    self.raws[id(v)] = (v, vals)
                    self.inputs[nm] = vals[:40]
        self.init[k] = v
        return v

    # ---------------------------------------------------------- memory
    def addr_of(self, p):
        for g, b, o in p.ts:
            if g is TRUE or (g.op == 'true'):
                if b is INTB:
                    return o.data
                if isinstance(b, FuncBase):
                    return self.cbaddr.get(b.name) or self.lib.addr(b.name)
                self.place(b)
                return (b.nat + o.data) & mask(64)
        raise Reject('pointer value')

    def place(self, r):
        if r.nat is None:
            n = r.size if isinstance(r.size, int) else r.size.data
            if r.kind == 'opaque':
                n = 16
            r.nat = self.lib.lib.vt_raw(max(n, 0) if n else 0) or 0
            r.natsize = n

    def materialize(self):
        self.mat = True
        for r in list(self.allregs):
            if r.kind != 'global':
                self.place(r)
        done = set()
        while True:
            todo = [r for r in self.allregs if r.id not in done and r.kind not in ('global', 'opaque')]
            if not todo:
                break
            for r in todo:
                done.add(r.id)
                self.place(r)
                n = r.size if isinstance(r.size, int) else r.size.data
                buf = bytearray(n)
                for l in list(r.lay.cells.values()):
                    v = self.leaf_init(r, l)
                    x = self.addr_of(v) if isinstance(v, PV) else v.data
                    buf[l.off:l.off + l.size] = x.to_bytes(l.size, 'little')
                for l in r.lay.secs:
                    a = self.leaf_init(r, l)
                    raw = self.raws.get(id(a))
                    if raw and raw[0] is a and len(raw[1]) == l.count and l.esize in CODES:
                        x = array.array(CODES[l.esize], raw[1]).tobytes()
                        o, e = l.start + l.loff, l.esize
                        if l.stride == e:   # whole sections at once
                            buf[o:o + len(x)] = x
                        else:
                            for i in range(l.count):
                                buf[o:o + e] = x[i * e:i * e + e]
                                o += l.stride
                        continue
                    for i in range(l.count):
                        v = a.select(bv(i, 64))
                        x = self.addr_of(v) if isinstance(v, PV) else v.data
                        o = l.start + l.loff + i * l.stride
                        buf[o:o + l.esize] = x.to_bytes(l.esize, 'little')
                if n:
                    ctypes.memmove(r.nat, bytes(buf), n)
        for r in self.allregs:
            if r.kind == 'opaque':
                self.place(r)
        self.pre_snap = self.take()

    def size(self, r):
        return r.size if isinstance(r.size, int) else r.size.data

    def take(self):
        s = Snap()
        for r in self.regs:
            if r.nat and not self.gone(r):
                s.mem[r.id] = ctypes.string_at(r.nat, self.size(r))
        return s

    def snap(self):
        if not self.mat:
            return None
        return self.take()

    def to_pv(self, a):
        if a == 0:
            return NULLP
        for nm, ad in self.cbaddr.items():
            if ad == a:
                return pv_func(nm)
        if a in self.lib.rev:
            nm = self.lib.rev[a]
            if '@' + nm in self.mod.globals:
                return pv(self.glob(nm))
            return pv_func(nm)
        for incl in (0, 1):
            for r in self.allregs:
                if r.nat and r.nat <= a < r.nat + max(self.size(r), 1) + incl:
                    return pv(r, bv(a - r.nat, 64))
        return pv_int(bv(a, 64))

    def raw(self, r, off, n, s):
        if s is not None:
            b = s.mem.get(r.id)
            if b is None:
                raise Reject('snapshot')
            return b[off:off + n]
        return ctypes.string_at(r.nat + off, n)

    def rd(self, r, f, s='now'):
        l = self.find_leaf(r, f)
        if s == 'pre':
            s = self.pre_snap if self.mat and r.id in self.pre_snap.mem else None
            if s is None:
                return self.leaf_init(r, l)
        elif s == 'now' or s is None:
            if not self.mat and r.nat is None:
                return self.leaf_init(r, l)
            s = None
        if isinstance(l, Cell):
            x = int.from_bytes(self.raw(r, l.off, l.size, s), 'little')
            return self.to_pv(x) if l.kind == 'ptr' else bv(x, 8 * l.size)

        def sel(i, l=l, s=s):
            j = i.data
            if j >= l.count:
                return NULLP if l.kind == 'ptr' else bv(0, 8 * l.esize)
            x = int.from_bytes(self.raw(r, l.start + l.loff + j * l.stride, l.esize, s), 'little')
            return self.to_pv(x) if l.kind == 'ptr' else bv(x, 8 * l.esize)
        if s is None:
            # a value read now must not change later
            data = ctypes.string_at(r.nat, self.size(r))

            def sel(i, l=l, data=data):
                j = i.data
                if j >= l.count:
                    return NULLP if l.kind == 'ptr' else bv(0, 8 * l.esize)
                o = l.start + l.loff + j * l.stride
                x = int.from_bytes(data[o:o + l.esize], 'little')
                return self.to_pv(x) if l.kind == 'ptr' else bv(x, 8 * l.esize)
        return Arr('fn', sel, 'p' if l.kind == 'ptr' else 8 * l.esize)

    def at(self, r, f, i, s='now'):
        if isinstance(i, int):
            i = bv(i, 64)
        if i.w < 64:
            i = zext(i, 64)
        return self.rd(r, f, s).select(i)

    def pre(self, r, f):
        return self.rd(r, f, 'pre')

    def struct_size(self, typ):
        return self.struct_layout(typ)[0]

    def field(self, p, typ, f, idx=0, elem=0, s=None):
        size, d, lay = self.struct_layout(typ)
        l = lay.names.get(f)
        if l is None:
            l = lay.names[[n for n in lay.names if n.endswith('.' + f)][0]]
        if isinstance(idx, T):
            idx = idx.data
        if isinstance(elem, T):
            elem = elem.data
        off = idx * size + (l.off if isinstance(l, Cell) else l.start + l.loff + elem * l.stride)
        sz = l.size if isinstance(l, Cell) else l.esize
        return self.loadn(p, off, sz, l.kind == 'ptr', s)

    def loadn(self, p, off, n, ptr, s=None):
        if len(p.ts) == 1 and isinstance(p.ts[0][1], Region) and not self.mat:
            self.materialize()
        if s is not None and len(p.ts) == 1 and isinstance(p.ts[0][1], Region) and p.ts[0][1].id in s.mem:
            o = p.ts[0][2].data + off
            x = int.from_bytes(s.mem[p.ts[0][1].id][o:o + n], 'little')
        else:
            a = self.addr_of(p) + off
            if a < 4096 or self.addr_of(p) < 65536:
                return NULLP if ptr else bv(0, 8 * n)
            x = int.from_bytes(ctypes.string_at(a, n), 'little')
        return self.to_pv(x) if ptr else bv(x, 8 * n)

    def load(self, p, w, off=0, s=None):
        o = off.data if isinstance(off, T) else off
        return self.loadn(p, o, 8 if w == 'p' else w // 8, w == 'p', s)

    def no_leak(self, name, *keep):
        buf = (ctypes.c_uint64 * 4096)()
        n = self.lib.lib.vt_live(buf)
        ks = {self.addr_of(p) for p in keep}
        self.ensure(name, B(all(buf[i] in ks for i in range(n))))

    def freed(self, r, s=None):
        return B(self.gone(r))

    def gone(self, r):
        f = self.lib.lib.vt_gone
        f.argtypes = [ctypes.c_void_p]
        return bool(self.mat and r.nat and f(r.nat))

    # ---------------------------------------------------------- logic
    def assume(self, t):
        t = B(t) if isinstance(t, bool) else t
        if t is TRUE:
            return
        if t is FALSE:
            raise Reject('assumption')
        raise Reject('assumption not concrete: ' + show(t))

    def fact(self, t):
        pass

    usual_dom = {}

    def usual(self, **d):
        """ranges from which random runs mostly draw; proofs do not look at them"""
        self.usual_dom = {k.replace('__', '.'): v for k, v in d.items()}

    def bound(self, t, n):
        if self.rng is not None and self.bounded and t.data > n:
            raise Reject('bound')

    def ensure(self, name, t):
        t = B(t) if isinstance(t, bool) else t
        self.checked += 1
        if t is FALSE:
            self.failed.append('ensures.' + name)

    def lemma(self, name, t):
        pass

    def forall(self, name, n, fn):
        n = n if isinstance(n, int) else n.data
        idx = range(n) if n <= 5000 else list(range(2500)) + list(range(n - 2500, n))
        for i in idx:
            t = fn(bv(i, 64))
            self.checked += 1
            if t is FALSE:
                self.failed.append('ensures.%s[%d]' % (name, i))
                return

    def fun(self, name, w, done, val, nxt):
        return Fun(self, name, w, done, val, nxt)

    def rec(self, name, w, base, step):
        return Rec(self, name, w, base, step)

    def frame(self, *exc, **kw):
        wholes = [e for e in exc if isinstance(e, Region)]
        parts = [e for e in exc if not isinstance(e, Region)]
        s0 = kw.get('since') or self.pre_snap
        for r in self.regs:
            if r in wholes or r.id not in s0.mem or self.gone(r):
                continue
            if ('freed', r) in parts:
                continue
            now = ctypes.string_at(r.nat, self.size(r))
            if now == s0.mem[r.id]:
                continue
            for l in list(r.lay.cells.values()) + r.lay.secs:
                if any(e[0] is r and (l.name == e[1] or l.name.startswith(e[1] + '.') or l.name.endswith('.' + e[1]) or l.name.startswith(e[1] + '[')) for e in parts):
                    continue
                if isinstance(l, Cell):
                    ch = now[l.off:l.off + l.size] != s0.mem[r.id][l.off:l.off + l.size]
                elif l.stride == l.esize:
                    e = l.start + l.count * l.stride
                    ch = now[l.start:e] != s0.mem[r.id][l.start:e]
                else:
                    ch = any(now[l.start + l.loff + i * l.stride:l.start + l.loff + i * l.stride + l.esize] !=
                             s0.mem[r.id][l.start + l.loff + i * l.stride:l.start + l.loff + i * l.stride + l.esize] for i in range(l.count))
                if ch:
                    self.failed.append('ensures.frame.%s.%s' % (r.name, l.name))

    # ---------------------------------------------------------- calls
    def fname(self, fn):
        for n in (fn, 'vt_' + fn):
            if n in self.lib.syms and n in self.mod.fns:
                return n
        import re
        for n in self.mod.fns:
            if re.sub(r'\.\d+$', '', n) == fn and fn in self.lib.syms:
                return n
        raise Reject('no function ' + fn)

    def call(self, fn, *args):
        if not self.mat:
            self.materialize()
            pl = self.plan
            if pl is None and self.rng is not None and self.goal.opt.get('malloc_may_fail', True) and self.rng.random() < 0.3:
                pl = [self.rng.randint(0, 1) for _ in range(6)]
            pl = bytes(pl or [])
            self.inputs['malloc'] = list(pl)
            self.lib.lib.vt_plan(pl, len(pl))
        self.calls += 1
        n = self.fname(fn)
        f = self.mod.fns[n]
        argt = []
        vals = []
        for i, a in enumerate(args):
            ty = f.params[i][1] if i < len(f.params) else llir.PTR
            if isinstance(a, Region):
                a = pv(a)
            if isinstance(a, str):
                a = pv_func(a)
            if isinstance(a, PV):
                vals.append(self.addr_of(a))
                argt.append(ctypes.c_uint64)
            elif ty.k in ('double', 'float'):
                import struct
                if ty.k == 'double':
                    vals.append(struct.unpack('<d', struct.pack('<Q', a.data))[0])
                    argt.append(ctypes.c_double)
                else:
                    vals.append(struct.unpack('<f', struct.pack('<I', a.data))[0])
                    argt.append(ctypes.c_float)
            else:
                x = a if isinstance(a, int) else sval(a) if a.w else int(a is TRUE)
                vals.append(x & mask(64))
                argt.append(ctypes.c_uint64)
        rt = f.ret
        ct = {'void': None, 'ptr': ctypes.c_uint64, 'double': ctypes.c_double, 'float': ctypes.c_float}.get(rt.k, ctypes.c_uint64)
        proto = ctypes.CFUNCTYPE(ct, *argt)
        r = proto(self.lib.addr(re_norm(n)))(*vals)
        if self.cberr:
            raise self.cberr
        if rt.k == 'void':
            return None
        if rt.k == 'ptr':
            return self.to_pv(r or 0)
        if rt.k == 'int':
            return bv(r, rt.n) if rt.n > 1 else B(r & 1)
        raise Reject('return type')

    def stub(self, fn, h):
        """replace the native function by a jump to the contract's handler"""
        n = self.fname(fn)
        f = self.mod.fns[n]
        n = re_norm(n)
        kind = lambda ty: 'p' if ty.k == 'ptr' else ty.n
        cts = {'p': ctypes.c_uint64, 64: ctypes.c_uint64, 32: ctypes.c_uint32, 16: ctypes.c_uint16, 8: ctypes.c_uint8}
        args = [kind(ty) for _, ty in f.params]
        ret = None if f.ret.k == 'void' else kind(f.ret)

        def py(*a):
            if self.cberr:
                return 0
            try:
                v = h(self, None, [self.to_pv(x) if k == 'p' else bv(x, k) for k, x in zip(args, a)])
            except BaseException as e:
                self.cberr = e
                return 0
            if v is None:
                return 0
            return self.addr_of(v) if isinstance(v, PV) else v.data
        cb = ctypes.CFUNCTYPE(None if ret is None else cts[ret], *[cts[k] for k in args])(py)
        self.keep.append(cb)
        tgt = ctypes.cast(cb, ctypes.c_void_p).value
        code = b'\x49\xbb' + tgt.to_bytes(8, 'little') + b'\x41\xff\xe3'
        for v in self.lib.all.get(re_norm(fn), []):
            a = self.lib.base + v
            self.patched.append((a, ctypes.string_at(a, len(code))))
            self.lib.poke(a, code)

    def extern(self, fn, h, args, ret=32):
        cts = {'p': ctypes.c_uint64, 64: ctypes.c_uint64, 32: ctypes.c_uint32, 16: ctypes.c_uint16, 8: ctypes.c_uint8}

        def py(*a):
            if self.cberr:
                return 0
            try:
                v = h(self, None, [self.to_pv(x) if k == 'p' else bv(x, k) for k, x in zip(args, a)])
            except BaseException as e:
                self.cberr = e
                return 0
            return 0 if v is None else self.addr_of(v) if isinstance(v, PV) else v.data
        cb = ctypes.CFUNCTYPE(None if ret is None else cts[ret], *[cts[k] for k in args])(py)
        self.keep.append(cb)
        code = b'\x49\xbb' + ctypes.cast(cb, ctypes.c_void_p).value.to_bytes(8, 'little') + b'\x41\xff\xe3'
        for v in self.lib.all.get('vt_' + fn, []):
            a = self.lib.base + v
            self.patched.append((a, ctypes.string_at(a, len(code))))
            self.lib.poke(a, code)

    def accessible(self, S, p, n):
        pass

    def holds(self, S, t):
        return t is TRUE

    def byte(self, S, p, i):
        return bv(ctypes.string_at(self.addr_of(p) + i.data, 1)[0], 8)

    def fill(self, S, p, n, f):
        a = self.addr_of(p)
        ctypes.memmove(a, bytes(f(bv(i, 64)).data for i in range(n.data)), n.data)

    def byte_arrays(self):
        pass

    def unpatch(self):
        for a, old in reversed(self.patched):
            self.lib.poke(a, old)
        self.patched = []

    def alloc_size(self, p):
        f = self.lib.lib.vt_size
        f.restype, f.argtypes = ctypes.c_uint64, [ctypes.c_void_p]
        a = self.addr_of(p)
        return bv(f(a) if a else 0, 64)

    def callback(self, fn, h, args=('p', 'p'), ret=32):
        cts = {'p': ctypes.c_uint64, 64: ctypes.c_uint64, 32: ctypes.c_uint32, 16: ctypes.c_uint16}

        def py(*a):
            if self.cberr:
                return 0
            try:
                v = h(self, None, [self.to_pv(x) if k == 'p' else bv(x, k) for k, x in zip(args, a)])
            except BaseException as e:
                self.cberr = e
                return 0
            if v is None:
                return 0
            return self.addr_of(v) if isinstance(v, PV) else v.data
        proto = ctypes.CFUNCTYPE(None if ret is None else cts[ret], *[cts[k] for k in args])
        f = proto(py)
        self.keep.append(f)
        self.cbaddr[fn] = ctypes.cast(f, ctypes.c_void_p).value
        return pv_func(fn)

    def ghost(self, key, v):
        self.ghosts[key] = v

    def gget(self, S, key):
        return self.ghosts[key]

    def gset(self, S, key, v):
        self.ghosts[key] = v

    def get(self, S, p, typ, f, idx=0, elem=0):
        return self.field(p, typ, f, idx, elem)

    def put(self, S, p, typ, f, v, idx=0, elem=0):
        size, d, lay = self.struct_layout(typ)
        l = lay.names.get(f)
        if l is None:
            l = lay.names[[n for n in lay.names if n.endswith('.' + f)][0]]
        idx = idx.data if isinstance(idx, T) else idx
        elem = elem.data if isinstance(elem, T) else elem
        off = idx * size + (l.off if isinstance(l, Cell) else l.start + l.loff + elem * l.stride)
        sz = l.size if isinstance(l, Cell) else l.esize
        x = self.addr_of(v) if isinstance(v, PV) else v.data
        ctypes.memmove(self.addr_of(p) + off, x.to_bytes(sz, 'little'), sz)

    def poke(self, S, p, v):
        n = 8 if isinstance(v, PV) else v.w // 8
        x = self.addr_of(v) if isinstance(v, PV) else v.data
        ctypes.memmove(self.addr_of(p), x.to_bytes(n, 'little'), n)

    def wr(self, S, r, f, v):
        l = self.find_leaf(r, f)
        self.poke(S, PV([(TRUE, r, bv(l.off if isinstance(l, Cell) else l.start + l.loff, 64))]), v)

    def cands(self, fn):
        pass

    def decide_selects(self):
        pass

    def heap_types(self, *ts):
        pass

    def heap_tail(self, typ, elem, count):
        pass

    def arrays(self, fn):
        pass

    def fresh(self, name, w):
        return bv(0, w)

    def cleanup(self):
        pass


def re_norm(n):
    import re
    return re.sub(r'\.\d+$', '', n)


def run_one(mod, lib, goal, model, seed, bounded, plan):
    rng = None if model is not None else random.Random(seed)
    g = NatG(mod, lib, goal, model, rng, bounded, plan)
    try:
        try:
            goal.run(g)
        finally:
            g.unpatch()
    except Reject as e:
        return 'reject', str(e), g
    except (OverflowError, EngineError, KeyError, IndexError, AttributeError) as e:
        return 'error', repr(e), g
    return ('fail' if g.failed else 'ok'), g.failed[:5], g


def main():
    so, ir, taskf = sys.argv[1:4]
    from irv import build
    import pickle
    with open(ir, 'rb') as f:
        mod = pickle.load(f)
    tasks = json.load(open(taskf))
    import contracts
    goals = {g.id: g for g in contracts.load()}
    lib = Lib(so, build.symbols(so), build.symbols_all(so))

    def out(**k):
        sys.stdout.write(json.dumps(k) + '\n')
        sys.stdout.flush()
    for t in tasks:
        g = goals[t['goal']]
        if 'model' in t:
            out(goal=g.id, start='model')
            r, info, ng = run_one(mod, lib, g, t['model'], None, t.get('bounded', False), t.get('plan'))
            out(goal=g.id, result=r, info=info, inputs=ng.inputs)
        else:
            t0 = time.time()
            seed = t['seed']
            n = 0
            rej = 0
            while time.time() - t0 < t['secs']:
                seed += 1
                out(goal=g.id, start=seed)
                r, info, ng = run_one(mod, lib, g, None, seed, True, None)
                if r == 'fail':
                    out(goal=g.id, result=r, info=info, inputs=ng.inputs, seed=seed)
                    break
                if r == 'error':
                    out(goal=g.id, result=r, info=info, seed=seed)
                    break
                if r == 'reject':
                    rej += 1
                else:
                    n += 1
            out(goal=g.id, done=n, rejected=rej)


if __name__ == '__main__':
    main()
