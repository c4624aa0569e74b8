"""Contract layer.

A goal is a Python function over a context g: it describes the symbolic pre-state
(objects, inputs, `assume` = requires), performs one or more calls of real functions,
and states `ensure` (postconditions), `frame` (nothing else changes).  The same goal
text is executed in two ways:
  SymG  symbolically over the LLVM IR of the real code (proof obligations), and
  NatG  (nat.py) concretely against the natively compiled real code, which is how
        counterexamples are replayed.
"""
from .terms import *
from .terms import _fresh
from .mem import *
from . import llir

GOALS = []


class Goal(object):
    def __init__(self, prop, name, fn, kw=None, **opt):
        self.prop, self.name, self.fn, self.kw, self.opt = prop, name, fn, kw or {}, opt

    def run(self, g):
        return self.fn(g, **self.kw)

    @property
    def id(self):
        return '%s/%s' % (self.prop, self.name)


def goal(*props, **opt):
    """decorator: register a goal for the given properties.
    variants=[(suffix, kwargs)], functions=[names under contract]"""
    def d(fn):
        vs = opt.pop('variants', None) if 'variants' in opt else None
        for p in props:
            if vs:
                for sfx, kw in vs:
                    GOALS.append(Goal(p, '%s.%s' % (fn.__name__, sfx), fn, kw, **opt))
            else:
                GOALS.append(Goal(p, fn.__name__, fn, {}, **opt))
        return fn
    return d


class Reject(Exception):
    """native run: inputs do not satisfy the preconditions"""


class Rec(object):
    """recursively defined ghost sequence: at(0)=base, at(k+1)=step(k, at(k))"""

    def __init__(self, g, name, w, base, step):
        self.g, self.name, self.w, self.base, self.step = g, name, w, base, step
        if g.sym_mode:
            self.arr = base_arr('rec_' + name, w)
            g.vc.facts.append(eq(self.arr.select(Z64), base))
            if g.bounded:
                for i in range(max(g.unroll, 48) + 2):
                    self.unfold(bv(i, 64))
        else:
            self.memo = [base]

    def at(self, k):
        if self.g.sym_mode:
            return self.arr.select(k)
        n = k.data
        while len(self.memo) <= n:
            i = len(self.memo) - 1
            self.memo.append(self.step(bv(i, 64), self.memo[i]))
        return self.memo[n]

    def unfold(self, k):
        if self.g.sym_mode:
            self.g.vc.facts.append(eq(self.arr.select(add(k, bv(1, 64))), self.step(k, self.arr.select(k))))


class Fun(object):
    """recursively defined ghost function of a state: F(s) = val(s) if done(s), else F(next(s))"""

    def __init__(self, g, name, w, done, val, nxt):
        self.g, self.name, self.w, self.done, self.val, self.nxt = g, name, w, done, val, nxt

    def __call__(self, *s):
        if self.g.sym_mode:
            return uf('fun_' + self.name, list(s), self.w)
        for _ in range(1 << 20):
            if self.done(*s) is TRUE:
                return self.val(*s)
            s = self.nxt(*s)
        raise Reject('too long')

    def unfold(self, *s):
        if self.g.sym_mode:
            self.g.vc.facts.append(eq(self(*s), self.val(*s) if self.nxt is None else ite(self.done(*s), self.val(*s), self(*self.nxt(*s)))))


def arange(g, r, f, lo, hi):
    """requires lo <= every element <= hi: elements outside are replaced by lo"""
    a = g.rd(r, f)
    sg = lo < 0 or getattr(leaf_named(g, r, f), 'signed', False)

    def sel(i):
        v = a.select(i)
        ok = AND(sle(bv(lo, v.w), v), sle(v, bv(hi, v.w))) if sg else AND(ule(bv(lo, v.w), v), ule(v, bv(hi, v.w)))
        return ite(ok, v, bv(lo, v.w))
    g.set(r, f, Arr('fn', sel, a.w))


def leaf_named(g, r, f):
    l = g.vc.find_leaf(r, f)[1] if g.sym_mode else g.find_leaf(r, f)
    return l


def mklist(g, name, typ, nextf, prevf, most):
    """a well-formed linked list of any length: -> (ListShape)"""
    n = g.sym('n_' + name, 64, 0, most)
    g.bound(n, 3)
    r = g.structs(name, typ, n)
    size = (g.vc.struct_layout(typ) if g.sym_mode else g.struct_layout(typ))[0]
    shp = ListShape(r, size, n)
    g.set(r, nextf, Arr('fn', lambda i: shp.at(add(i, bv(1, 64))), 'p'))
    if prevf:
        g.set(r, prevf, Arr('fn', lambda i: shp.before(i), 'p'))
    if g.sym_mode:
        g.vc.list_shapes.append(shp)
    return shp


class SymG(object):
    sym_mode = True

    def __init__(self, mod, goal, bounded=False, unroll=None, ms=30000):
        from .exe import VC, State
        self.mod = mod
        self.goal = goal
        self.bounded = bounded
        self.vc = vc = VC(mod, goal)
        self.State = State
        self.unroll = unroll or goal.opt.get('unroll', 6)
        vc.inv = not bounded and goal.opt.get('inv', True)
        vc.bounded_mode = bounded
        vc.unroll = self.unroll if bounded else goal.opt.get('max_unroll', 80)
        vc.prune = goal.opt.get('prune', 'loop')
        vc.malloc_may_fail = goal.opt.get('malloc_may_fail', True)
        vc.cand_ms = goal.opt.get('cand_ms')
        vc.termination = goal.opt.get('termination', True)
        self.st = State()
        self.regs = []
        self.called = []
        self.calls = 0
        self.names = {}
        self.contracts = set()
        self.notes = []
        self.ensures = 0
        vc.g = self

    # ------------------------------------------------ objects and inputs
    def obj(self, name, typ):
        r = self.vc.new_object(name, typ)
        self.regs.append(r)
        return r

    def arr(self, name, esize, count, kind='int', signed=True):
        r = self.vc.new_array(name, esize, count, kind, signed)
        self.regs.append(r)
        return r

    def structs(self, name, typ, count):
        r = self.vc.new_struct_array(name, typ, count)
        self.regs.append(r)
        return r

    def opaque(self, name):
        return self.vc.opaque(name)

    def glob(self, name):
        return self.vc.global_region('@' + name)

    def sym(self, name, w, lo=None, hi=None, signed=False, vals=None):
        v = var(name, w)
        self.names[name] = (v, signed)
        if lo is not None:
            self.assume(sle(bv(lo, w), v) if signed else ule(bv(lo, w), v))
        if hi is not None:
            self.assume(sle(v, bv(hi, w)) if signed else ule(v, bv(hi, w)))
        if vals is not None:
            self.assume(OR(*[eq(v, bv(x, w)) for x in vals]))
        return v

    def symbool(self, name):
        v = var(name, 0)
        self.names[name] = (v, False)
        return v

    def set(self, r, f, v):
        self.vc.set_init(r, f, v)

    def set_at(self, r, f, i, v):
        """initial content of one element"""
        key, leaf = self.vc.find_leaf(r, f)
        a = self.vc.rd(self.State(), r, f)
        if isinstance(v, int):
            v = bv(v, a.w)
        self.vc.set_init(r, f, a.store(bv(i, 64), v))

    def range(self, r, f, lo=None, hi=None):
        v = self.rd(r, f)
        signed = self.vc.find_leaf(r, f)[1].signed
        if lo is not None:
            self.assume(sle(bv(lo, v.w), v) if signed else ule(bv(lo, v.w), v))
        if hi is not None:
            self.assume(sle(v, bv(hi, v.w)) if signed else ule(v, bv(hi, v.w)))
        return v

    def arange(self, r, f, lo, hi):
        arange(self, r, f, lo, hi)

    def lst(self, name, typ, nextf, prevf=None, most=1 << 20):
        return mklist(self, name, typ, nextf, prevf, most)

    # ------------------------------------------------ state access
    def rd(self, r, f, s=None):
        return self.vc.rd(s or self.st, r, f)

    def at(self, r, f, i, s=None):
        if isinstance(i, int):
            i = bv(i, 64)
        if i.w < 64:
            i = zext(i, 64)
        return self.rd(r, f, s).select(i)

    def pre(self, r, f):
        return self.vc.rd(self.State(), r, f)

    def snap(self):
        return self.st.copy()

    def _quiet(self, fn):
        vc = self.vc
        rec, vc.recording = vc.recording, False
        cm, vc.check_mem = vc.check_mem, False
        try:
            return fn()
        finally:
            vc.recording, vc.check_mem = rec, cm

    def leaf_in(self, typ, f):
        size, d = self.vc.struct_layout(typ)
        key = ('lay', typ)
        if key not in self.names:
            self.names[key] = layout_from_di(self.mod, d)
        lay = self.names[key]
        l = lay.names.get(f)
        if l is None:
            c = [n for n in lay.names if n.endswith('.' + f)]
            if len(c) != 1:
                raise EngineError('no field %s in %s' % (f, typ))
            l = lay.names[c[0]]
        return size, l

    def struct_size(self, typ):
        return self.vc.struct_layout(typ)[0]

    def field(self, p, typ, f, idx=0, elem=0, s=None):
        """field of the idx-th struct typ at pointer p (element elem of array fields)"""
        size, l = self.leaf_in(typ, f)
        off = bv(l.off if isinstance(l, Cell) else l.start + l.loff, 64)
        if isinstance(idx, int):
            idx = bv(idx, 64)
        if isinstance(elem, int):
            elem = bv(elem, 64)
        off = add(off, scale(idx, size))
        if isinstance(l, Sec):
            off = add(off, scale(elem, l.stride))
            sz = l.esize
        else:
            sz = l.size
        # heap objects take the struct's shape
        for g_, b, o in p.ts:
            if isinstance(b, Region) and b.lay is None:
                self.vc.type_region(b, 'struct.' + typ)
        ty = llir.PTR if l.kind == 'ptr' else llir.INT(8 * sz)
        return self._quiet(lambda: self.vc.load(s or self.st, pv_add(p, off), ty))

    def load(self, p, w, off=0, s=None):
        ty = llir.PTR if w == 'p' else llir.INT(w)
        o = off if isinstance(off, T) else bv(off, 64)
        return self._quiet(lambda: self.vc.load(s or self.st, pv_add(p, o), ty))

    def typed(self, b, size, kind='int'):
        """a heap block whose type is not known yet is an array of this element size"""
        if b.lay is None:
            self.vc.type_scalar(b, size, kind)
        return b

    def alloc_size(self, p):
        """bytes available at the heap block p"""
        v = Z64
        for g_, b, o in p.ts:
            if isinstance(b, Region) and b.kind == 'heap' and o is Z64:
                v = ite(g_, b.size_t(), v)
        return v

    def freed(self, r, s=None):
        return (s or self.st).dead.get(r.id, FALSE)

    # ------------------------------------------------ logic
    def no_leak(self, name, *keep):
        """every block allocated so far is freed or one of keep"""
        for r, c in self.vc.live_log:
            self.ensure(name, IMP(c, OR(self.st.dead.get(r.id, FALSE), *[pv_eq(p, pv(r)) for p in keep])))
        if not self.vc.live_log:
            self.ensure(name, TRUE)

    def assume(self, t):
        if self.calls:
            raise EngineError('assume after call')
        self.vc.assume(None, B(t) if isinstance(t, bool) else t)

    def fact(self, t):
        """fact about ghost/spec terms (definition unfolding) - not a requirement on inputs"""
        self.vc.facts.append(t)

    def usual(self, **d):
        pass

    def bound(self, t, n):
        """size bound, only in bounded variants"""
        if self.bounded:
            self.vc.assume(None, ule(t, bv(n, t.w)))

    def ensure(self, name, t):
        self.ensures += 1
        self.vc.oblige(self.st, B(t) if isinstance(t, bool) else t, 'post', '', 'ensures.' + name)

    def lemma(self, name, t):
        """proved here, then usable"""
        self.vc.oblige(self.st, t, 'lemma', '', 'lemma.' + name)
        self.vc.assume(self.st, t)

    def forall(self, name, n, fn):
        i = fresh('i_' + name, 64)
        n = bv(n, 64) if isinstance(n, int) else zext(n, 64)
        self.ensure(name, IMP(ult(i, n), fn(i)))

    def rec(self, name, w, base, step):
        return Rec(self, name, w, base, step)

    def fun(self, name, w, done, val, nxt):
        return Fun(self, name, w, done, val, nxt)

    def frame(self, *exc, **kw):
        """all leaves of the pre-state objects unchanged except the listed (region, field prefix)"""
        s0 = kw.get('since') or self.State()
        wholes = [e for e in exc if isinstance(e, Region)]
        parts = [e for e in exc if not isinstance(e, Region)]
        for r in self.regs:
            if r in wholes:
                continue
            m = self.st.mem.get(r.id)
            d = self.freed(r)
            if d is not FALSE and ('freed', r) not in parts:
                self.ensure('frame.%s.not-freed' % r.name, NOT(d))
            if m is None:
                continue
            for key, v in m.items():
                if key == '__r':
                    continue
                leaf = self.vc.leaf_of(r, key)
                if any(e[0] is r and (leaf.name == e[1] or leaf.name.startswith(e[1] + '.') or leaf.name.endswith('.' + e[1]) or leaf.name.startswith(e[1] + '[')) for e in parts):
                    continue
                v0 = self.vc.get_leaf(s0, r, key, leaf)
                if vsame(v0, v):
                    continue
                self.ensure('frame.%s.%s' % (r.name, leaf.name), self.same(v0, v, leaf))

    def same(self, a, b, leaf=None):
        if isinstance(a, PV):
            return pv_eq(a, b)
        if isinstance(a, Arr):
            i = fresh('fi', 64)
            x, y = a.select(i), b.select(i)
            e = pv_eq(x, y) if isinstance(x, PV) else eq(x, y)
            return IMP(ult(i, leaf.count_t()), e)
        return eq(a, b)

    # ------------------------------------------------ calls
    def arg(self, f, i, a):
        ty = f.params[i][1] if f is not None else None
        if isinstance(a, int):
            if ty is None:
                return bv(a, 32)
            if ty.k == 'ptr':
                return NULLP if a == 0 else pv_int(bv(a, 64))
            return bv(a, ty.n)
        if isinstance(a, Region):
            return pv(a)
        if isinstance(a, str):
            return pv_func(a)
        if isinstance(a, T) and ty is not None and ty.k == 'int' and a.w != ty.n:
            raise EngineError('argument width of %s' % f.name)
        return a

    def fname(self, fn):
        if fn in self.mod.fns:
            return fn
        w = 'vt_' + fn
        if w in self.mod.fns:
            return w
        for n in self.mod.fns:
            import re
            if re.sub(r'\.\d+$', '', n) == fn:
                return n
        raise EngineError('no function ' + fn)

    def call(self, fn, *args):
        self.calls += 1
        n = self.fname(fn)
        f = self.mod.fns[n]
        self.called.append(fn)
        a = [self.arg(f, i, x) for i, x in enumerate(args)]
        self.st.env = {}
        rs = self.vc.call(n, a, self.st)
        if not rs:
            self.vc.oblige(self.st, FALSE, 'reach', fn, 'reach.returns@' + fn)
            raise NoReturn(fn)
        if len(rs) > 1:
            for s, v in rs:
                s.env = {} if v is None else {'%ret': v}
            m = self.vc.merge_states([s for s, v in rs])
            rs = [(m, m.env.get('%ret'))]
        self.st, ret = rs[0]
        self.st.env = {}
        self.st.iters = {}
        return ret

    def stub(self, fn, h):
        """use the contract of fn at its call sites: h(g, st, args) -> ret"""
        def s(vc, st, args, ins):
            vc.contracts_used.add(fn)
            self.site = (ins, 'memory.%s' % fn)
            return h(self, st, args)
        self.vc.stubs[fn] = s

    def callback(self, fn, h, args=('p', 'p'), ret=32):
        """user callback: h(g, S, args) -> ret; S is passed to gget/gset/put/get"""
        def s(vc, st, a, ins):
            return h(self, st, a)
        self.vc.stubs[fn] = s
        return pv_func(fn)

    def extern(self, fn, h, args, ret=32):
        """the assumed contract of a library function: h(g, S, args) -> ret"""
        def s(vc, st, a, ins):
            vc.contracts_used.add(fn)
            self.site = (ins, 'memory.%s' % fn)
            return h(self, st, a[:len(args)])
        self.vc.stubs[fn] = s

    def accessible(self, S, p, n):
        """obligation of a library function: the n bytes at p are inside of a live object"""
        vc, (ins, what) = self.vc, self.site
        w = vc.where(ins)
        for gd, b, o in p.ts:
            if not isinstance(b, Region) or b.kind == 'opaque':
                vc.oblige(S, IMP(gd, eq(n, bv(0, 64))), 'memory', w, '%s.valid-pointer@%s' % (what, w))
                continue
            d = S.dead.get(b.id)
            sz = b.size_t()
            z = OR(eq(n, bv(0, 64)), AND(ule(n, sz), ule(o, sub(sz, n)), TRUE if d is None else NOT(d)))
            vc.oblige(S, IMP(gd, z), 'memory', w, '%s.in-bounds(%s)@%s' % (what, b.name, w))

    def holds(self, S, t):
        """always so in this state (used to simplify)"""
        return t is TRUE or self.vc.valid(S, t, 3000)

    def byte(self, S, p, i):
        """the byte at p + i (only meaningful if it is inside)"""
        vc, out = self.vc, None
        for gd, b, o in reversed(p.ts):
            if not isinstance(b, Region) or b.kind == 'opaque':
                continue
            if b.lay is None:
                vc.type_scalar(b, 1, 'int')
            x = add(o, i)
            secs = b.lay.secs
            if x.op == 'c':
                v = vc.byte_at(S, b, x.data)
            elif len(secs) == 1 and not b.lay.cells and secs[0].esize == secs[0].stride and secs[0].start + secs[0].loff == 0 and secs[0].esize in (1, 2, 4):
                a, e = vc.get_leaf(S, b, secs[0].key, secs[0]), secs[0].esize
                if e == 1:
                    v = a.select(x)
                else:
                    el = a.select(lshr(x, bv({2: 1, 4: 2}[e], 64)))
                    v = extract(7, 0, el)
                    for k in range(1, e):
                        v = ite(eq(band(x, bv(e - 1, 64)), bv(k, 64)), extract(8 * k + 7, 8 * k, el), v)
            elif isinstance(b.size, int) and b.size <= 64:
                v = bv(0, 8)
                for k in range(b.size):
                    v = ite(eq(x, bv(k, 64)), vc.byte_at(S, b, k), v)
            else:
                raise EngineError('bytes of ' + b.name)
            out = v if out is None else ite(gd, v, out)
        return bv(0, 8) if out is None else out

    def fill(self, S, p, n, f):
        """the first n bytes at p become f(0), f(1)..."""
        vc = self.vc
        ts = [t for t in p.ts if isinstance(t[1], Region) and t[1].kind != 'opaque']
        if len(ts) != 1:
            raise EngineError('bytes of several objects are set')
        gd, b, o = ts[0]
        if b.lay is None:
            vc.type_scalar(b, 1, 'int')
        secs = b.lay.secs
        if len(secs) == 1 and not b.lay.cells and secs[0].esize == secs[0].stride == 1 and secs[0].start + secs[0].loff == 0:
            a = vc.get_leaf(S, b, secs[0].key, secs[0])
            vc.set_leaf(S, b, secs[0].key, a.range_set(o, add(o, n), lambda i: f(sub(i, o))))
        elif isinstance(b.size, int) and b.size <= 64:
            for k in range(b.size):
                if o.op == 'c' and k < o.data:
                    continue
                i = sub(bv(k, 64), o)
                c = ult(i, n)
                if c is not FALSE:
                    vc.set_byte(S, b, k, ite(c, f(i), vc.byte_at(S, b, k)))
        else:
            raise EngineError('bytes of ' + b.name)

    def locals(self):
        """local arrays so far"""
        return [r for r in self.vc.alloca_log if r.lay is not None and not r.lay.cells and len(r.lay.secs) == 1]

    def byte_arrays(self):
        """local arrays of integers are used as bytes"""
        self.vc.alloca_bytes = True

    def ghost(self, key, v):
        self.st.ghost[key] = v

    def gget(self, S, key):
        return (S or self.st).ghost[key]

    def gset(self, S, key, v):
        S.ghost[key] = v

    def get(self, S, p, typ, f, idx=0, elem=0):
        return self.field(p, typ, f, idx, elem, S)

    def put(self, S, p, typ, f, v, idx=0, elem=0):
        size, l = self.leaf_in(typ, f)
        off = add(bv(l.off if isinstance(l, Cell) else l.start + l.loff, 64), scale(bv(idx, 64) if isinstance(idx, int) else idx, size))
        if isinstance(l, Sec):
            off = add(off, scale(bv(elem, 64) if isinstance(elem, int) else elem, l.stride))
        sz = l.size if isinstance(l, Cell) else l.esize
        ty = llir.PTR if l.kind == 'ptr' else llir.INT(8 * sz)
        self._quiet(lambda: self.vc.store(S, pv_add(p, off), ty, v))

    def cands(self, fn):
        self.vc.loop_cands = fn

    def decide_selects(self):
        self.vc.decide = True

    def heap_types(self, *ts):
        self.vc.heap_types = list(ts)

    def heap_tail(self, typ, elem, count):
        """blocks of another size are a structure followed by `count` elements (a type or a size)"""
        self.vc.heap_tail = (typ, elem, count)

    def arrays(self, fn):
        self.vc.array_defs = fn

    def poke(self, S, p, v):
        """a plain store of a value (used in stubs)"""
        self._quiet(lambda: self.vc.store(S, p, llir.PTR if isinstance(v, PV) else llir.INT(v.w), v))

    def wr(self, st, r, f, v):
        self.vc.wr(st, r, f, v)

    def fresh(self, name, w):
        return fresh(name, w)


class NoReturn(Exception):
    pass
