"""Verification-condition generator: symbolic execution of LLVM IR with merging,
contract stubs at calls and inductive invariants at loops."""
import heapq
import re
import time
from .terms import *
from .mem import *
from . import llir, smt


class State(object):
    __slots__ = ('pc', 'mem', 'dead', 'env', 'iters', 'ghost')

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.dead = {}
        self.env = {}
        self.iters = {}
        self.ghost = {}

    def copy(self):
        s = State()
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.dead = dict(self.dead)
        s.env = dict(self.env)
        s.iters = dict(self.iters)
        s.ghost = dict(self.ghost)
        return s

    def cond(self):
        return AND(*self.pc)


class Obl(object):
    __slots__ = ('name', 'kind', 'pc', 'nf', 'goal', 'where', 'status', 'model', 'time', 'backend', 'facts', 'formula')

    def __init__(self, name, kind, pc, nf, goal, where):
        self.name, self.kind, self.pc, self.nf, self.goal, self.where = name, kind, pc, nf, goal, where
        self.status = None
        self.model = None
        self.time = 0
        self.backend = None


class FInfo(object):
    """CFG facts of one function"""

    def __init__(self, f):
        self.f = f
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                succ[b] = list(t.x)
            elif t.op == 'switch':
                succ[b] = [t.x[0]] + [c[1] for c in t.x[1]]
            else:
                succ[b] = []
        self.succ = succ
        entry = f.order[0]
        seen = set()
        post = []
        st = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = list(reversed(post))
        self.rpo = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in set(succ[b]):
                pred[s].append(b)
        self.pred = pred
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != n:
                        while self.rpo[a] > self.rpo[n]:
                            a = idom[a]
                        while self.rpo[n] > self.rpo[a]:
                            n = idom[n]
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if self.dom(s, b):
                    body = loops.setdefault(s, set([s]))
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body:
                            continue
                        body.add(x)
                        w.extend(pred[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise EngineError('irreducible loop in ' + f.name)
        self.loops = loops
        self.nest = {}
        for b in rpo:
            hs = [h for h in loops if b in loops[h]]
            hs.sort(key=lambda h: -len(loops[h]))
            self.nest[b] = hs
        # liveness (phi operands are evaluated on the edge)
        use = {}
        dfn = {}
        for b in rpo:
            u = set()
            d = set()
            for ins in f.blocks[b]:
                if ins.op == 'dbg':
                    continue
                if ins.op == 'phi':
                    d.add(ins.res)
                    continue
                for v in operands(ins):
                    if v not in d:
                        u.add(v)
                if ins.res:
                    d.add(ins.res)
            use[b] = u
            dfn[b] = d
        phiuse = {}
        phidef = {}
        for b in rpo:
            phidef[b] = set(i.res for i in f.blocks[b] if i.op == 'phi')
            for ins in f.blocks[b]:
                if ins.op == 'phi':
                    for v, p in ins.a:
                        if v[0] == 'l':
                            phiuse.setdefault((p, b), set()).add(v[1])
        live = {b: set() for b in rpo}   # live-in incl. phi results
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set()
                for s in succ[b]:
                    out |= (live[s] - phidef[s]) | phiuse.get((b, s), set())
                n = use[b] | (out - dfn[b]) | phidef[b]
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n


def locals_of(v, acc):
    if v is None:
        return
    k = v[0]
    if k == 'l':
        acc.append(v[1])
    elif k == 'gep':
        locals_of(v[2], acc)
        for _, x in v[3]:
            locals_of(x, acc)
    elif k == 'cast':
        locals_of(v[3], acc)
    elif k == 'agg':
        for _, x in v[1]:
            locals_of(x, acc)


def operands(ins):
    acc = []
    if ins.op == 'phi':
        return acc
    for a in ins.a:
        if a is not None:
            locals_of(a[1], acc)
    if ins.op == 'call':
        locals_of(ins.x, acc)
    return acc


NORM = re.compile(r'\.\d+$')


def norm(n):
    return NORM.sub('', n)


class Timeout(EngineError):
    pass


class VC(object):
    def __init__(self, mod, goal=None):
        self.mod = mod
        self.goal = goal
        self.obls = []
        self.facts = []
        self.stubs = {}
        self.info = {}
        self.globals = {}
        self.recording = True
        self.check_overflow = False
        self.merge = True
        self.prune = 'loop'
        self.inv = False            # may loops be summarised by invariants?
        self.loop_cands = None
        self.list_shapes = []
        self.heap_types = []
        self.heap_tail = None
        self.array_defs = None
        self.loop_hook = None
        self.unroll = 40
        self.alloc_hints = {}
        self.check_mem = True
        self.trusted = set()
        self.inlined = set()
        self.contracts_used = set()
        self.loops_proved = 0
        self.loops_unrolled = 0
        self.deadline = None
        self.callstack = []
        self.alloc_log = []
        self.live_log = []
        self.extern_log = []
        self.alloca_bytes = False
        self.alloca_log = []
        self.loop_report = []
        self.malloc_may_fail = True
        self.solver_ms = 0
        self.models = []
        self.lines = {}
        self.struct_cache = {}
        self.names = {}
        self.bounded_mode = False
        self.termination = True

    # ---------------------------------------------------------- objects
    def struct_layout(self, name):
        if name not in self.struct_cache:
            d = self.mod.find_struct_di(name)
            if d is None:
                raise EngineError('no struct ' + name)
            self.struct_cache[name] = (int(d['size']) // 8, d)
        return self.struct_cache[name]

    def new_object(self, name, typename):
        size, d = self.struct_layout(typename)
        r = Region(name, size, layout_from_di(self.mod, d), 'obj')
        r.typename = typename
        return self._reg(r)

    def new_array(self, name, esize, count, kind='int', signed=True):
        lay = Layout()
        lay.add_sec(Sec(0, esize, count, 0, esize, kind, 'data', signed))
        c = bv(count, 64) if isinstance(count, int) else count
        sz = count * esize if isinstance(count, int) else scale(c, esize)
        return self._reg(Region(name, sz, lay, 'obj'))

    def new_struct_array(self, name, typename, count):
        size, d = self.struct_layout(typename)
        el = layout_from_di(self.mod, d)
        c = bv(count, 64) if isinstance(count, int) else count
        r = Region(name, scale(c, size) if not isinstance(count, int) else count * size,
                   layout_array_of(self.mod, el, size, count), 'obj')
        return self._reg(r)

    def opaque(self, name):
        return self._reg(Region(name, 0, Layout(), 'opaque'))

    def _reg(self, r):
        r.init = {}
        n = self.names.get(r.name, 0)
        self.names[r.name] = n + 1
        r.uname = r.name if n == 0 else '%s~%d' % (r.name, n)
        return r

    # ---------------------------------------------------------- leaf access
    def leaf_init(self, r, key, leaf):
        v = r.init.get(key)
        if v is None:
            if key[0] == 'c':
                nm = '%s.%s' % (r.uname, leaf.name)
                if r.fill is not None:
                    v = NULLP if leaf.kind == 'ptr' else bv(int.from_bytes(bytes([r.fill]) * leaf.size, 'little'), 8 * leaf.size)
                elif leaf.kind == 'ptr':
                    v = self.unknown_ptr(nm)
                else:
                    v = var(nm, 8 * leaf.size)
            else:
                nm = '%s.%s' % (r.uname, leaf.name)
                if leaf.kind == 'ptr':
                    if r.fill == 0:
                        v = fill_arr(NULLP, 'p')
                    else:
                        n = leaf.count if isinstance(leaf.count, int) else 0
                        v = Arr('const', [self.unknown_ptr('%s[%d]' % (nm, i)) for i in range(n)], 'p')
                elif r.fill is not None:
                    v = fill_arr(bv(int.from_bytes(bytes([r.fill]) * leaf.esize, 'little'), 8 * leaf.esize), 8 * leaf.esize)
                else:
                    v = base_arr(nm, 8 * leaf.esize)
            r.init[key] = v
        return v

    def unknown_ptr(self, nm):
        o = self.opaque(nm)
        b = var('null?' + nm, 0)
        return PV([(b, INTB, Z64), (NOT(b), o, Z64)])

    def get_leaf(self, st, r, key, leaf):
        m = st.mem.get(r.id)
        if m is not None:
            v = m.get(key)
            if v is not None:
                return v
        return self.leaf_init(r, key, leaf)

    def set_leaf(self, st, r, key, v):
        m = st.mem.get(r.id)
        m = {} if m is None else dict(m)
        m[key] = v
        m['__r'] = r
        st.mem[r.id] = m

    def leaf_of(self, r, key):
        return r.lay.cells[key[1]] if key[0] == 'c' else r.lay.secs[key[1]]

    # named access for contracts
    def find_leaf(self, r, name):
        l = r.lay.names.get(name)
        if l is None:
            # unique suffix
            c = [n for n in r.lay.names if n.endswith('.' + name)]
            if len(c) == 1:
                l = r.lay.names[c[0]]
            else:
                raise EngineError('no field %s in %s' % (name, r.name))
        key = ('c', l.off) if isinstance(l, Cell) else l.key
        return key, l

    def rd(self, st, r, name):
        key, l = self.find_leaf(r, name)
        return self.get_leaf(st, r, key, l)

    def wr(self, st, r, name, v):
        key, l = self.find_leaf(r, name)
        if isinstance(v, int):
            v = bv(v, 8 * l.size)
        if isinstance(v, list):
            v = Arr('const', v, 'p' if l.kind == 'ptr' else 8 * l.esize)
        self.set_leaf(st, r, key, v)

    def set_init(self, r, name, v):
        key, l = self.find_leaf(r, name)
        if isinstance(v, int):
            v = bv(v, 8 * l.size)
        if isinstance(v, list):
            v = Arr('const', v, 'p' if l.kind == 'ptr' else 8 * l.esize)
        r.init[key] = v

    # ---------------------------------------------------------- obligations
    def oblige(self, st, goal, kind, where, name=None):
        if not self.recording:
            return
        if goal is True:
            goal = TRUE
        o = Obl(name or '%s@%s' % (kind, where), kind, st.pc, len(self.facts), goal, where)
        if goal is TRUE:
            o.status = 'proved'
            o.backend = 'simplifier'
        elif AND(*st.pc) is FALSE:
            o.status = 'proved'
            o.backend = 'simplifier'
        self.obls.append(o)

    def assume(self, st, f):
        if f is TRUE or f is True:
            return
        self.facts.append(IMP(st.cond(), f) if st is not None else f)

    decide = False      # let the solver decide conditions of selects

    def feasible(self, st, extra=TRUE):
        c = AND(st.cond(), extra)
        if c is FALSE:
            return False
        if c is TRUE:
            return True
        if self.known_sat(c):
            return True
        r = smt.check(self.facts + [c], 1000)
        self.keep(r)
        return r[0] != 'unsat'

    def keep(self, r):
        if r[0] == 'sat' and r[1] is not None:
            self.models.insert(0, (r[1], {}))
            del self.models[10:]

    def known_sat(self, c):
        """some earlier model satisfies the facts and c"""
        for i, (m, memo) in enumerate(self.models):
            try:
                if not evalt(c, m, memo):
                    continue
                if all(evalt(f, m, memo) for f in self.facts):
                    if i:
                        self.models.insert(0, self.models.pop(i))
                    return True
            except Exception:
                continue
        return False

    cand_ms = None

    def valid(self, st, goal, ms=20000):
        goal = B(goal) if isinstance(goal, bool) else goal
        if goal is TRUE:
            return True
        c = AND(st.cond(), NOT(goal))
        if c is FALSE:
            return True
        if self.known_sat(c):
            return False
        t = time.time()
        fs = self.facts + [c]
        nl = smt.has_nl(fs)
        r = ('unknown', None)
        if nl:
            r = smt.uf_solve(fs, min(ms, self.cand_ms or 2500))
        if r[0] == 'unknown':
            r = smt.check(fs, min(ms, 700 if nl else 2500))
        if r[0] == 'unknown' and ms > 700:
            r = smt.check(fs, min(ms, self.cand_ms or 2000) if nl and not self.recording else ms)
        self.keep(r)
        self.solver_ms += (time.time() - t) * 1000
        return r[0] == 'unsat'

    def concretize(self, st, t):
        """the constant t is known to be on this path, or t"""
        if t.op == 'c':
            return t
        fs = self.facts + [st.cond()]
        r, m = smt.check(fs, 2000)
        if r == 'unsat':
            return bv(0, t.w)       # dead path
        if r != 'sat':
            return t
        try:
            c = evalt(t, m)
        except Exception:
            return t
        if isinstance(c, bool):
            return t
        c = bv(c, t.w)
        r, m = smt.check(fs + [ne(t, c)], 2000)
        return c if r == 'unsat' else t

    def where(self, ins=None):
        f = self.callstack[-1] if self.callstack else '?'
        ln = ''
        if ins is not None and ins.line:
            d = self.mod.mdparse(ins.line)
            ln = ':' + d.get('line', '')
        return norm(f) + ln

    # ---------------------------------------------------------- globals
    def global_region(self, name):
        if name in self.globals:
            return self.globals[name]
        ty, init, const = self.mod.globals[name]
        r = self._reg(Region(name, self.mod.sizeof(ty), layout_from_ll(self.mod, ty), 'global', const))
        self.globals[name] = r
        vals = {}
        if init is not None:
            self.flatten_const(ty, init, 0, vals)
            # a constant table of rows which the compiler gave different types
            ws = set(v.w if not isinstance(v, (PV, bool)) and hasattr(v, 'w') else None for v in vals.values())
            if const and ty.k == 'struct' and len(vals) > 16 and len(ws) == 1 and None not in ws:
                s = list(ws)[0] // 8
                if s and sorted(vals) == list(range(0, self.mod.sizeof(ty), s)):
                    r.lay = Layout()
                    r.lay.add_sec(Sec(0, s, len(vals), 0, s, 'int', 'data'))
        if init is not None:
            for c in r.lay.cells.values():
                r.init[('c', c.off)] = vals.get(c.off, NULLP if c.kind == 'ptr' else bv(0, 8 * c.size))
            for s in r.lay.secs:
                if s.stride == s.esize:
                    l = [vals.get(s.start + i * s.stride, NULLP if s.kind == 'ptr' else bv(0, 8 * s.esize)) for i in range(s.count)]
                    r.init[s.key] = Arr('const', l, 'p' if s.kind == 'ptr' else 8 * s.esize)
        # big nested constant tables of differing struct shape: re-layout as uniform when possible
        return r

    def flatten_const(self, ty, v, off, out):
        k = ty.k
        if v[0] == 'zero':
            if k == 'arr':
                for i in range(ty.n):
                    self.flatten_const(ty.el, v, off + i * self.mod.sizeof(ty.el), out)
            elif k == 'struct':
                for f, o in zip(self.mod.fields(ty), self.mod.offs(ty)):
                    self.flatten_const(f, v, off + o, out)
            elif k == 'ptr':
                out[off] = NULLP
            else:
                out[off] = bv(0, 8 * self.mod.sizeof(ty))
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]):
                out[off + i] = bv(b, 8)
            return
        if v[0] == 'agg':
            if k == 'arr':
                s = self.mod.sizeof(ty.el)
                for i, (t, x) in enumerate(v[1]):
                    self.flatten_const(t, x, off + i * s, out)
            else:
                for (t, x), o in zip(v[1], self.mod.offs(ty)):
                    self.flatten_const(t, x, off + o, out)
            return
        if v[0] == 'undef':
            return
        out[off] = self.const(ty, v)

    def const(self, ty, v):
        k = v[0]
        if k == 'i':
            if ty.k == 'ptr':
                return pv_int(bv(v[1], 64))
            if ty.n == 1:
                return B(v[1] & 1)
            return bv(v[1], ty.n)
        if k == 'null':
            return NULLP
        if k == 'g':
            nm = v[1][1:]
            if nm in self.mod.fns or v[1] in self.mod.decls:
                return pv_func(nm)
            return pv(self.global_region(v[1]))
        if k == 'gep':
            base = self.const(llir.PTR, v[2])
            return self.gep(base, v[1], [(t, self.const(t, x)) for t, x in v[3]])
        if k == 'cast':
            x = self.const(v[2], v[3])
            return self.cast(v[1], x, v[2], v[4])
        if k == 'zero':
            if ty.k == 'ptr':
                return NULLP
            if ty.k == 'int':
                return bv(0, ty.n) if ty.n > 1 else FALSE
        if k == 'undef':
            if ty.k == 'ptr':
                return self.unknown_ptr('undef%d' % len(self.globals))
            if ty.k == 'int' and ty.n == 1:
                return fresh('undef', 0)
            return fresh('undef', 8 * self.mod.sizeof(ty))
        if k == 'f':
            return fconst(v[1], 8 * self.mod.sizeof(ty))
        raise EngineError('const %r' % (v,))

    def value(self, st, ty, v):
        if v[0] == 'l':
            try:
                return st.env[v[1]]
            except KeyError:
                raise EngineError('undefined local %s in %s' % (v[1], self.callstack[-1:]))
        return self.const(ty, v)

    # ---------------------------------------------------------- addressing
    def gep(self, base, sty, idx):
        t, i0 = idx[0]
        off = scale(sext(i0, 64), self.mod.sizeof(sty))
        cur = sty
        if len(idx) > 1 or True:
            for t, i in idx[1:]:
                if cur.k == 'struct':
                    n = i.data
                    off = add(off, bv(self.mod.offs(cur)[n], 64))
                    cur = self.mod.fields(cur)[n]
                elif cur.k == 'arr':
                    cur = cur.el
                    off = add(off, scale(sext(i, 64), self.mod.sizeof(cur)))
                else:
                    raise EngineError('gep')
        if sty.k == 'struct' and sty.name:
            for g, b, o in base.ts:
                if isinstance(b, Region) and b.lay is None:
                    self.type_region(b, sty.name)
        return pv_add(base, off)

    def type_region(self, r, llname):
        nm = llname.split('.', 1)[1]
        nm = re.sub(r'\.\d+$', '', nm)
        try:
            size, d = self.struct_layout(nm)
        except EngineError:
            return
        sz = r.size
        if isinstance(sz, T) and sz.op == 'c':
            sz = sz.data
        if isinstance(sz, int):
            if sz < size:
                return
            if sz == size:
                r.lay = layout_from_di(self.mod, d)
                r.typename = nm
                return
        el = layout_from_di(self.mod, d)
        n = exact_div(r.size_t(), size)
        if not el.secs or n.op == 'c':
            r.lay = layout_array_of(self.mod, el, size, n.data if n.op == 'c' else n)
            r.typename = nm + '[]'

    def type_scalar(self, r, size, kind):
        lay = Layout()
        sz = r.size
        cnt = sz // size if isinstance(sz, int) else exact_div(sz, size)
        lay.add_sec(Sec(0, size, cnt, 0, size, kind, 'data'))
        r.lay = lay

    def resolve(self, r, off, size, kind):
        """-> ('cell', Cell) | ('sec', Sec, idx) | ('bytes', ...) | None when out of every leaf"""
        if r.lay is None:
            self.type_scalar(r, size, kind)
        lay = r.lay
        if off.op == 'c':
            o = off.data
            c = lay.cells.get(o)
            if c is not None and c.size == size:
                return ('cell', c)
            for s in lay.secs:
                if s.esize != size:
                    continue
                d = tosigned(o, 64) - s.start - s.loff
                if d % s.stride:
                    continue
                i = d // s.stride
                if i < 0:
                    continue
                if isinstance(s.count, int) and i >= s.count:
                    continue
                return ('sec', s, bv(i, 64))
            if isinstance(r.size, int) and (tosigned(o, 64) < 0 or o + size > r.size):
                return None
            return ('bytes', o)
        cst, parts = lin_parts(off)
        cst = tosigned(cst, 64)
        best = None
        for s in lay.secs:
            d = cst - s.start - s.loff
            if s.esize != size or d % s.stride:
                continue
            if any(tosigned(k, 64) % s.stride for _, k in parts):
                continue
            inr = isinstance(s.count, int) and 0 <= d // s.stride < s.count or (not isinstance(s.count, int))
            if best is None or (inr and not best[2]):
                idx = mklin(d // s.stride, [(t, tosigned(k, 64) // s.stride) for t, k in parts], 64)
                best = (s, idx, inr)
        if best:
            return ('sec', best[0], best[1])
        for s in lay.secs:
            if s.esize == 1 and s.stride == 1:
                return ('secbytes', s, sub(off, bv(s.start + s.loff, 64)))
            if s.stride == s.esize and size > s.esize and size % s.esize == 0 and s.kind == 'int':
                d = cst - s.start
                if d % s.stride == 0 and not any(tosigned(k, 64) % s.stride for _, k in parts):
                    return ('secbytes', s, mklin(d // s.stride, [(t, tosigned(k, 64) // s.stride) for t, k in parts], 64))
            if s.stride == s.esize and size < s.esize and s.kind == 'int':
                return ('subsec', s, sub(off, bv(s.start, 64)))
        # array of struct read with symbolic offset of irregular shape
        # every leaf (cell or fixed section element) reachable: enumerate when few
        cands = []
        for c in lay.cells.values():
            if c.size == size:
                cands.append((c.off, ('c', c.off), c, None))
        for s in lay.secs:
            if s.esize == size and isinstance(s.count, int) and s.count <= 64:
                for i in range(s.count):
                    cands.append((s.start + s.loff + i * s.stride, s.key, s, bv(i, 64)))
        if 0 < len(cands) <= 600:
            return ('enum', cands)
        raise EngineError('address %s+%s size %d' % (r.name, show(off), size))

    def byte_at(self, st, r, o):
        for c in r.lay.cells.values():
            if c.off <= o < c.off + c.size:
                v = self.get_leaf(st, r, ('c', c.off), c)
                if isinstance(v, PV):
                    v = pv_addr(v)
                b = 8 * (o - c.off)
                return extract(b + 7, b, v)
        for s in r.lay.secs:
            d = o - s.start - s.loff
            if d >= 0:
                i, rem = divmod(d, s.stride)
                if rem < s.esize and (not isinstance(s.count, int) or i < s.count):
                    v = self.get_leaf(st, r, s.key, s).select(bv(i, 64))
                    if isinstance(v, PV):
                        v = pv_addr(v)
                    return extract(8 * rem + 7, 8 * rem, v)
        return fresh('pad', 8)

    def set_byte(self, st, r, o, bval):
        for c in r.lay.cells.values():
            if c.off <= o < c.off + c.size:
                if c.kind == 'ptr':
                    raise EngineError('partial store to pointer cell')
                v = self.get_leaf(st, r, ('c', c.off), c)
                self.set_leaf(st, r, ('c', c.off), put_byte(v, o - c.off, bval))
                return
        for s in r.lay.secs:
            d = o - s.start - s.loff
            if d >= 0:
                i, rem = divmod(d, s.stride)
                if rem < s.esize and (not isinstance(s.count, int) or i < s.count):
                    a = self.get_leaf(st, r, s.key, s)
                    self.set_leaf(st, r, s.key, a.store(bv(i, 64), put_byte(a.select(bv(i, 64)), rem, bval)))
                    return

    def access_ok(self, st, g, r, res, size, ins, what):
        """obligation that an access is inside the object"""
        if not self.check_mem:
            return
        w = self.where(ins)
        if isinstance(r, IntBase) or isinstance(r, FuncBase):
            self.oblige(st, NOT(g), 'memory', w, 'memory.%s.valid-pointer@%s' % (what, w))
            return
        if r.kind == 'opaque':
            self.oblige(st, NOT(g), 'memory', w, 'memory.%s.unknown-object(%s)@%s' % (what, r.name, w))
            return
        d = st.dead.get(r.id)
        if d is not None:
            self.oblige(st, IMP(g, NOT(d)), 'memory', w, 'memory.%s.not-freed(%s)@%s' % (what, r.name, w))
        if res is None:
            self.oblige(st, NOT(g), 'memory', w, 'memory.%s.in-bounds(%s)@%s' % (what, r.name, w))
        elif res[0] == 'sec':
            c = ult(res[2], res[1].count_t())
            self.oblige(st, IMP(g, c), 'memory', w, 'memory.%s.in-bounds(%s.%s)@%s' % (what, r.name, res[1].name, w))
        elif res[0] == 'secbytes':
            s, i = res[1], res[2]
            n = size // s.esize
            c = AND(ult(i, s.count_t()), ule(add(i, bv(n, 64)), s.count_t()), ule(bv(n, 64), s.count_t()))
            self.oblige(st, IMP(g, c), 'memory', w, 'memory.%s.in-bounds(%s.%s)@%s' % (what, r.name, s.name, w))
        elif res[0] == 'subsec':
            s, o = res[1], res[2]
            tot = scale(s.count_t(), s.esize)
            self.oblige(st, IMP(g, ult(o, tot)), 'memory', w, 'memory.%s.in-bounds(%s.%s)@%s' % (what, r.name, s.name, w))

    def load(self, st, p, ty, ins=None):
        if ty.k == 'ptr':
            size, kind = 8, 'ptr'
        else:
            size, kind = self.mod.sizeof(ty), 'int'
        out = None
        for g, b, o in reversed(p.ts):
            if AND(st.cond(), g) is FALSE and out is not None:
                continue
            v = self.load1(st, g, b, o, size, kind, ins)
            out = v if out is None else vite(g, v, out)
        if ty.k == 'int' and ty.n == 1:
            out = trunc(out, 0)
        elif ty.k == 'int' and ty.n != 8 * size:
            out = trunc(out, ty.n)
        return out

    def dflt(self, size, kind):
        if kind == 'ptr':
            return self.unknown_ptr('bad%d' % (len(self.obls) + len(self.facts)))
        return fresh('bad', 8 * size)

    def load1(self, st, g, b, off, size, kind, ins):
        if isinstance(b, (IntBase, FuncBase)) or b.kind == 'opaque':
            self.access_ok(st, g, b, None, size, ins, 'load')
            return self.dflt(size, kind)
        res = self.resolve(b, off, size, kind)
        if res is not None and res[0] == 'enum':
            hit = FALSE
            out = None
            for o2, key, leaf, i in res[1]:
                e = eq(off, bv(o2, 64))
                hit = OR(hit, e)
                v = self.get_leaf(st, b, key, leaf)
                if i is not None:
                    v = v.select(i)
                if isinstance(v, PV) != (kind == 'ptr'):
                    v = pv_addr(v) if isinstance(v, PV) else pv_int(v)
                out = v if out is None else vite(e, v, out)
            w = self.where(ins)
            self.oblige(st, IMP(g, hit), 'memory', w, 'memory.load.in-bounds(%s)@%s' % (b.name, w))
            return out
        self.access_ok(st, g, b, res, size, ins, 'load')
        if res is None:
            return self.dflt(size, kind)
        if res[0] == 'cell':
            v = self.get_leaf(st, b, ('c', res[1].off), res[1])
        elif res[0] == 'sec':
            v = self.get_leaf(st, b, res[1].key, res[1]).select(res[2])
        elif res[0] == 'secbytes':
            a = self.get_leaf(st, b, res[1].key, res[1])
            v = None
            for j in range(size // res[1].esize):
                x = a.select(add(res[2], bv(j, 64)))
                v = x if v is None else concat(x, v)
        elif res[0] == 'subsec':
            s, o = res[1], res[2]
            sh = s.esize.bit_length() - 1
            a = self.get_leaf(st, b, s.key, s)
            x = a.select(lshr(o, bv(sh, 64)))
            amt = shl(band(o, bv(s.esize - 1, 64)), bv(3, 64))
            amt = extract(8 * s.esize - 1, 0, amt) if 8 * s.esize <= 64 else amt
            v = extract(8 * size - 1, 0, lshr(x, amt))
        else:
            v = None
            for i in range(size):
                x = self.byte_at(st, b, res[1] + i)
                v = x if v is None else concat(x, v)
        if kind == 'ptr' and not isinstance(v, PV):
            v = pv_int(v)
        if kind != 'ptr' and isinstance(v, PV):
            v = pv_addr(v)
        return v

    def store(self, st, p, ty, v, ins=None):
        if ty.k == 'ptr':
            size, kind = 8, 'ptr'
        else:
            size, kind = self.mod.sizeof(ty), 'int'
            if v.w == 0:
                v = zext(v, 8)
            if v.w < 8 * size:
                v = zext(v, 8 * size)
        for g, b, o in p.ts:
            self.store1(st, g, b, o, size, kind, v, ins)

    def store1(self, st, g, b, off, size, kind, v, ins):
        if isinstance(b, (IntBase, FuncBase)) or b.kind == 'opaque':
            self.access_ok(st, g, b, None, size, ins, 'store')
            return
        res = self.resolve(b, off, size, kind)
        if b.const:
            w = self.where(ins)
            self.oblige(st, NOT(g), 'memory', w, 'memory.store.read-only(%s)@%s' % (b.name, w))
            return
        if res is not None and res[0] == 'enum':
            hit = FALSE
            for o2, key, leaf, i in res[1]:
                e = AND(g, eq(off, bv(o2, 64)))
                hit = OR(hit, eq(off, bv(o2, 64)))
                old = self.get_leaf(st, b, key, leaf)
                if i is not None:
                    o1 = old.select(i)
                    self.set_leaf(st, b, key, old.store(i, vite(e, v, o1)))
                else:
                    self.set_leaf(st, b, key, vite(e, v, old))
            w = self.where(ins)
            self.oblige(st, IMP(g, hit), 'memory', w, 'memory.store.in-bounds(%s)@%s' % (b.name, w))
            return
        self.access_ok(st, g, b, res, size, ins, 'store')
        if res is None:
            return
        if res[0] == 'cell':
            key = ('c', res[1].off)
            vv = v
            if (res[1].kind == 'ptr') != (kind == 'ptr'):
                vv = pv_int(v) if kind != 'ptr' else pv_addr(v)
            old = vv if g is TRUE else self.get_leaf(st, b, key, res[1])
            self.set_leaf(st, b, key, vite(g, vv, old))
        elif res[0] == 'sec':
            a = self.get_leaf(st, b, res[1].key, res[1])
            if (res[1].kind == 'ptr') != (kind == 'ptr'):
                v = pv_int(v) if kind != 'ptr' else pv_addr(v)
            if g is not TRUE:
                v = vite(g, v, a.select(res[2]))
            self.set_leaf(st, b, res[1].key, a.store(res[2], v))
        elif res[0] == 'secbytes':
            es = res[1].esize
            if isinstance(v, PV):
                v = pv_addr(v)
            for j in range(size // es):
                a = self.get_leaf(st, b, res[1].key, res[1])
                i = add(res[2], bv(j, 64))
                x = extract(8 * es * (j + 1) - 1, 8 * es * j, v)
                if g is not TRUE:
                    x = vite(g, x, a.select(i))
                self.set_leaf(st, b, res[1].key, a.store(i, x))
        elif res[0] == 'subsec':
            raise EngineError('narrow store')
        else:
            if g is not TRUE:
                raise EngineError('guarded byte store')
            if isinstance(v, PV):
                v = pv_addr(v)
            for i in range(size):
                self.set_byte(st, b, res[1] + i, extract(8 * i + 7, 8 * i, v))

    # ---------------------------------------------------------- bulk memory
    def bulk_target(self, p, what):
        if len(p.ts) != 1:
            raise EngineError(what + ' through several objects')
        return p.ts[0][1], p.ts[0][2]

    def narrow(self, st, p):
        """drop targets of the pointer which are impossible on this path"""
        if len(p.ts) > 1:
            ts = [t for t in p.ts if self.feasible(st, t[0])]
            if len(ts) < len(p.ts) and ts:
                return PV([(TRUE if len(ts) == 1 else t[0], t[1], t[2]) for t in ts])
        return p

    def memset(self, st, p, byte, n, ins):
        if n.op == 'ite':
            n = self.concretize(st, n)
        elif n.op != 'c':
            q = p.ts[0][1] if len(p.ts) == 1 else None
            if q is None or not isinstance(q, Region) or q.lay is None or len(q.lay.names) > 1:
                n = self.concretize(st, n)
        p = self.narrow(st, p)
        if len(p.ts) > 1:
            # keep targets that are possible
            ts = [t for t in p.ts if isinstance(t[1], Region)]
            bad = OR(*[t[0] for t in p.ts if not isinstance(t[1], Region)])
            w = self.where(ins)
            self.oblige(st, NOT(bad), 'memory', w, 'memory.memset.valid-pointer@' + w)
            if len(ts) == 1:
                p = PV([(TRUE, ts[0][1], ts[0][2])])
            elif len(ts) > 1:
                base, alts = st.copy(), []
                for g, b, o in ts:
                    s2 = base.copy()
                    s2.pc = base.pc + (g,)
                    self.memset(s2, PV([(TRUE, b, o)]), byte, n, ins)
                    alts.append(s2)
                st.mem = self.merge_states(alts).mem
                return
        b, off = self.bulk_target(p, 'memset')
        w = self.where(ins)
        if not isinstance(b, Region) or b.kind == 'opaque':
            self.oblige(st, eq(n, Z64), 'memory', w, 'memory.memset.valid-pointer@' + w)
            return
        d = st.dead.get(b.id)
        if d is not None:
            self.oblige(st, NOT(d), 'memory', w, 'memory.memset.not-freed@' + w)
        self.range_ok(st, b, off, n, 'memset', w)
        bval = byte
        if b.lay is None:
            if off is Z64 and bval.op == 'c' and eq(n, b.size_t()) is TRUE:
                b.fill = bval.data
                return
            self.type_scalar(b, 1, 'int')

        def rep(size):
            v = None
            for i in range(size):
                v = bval if v is None else concat(bval, v)
            return v
        if off.op == 'c' and n.op == 'c':
            lo, hi = off.data, off.data + n.data
            for c in list(b.lay.cells.values()):
                if c.off + c.size <= lo or c.off >= hi:
                    continue
                if lo <= c.off and c.off + c.size <= hi:
                    self.set_leaf(st, b, ('c', c.off), (NULLP if bval.op == 'c' and bval.data == 0 else pv_int(rep(8))) if c.kind == 'ptr' else rep(c.size))
                else:
                    for o in range(max(lo, c.off), min(hi, c.off + c.size)):
                        self.set_byte(st, b, o, bval)
            for s in b.lay.secs:
                end = s.start + s.stride * s.count if isinstance(s.count, int) else None
                a = self.get_leaf(st, b, s.key, s)
                v = (NULLP if bval.op == 'c' and bval.data == 0 else None) if s.kind == 'ptr' else rep(s.esize)
                if v is None:
                    raise EngineError('memset pointers')
                if end is not None and (end <= lo or s.start >= hi):
                    continue
                if end is not None and lo <= s.start and end <= hi:
                    self.set_leaf(st, b, s.key, fill_arr(v, a.w))
                else:
                    if (lo - s.start) % s.stride or (hi - s.start) % s.stride:
                        if end is not None and s.stride == s.esize:
                            # partial elements
                            for o in range(max(lo, s.start), min(hi, end)):
                                self.set_byte(st, b, o, bval)
                            continue
                        raise EngineError('memset partial')
                    i0 = max(0, (lo - s.start) // s.stride)
                    i1 = (hi - s.start) // s.stride
                    self.set_leaf(st, b, s.key, a.range_set(bv(i0, 64), bv(i1, 64), lambda i, v=v: v))
            return
        s, i0, cnt = self.bulk_sec(b, off, n)
        if b.const:
            raise EngineError('memset const')
        a = self.get_leaf(st, b, s.key, s)
        v = NULLP if s.kind == 'ptr' else rep(s.esize)
        self.set_leaf(st, b, s.key, a.range_set(i0, add(i0, cnt), lambda i, v=v: v))

    def bulk_sec(self, b, off, n):
        cst, parts = lin_parts(off)
        cst = tosigned(cst, 64)
        for s in b.lay.secs:
            if s.stride != s.esize:
                continue
            end = s.start + s.stride * s.count if isinstance(s.count, int) else None
            d = cst - s.start
            if d % s.stride or any(tosigned(k, 64) % s.stride for _, k in parts):
                continue
            if not parts and (d < 0 or (end is not None and cst > end)):
                continue
            if parts and len(b.lay.secs) > 1 and (d < 0 or (end is not None and cst >= end)):
                continue
            cnt = exact_div(n, s.stride)
            if cnt is None:
                continue
            idx = mklin(d // s.stride, [(t, tosigned(k, 64) // s.stride) for t, k in parts], 64)
            return s, idx, cnt
        raise EngineError('bulk access %s+%s len %s' % (b.name, show(off), show(n)))

    def range_ok(self, st, b, off, n, what, w):
        if not self.check_mem:
            return
        sz = b.size_t()
        z = AND(ule(n, sz), ule(off, sub(sz, n)))
        self.oblige(st, OR(eq(n, Z64), z), 'memory', w, 'memory.%s.in-bounds(%s)@%s' % (what, b.name, w))

    def memcpy(self, st, dp, sp, n, ins, what='memcpy'):
        w = self.where(ins)
        if n.op == 'ite':
            n = self.concretize(st, n)
        if n.op == 'c' and n.data == 0:
            return

        def only(p):
            if len(p.ts) > 1:
                ts = [t for t in p.ts if isinstance(t[1], Region) and t[1].kind != 'opaque']
                bad = OR(*[t[0] for t in p.ts if t not in ts])
                self.oblige(st, IMP(ne(n, Z64), NOT(bad)), 'memory', w, 'memory.%s.valid-pointer@%s' % (what, w))
                if len(ts) >= 1:
                    return ts
            b, o = p.ts[0][1], p.ts[0][2]
            if not isinstance(b, Region) or b.kind == 'opaque':
                self.oblige(st, eq(n, Z64), 'memory', w, 'memory.%s.valid-pointer@%s' % (what, w))
                return None
            return [(TRUE, b, o)]
        dts = only(dp)
        sts = only(sp)
        if not dts or not sts:
            return
        if len(dts) == 1 and len(sts) == 1:
            self.copy1(st, dts[0][1], dts[0][2], sts[0][1], sts[0][2], n, what, w)
            return
        # several candidate objects: copy conditionally
        base = st.copy()
        alts = []
        for g1, db, do in dts:
            for g2, sb, so in sts:
                g = AND(g1, g2)
                if g is FALSE:
                    continue
                s2 = base.copy()
                s2.pc = base.pc + (g,)
                self.copy1(s2, db, do, sb, so, n, what, w)
                alts.append(s2)
        m = self.merge_states(alts)
        st.mem = m.mem

    def copy1(self, st, db, do, sb, so, n, what, w):
        for b in (db, sb):
            d = st.dead.get(b.id)
            if d is not None:
                self.oblige(st, IMP(ne(n, Z64), NOT(d)), 'memory', w, 'memory.%s.not-freed(%s)@%s' % (what, b.name, w))
        self.range_ok(st, db, do, n, what + '.dst', w)
        self.range_ok(st, sb, so, n, what + '.src', w)
        if sb.lay is None and db.lay is None:
            self.type_scalar(sb, 1, 'int')
        if db.lay is None:
            if do is Z64 and so is Z64 and n.op == 'c' and isinstance(db.size, int) and n.data == db.size and sb.size == db.size:
                db.lay = sb.lay
                db.typename = sb.typename
            elif n.op == 'c' and sb.lay.cells and db.size_t().op == 'c' and so.op == 'c' and so.data == 0 and isinstance(sb.size, int) and sb.size == n.data == db.size_t().data:
                db.lay = sb.lay
            else:
                s = None
                for x in sb.lay.secs:
                    s = x if s is None or x.esize < s.esize else s
                if s is not None and len(sb.lay.secs) > 1 and all(x.stride == s.stride for x in sb.lay.secs) and not sb.lay.cells:
                    # array of structs
                    lay = Layout()
                    cnt = exact_div(db.size_t(), s.stride)
                    for x in sb.lay.secs:
                        lay.add_sec(Sec(0, x.stride, cnt, x.loff, x.esize, x.kind, x.name, x.signed))
                    db.lay = lay
                else:
                    self.type_scalar(db, s.esize if s is not None else 1, s.kind if s is not None else 'int')
        if sb.lay is None:
            s = db.lay.secs[0] if db.lay.secs else None
            self.type_scalar(sb, s.esize if s else 1, 'int')
        if db.const:
            self.oblige(st, FALSE, 'memory', w, 'memory.%s.read-only(%s)@%s' % (what, db.name, w))
            return
        if n.op == 'c' and do.op == 'c' and so.op == 'c':
            self.copy_const(st, db, do.data, sb, so.data, n.data)
            return
        # arrays of structs: all sections share the stride
        def group(b, off):
            """the sections of the array of structures at an offset, and the index there"""
            for s in b.lay.secs:
                if s.stride == s.esize:
                    continue
                i = exact_div(sub(off, bv(s.start, 64)), s.stride)
                if i is not None and not (off.op == 'c' and off.data < s.start):
                    return [x for x in b.lay.secs if x.start == s.start and x.stride == s.stride], i
            return None, None
        dg, di = group(db, do)
        sg, si = group(sb, so)
        if dg and sg and dg[0].stride == sg[0].stride:
            cnt = exact_div(n, dg[0].stride)
            if cnt is not None:
                for x in dg:
                    y = [z for z in sg if z.loff == x.loff and z.esize == x.esize]
                    if not y:
                        raise EngineError('struct array copy')
                    src = self.get_leaf(st, sb, y[0].key, y[0])
                    dst = self.get_leaf(st, db, x.key, x)
                    delta = sub(si, di)
                    self.set_leaf(st, db, x.key, dst.range_set(di, add(di, cnt), lambda i, src=src, delta=delta: src.select(add(i, delta))))
                return
        ds, di, dc = self.bulk_sec(db, do, n)
        ss, si, sc = self.bulk_sec(sb, so, n)
        if ds.esize != ss.esize:
            if ss.esize == 1:
                k = ds.esize
                src = self.get_leaf(st, sb, ss.key, ss)

                def fn(i, src=src, si=si, di=di, k=k):
                    base = add(scale(sub(i, di), k), si)
                    v = None
                    for j in range(k):
                        x = src.select(add(base, bv(j, 64)))
                        v = x if v is None else concat(x, v)
                    return v
                dst = self.get_leaf(st, db, ds.key, ds)
                self.set_leaf(st, db, ds.key, dst.range_set(di, add(di, dc), fn))
                return
            raise EngineError('copy between element sizes')
        src = self.get_leaf(st, sb, ss.key, ss)
        dst = self.get_leaf(st, db, ds.key, ds)
        delta = sub(si, di)
        self.set_leaf(st, db, ds.key, dst.range_set(di, add(di, dc), lambda i, src=src, delta=delta: src.select(add(i, delta))))

    def copy_const(self, st, db, do, sb, so, n):
        # leaf-wise copy, source values first
        todo = []
        done = set()
        for c in db.lay.cells.values():
            if do <= c.off and c.off + c.size <= do + n:
                r = self.resolve(sb, bv(c.off - do + so, 64), c.size, c.kind)
                v = self.load_res(st, sb, r, c.size, c.kind)
                todo.append((('c', c.off), v))
            elif c.off < do + n and c.off + c.size > do:
                raise EngineError('partial copy')
        for s in db.lay.secs:
            if not isinstance(s.count, int) or s.stride != s.esize:
                lo = do
                i0, rem = divmod(do - s.start, s.stride)
                cnt, rem2 = divmod(n, s.stride)
                if rem or rem2:
                    raise EngineError('partial copy')
                a = self.get_leaf(st, db, s.key, s)
                for i in range(cnt):
                    r = self.resolve(sb, bv(so + i * s.stride + s.loff, 64), s.esize, s.kind)
                    a = a.store(bv(i0 + i, 64), self.load_res(st, sb, r, s.esize, s.kind))
                todo.append((s.key, a))
                continue
            end = s.start + s.stride * s.count
            if end <= do or s.start >= do + n:
                continue
            a = self.get_leaf(st, db, s.key, s)
            full = do <= s.start and end <= do + n
            if full:
                o = s.start - do + so
                m = [x for x in sb.lay.secs if x.stride == s.stride and x.esize == s.esize and
                     isinstance(x.count, int) and x.start <= o and o + s.count * s.stride <= x.start + x.count * x.stride and (o - x.start) % x.stride == 0]
                if m:
                    src = self.get_leaf(st, sb, m[0].key, m[0])
                    sh = (o - m[0].start) // m[0].stride
                    if sh == 0 and m[0].count == s.count:
                        todo.append((s.key, src))
                    else:
                        todo.append((s.key, a.range_set(Z64, bv(s.count, 64), lambda i, src=src, sh=sh: src.select(add(i, bv(sh, 64))))))
                    continue
            lo = max(do, s.start)
            hi = min(do + n, end)
            for o in range(lo, hi):
                if (o - s.start) % s.stride == 0 and o + s.esize <= hi:
                    r = self.resolve(sb, bv(o - do + so, 64), s.esize, s.kind)
                    v = self.load_res(st, sb, r, s.esize, s.kind)
                    a = a.store(bv((o - s.start) // s.stride, 64), v)
            todo.append((s.key, a))
        for k, v in todo:
            self.set_leaf(st, db, k, v)

    def load_res(self, st, b, res, size, kind):
        if res is None:
            return self.dflt(size, kind)
        if res[0] == 'cell':
            v = self.get_leaf(st, b, ('c', res[1].off), res[1])
        elif res[0] == 'sec':
            v = self.get_leaf(st, b, res[1].key, res[1]).select(res[2])
        else:
            v = None
            for i in range(size):
                x = self.byte_at(st, b, res[1] + i)
                v = x if v is None else concat(x, v)
        if kind == 'ptr' and not isinstance(v, PV):
            v = pv_int(v)
        if kind != 'ptr' and isinstance(v, PV):
            v = pv_addr(v)
        return v

    # ---------------------------------------------------------- merging
    def merge_states(self, sts):
        sts = [s for s in sts]
        while len(sts) > 1:
            best = None
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    n = cpl(sts[i].pc, sts[j].pc)
                    if best is None or n > best[0]:
                        best = (n, i, j)
            n, i, j = best
            m = self.merge2(sts[i], sts[j], n)
            sts = [s for x, s in enumerate(sts) if x not in (i, j)] + [m]
        return sts[0]

    def merge2(self, a, b, n):
        ca = AND(*a.pc[n:])
        cb = AND(*b.pc[n:])
        r = State()
        o = OR(ca, cb)
        r.pc = a.pc[:n] + (() if o is TRUE else (o,))
        c = ca
        if cb.op in ('v', 'eq', 'ult', 'ule', 'slt', 'sle') and ca.op == 'and':
            pass
        r.iters = a.iters
        r.mem = {}
        for rid in set(a.mem) | set(b.mem):
            ma = a.mem.get(rid)
            mb = b.mem.get(rid)
            if ma is mb:
                r.mem[rid] = ma
                continue
            reg = (ma or mb)['__r']
            out = {'__r': reg}
            for k in set(ma or ()) | set(mb or ()):
                if k == '__r':
                    continue
                va = ma.get(k) if ma else None
                vb = mb.get(k) if mb else None
                if va is None:
                    va = self.leaf_init(reg, k, self.leaf_of(reg, k))
                if vb is None:
                    vb = self.leaf_init(reg, k, self.leaf_of(reg, k))
                out[k] = vite(c, va, vb)
            r.mem[rid] = out
        for rid in set(a.dead) | set(b.dead):
            x = a.dead.get(rid, FALSE)
            y = b.dead.get(rid, FALSE)
            r.dead[rid] = ite(c, x, y)
        for k in a.env:
            if k in b.env:
                va, vb = a.env[k], b.env[k]
                r.env[k] = va if va is vb else vite(c, va, vb)
        for k in set(a.ghost) | set(b.ghost):
            va, vb = a.ghost.get(k), b.ghost.get(k)
            if va is vb:
                r.ghost[k] = va
            elif va is None or vb is None:
                r.ghost[k] = va if vb is None else vb
            elif isinstance(va, (T, PV, Arr)):
                r.ghost[k] = vite(c, va, vb)
            else:
                raise EngineError('ghost merge ' + str(k))
        return r

    # ---------------------------------------------------------- functions
    def finfo(self, f):
        if f.name not in self.info:
            self.info[f.name] = FInfo(f)
        return self.info[f.name]

    def call(self, name, args, st, ins=None):
        """-> list of (state, ret)"""
        n = norm(name)
        if n in self.stubs:
            r = self.stubs[n](self, st, args, ins)
            if isinstance(r, list):
                return r
            return [(st, r)]
        f = self.mod.fns.get(name)
        if f is None:
            b = builtin.get(n)
            if b:
                return [(st, b(self, st, args, ins))]
            raise EngineError('call to external function ' + name)
        if len(self.callstack) > 30:
            raise EngineError('call depth')
        self.inlined.add(n)
        return self.run_fn(f, args, st)

    def run_fn(self, f, args, st):
        info = self.finfo(f)
        saved = st.env, st.iters
        st = st.copy()
        st.env = {}
        st.iters = {}
        for (nm, ty), a in zip(f.params, args):
            st.env[nm] = a
        if len(args) < len(f.params):
            raise EngineError('arity of ' + f.name)
        self.callstack.append(f.name)
        try:
            exits, latches, rets = self.run_blocks(f, info, f.order[0], st, None)
        finally:
            self.callstack.pop()
        out = []
        if self.merge and len(rets) > 1:
            for s, v in rets:
                s.env = {} if v is None else {'%ret': v}
                s.iters = {}
            m = self.merge_states([s for s, v in rets])
            v = m.env.get('%ret')
            rets = [(m, v)]
        for s, v in rets:
            s.env = dict(saved[0])
            s.iters = dict(saved[1])
            out.append((s, v))
        return out

    def key(self, info, b, iters):
        k = []
        for h in info.nest[b]:
            k.append(info.rpo[h])
            k.append(iters.get(h, 0))
        k.append(info.rpo[b])
        return tuple(k)

    def edge(self, f, info, u, v, st):
        """evaluate phis of v for the edge u->v and return the new state"""
        s = st.copy()
        phis = []
        for ins in f.blocks[v]:
            if ins.op == 'dbg':
                continue
            if ins.op != 'phi':
                break
            for val, p in ins.a:
                if p == u:
                    phis.append((ins.res, self.value(st, ins.ty, val)))
                    break
        live = info.live[v]
        s.env = {k: x for k, x in s.env.items() if k in live}
        for r, x in phis:
            s.env[r] = x
        back = v in info.loops and u in info.loops[v]
        it = {h: n for h, n in s.iters.items() if h in info.nest[v]}
        if back:
            it[v] = it.get(v, 0) + 1
            for h in list(it):
                if h != v and info.nest[v].index(h) > info.nest[v].index(v):
                    del it[h]
        else:
            for h in info.nest[v]:
                it.setdefault(h, 0)
            if v in info.loops:
                it[v] = 0
        s.iters = it
        return s, back

    def run_blocks(self, f, info, start, st, within):
        heap = []
        pend = {}
        seq = [0]
        exits, latches, rets = [], [], []

        def push(b, s):
            k = self.key(info, b, s.iters)
            if k not in pend:
                pend[k] = (b, [])
                heapq.heappush(heap, k)
            pend[k][1].append(s)

        def goto(u, v, s):
            s2, back = self.edge(f, info, u, v, s)
            if within is not None:
                if v == within and back:
                    latches.append(s2)
                    return
                if v not in info.loops[within]:
                    exits.append((v, s2))
                    return
            push(v, s2)

        first = True
        push(start, st)
        while heap:
            if self.deadline and time.time() > self.deadline:
                raise Timeout('time limit of the goal')
            k = heapq.heappop(heap)
            b, ss = pend.pop(k)
            if self.merge and len(ss) > 1:
                ss = [self.merge_states(ss)]
            for s in ss:
                if b in info.loops and not (first and within == b):
                    it = s.iters.get(b, 0)
                    if it == 0 and self.loop_mode(f, info, b, s) == 'inv':
                        r = self.inv_loop(f, info, b, s)
                        for v, s2 in r[0]:
                            # leaving b's loop; may also leave outer loops
                            if within is not None and v not in info.loops[within]:
                                exits.append((v, s2))
                            elif within is not None and v == within:
                                latches.append(s2)
                            else:
                                push(v, s2)
                        rets.extend(r[1])
                        continue
                    if it >= self.unroll:
                        if self.feasible(s):
                            w = norm(f.name)
                            if self.bounded_mode:
                                # paths beyond the stated bound are not explored
                                self.loop_report.append('bound %d reached in %s' % (self.unroll, w))
                            else:
                                self.oblige(s, FALSE, 'unwind', w, 'loop.fully-unrolled@%s' % w)
                        continue
                first = False
                self.run_block(f, info, b, s, goto, rets)
        return exits, latches, rets

    def loop_mode(self, f, info, h, st):
        if not self.inv:
            return 'unroll'
        if callable(self.inv):
            r = self.inv(norm(f.name), h, st)
            if r is not None:
                return r
        # concrete exit decision on the first test -> unroll
        blk = h
        s = st.copy()
        rec, self.recording = self.recording, False
        nf = len(self.facts)
        try:
            for _ in range(6):
                t = f.blocks[blk][-1]
                s2 = self.exec_straight(f, blk, s)
                if s2 is None:
                    return 'inv'
                if t.op == 'br' and len(t.a) == 1:
                    c = self.value(s2, t.a[0][0], t.a[0][1])
                    stays = [x in info.loops[h] for x in t.x]
                    if not all(stays):
                        if c not in (TRUE, FALSE) and self.decide and all(isinstance(v, str) and v.startswith(('malloc_ok', 'heap')) for v in free_vars(c)):
                            # depends on the outcome of allocations only, which the path may know
                            c = TRUE if self.valid(s2, c) else FALSE if self.valid(s2, NOT(c)) else c
                        return 'unroll' if c in (TRUE, FALSE) else 'inv'
                    if c is TRUE:
                        nxt = t.x[0]
                    elif c is FALSE:
                        nxt = t.x[1]
                    else:
                        # data dependent body before the exit test: look at the exits' shape instead
                        return 'unroll' if self.const_trip(f, info, h, st) else 'inv'
                elif t.op == 'br':
                    nxt = t.x[0]
                else:
                    return 'inv'
                s, back = self.edge(f, info, blk, nxt, s2)
                if back:
                    return 'inv'
                blk = nxt
            return 'inv'
        except EngineError:
            return 'inv'
        finally:
            self.recording = rec
            del self.facts[nf:]

    def const_trip(self, f, info, h, st):
        """an exit test comparing a counter that starts and steps by constants with a constant"""
        for b in info.loops[h]:
            t = f.blocks[b][-1]
            if t.op == 'br' and len(t.a) == 1 and not all(x in info.loops[h] for x in t.x):
                for ins in f.blocks[b]:
                    if ins.op == 'icmp' and ('l', ins.res) == t.a[0][1]:
                        kinds = []
                        for _, v in ins.a:
                            kinds.append(v[0] == 'i')
                        if any(kinds):
                            o = [v for _, v in ins.a if v[0] != 'i']
                            for p in f.blocks[h]:
                                if p.op == 'phi' and o and o[0] == ('l', p.res):
                                    v0 = st.env.get(p.res)
                                    if isinstance(v0, T) and v0.op == 'c':
                                        return True
        return False

    def exec_straight(self, f, b, s):
        s = s.copy()
        for ins in f.blocks[b]:
            if ins.op in ('phi', 'dbg'):
                continue
            if ins.op in ('br', 'switch', 'ret', 'unreachable'):
                return s
            if ins.op == 'call' and not (ins.x[0] == 'g' and ins.x[1].startswith('@llvm.')):
                outs = self.do_call(s, ins)
                if len(outs) != 1:
                    return None
                s = outs[0]
                continue
            self.step(s, ins)
        return s

    def run_block(self, f, info, b, st, goto, rets):
        sts = [st]
        for ins in f.blocks[b]:
            op = ins.op
            if op in ('phi', 'dbg'):
                continue
            if op == 'call':
                out = []
                for s in sts:
                    out.extend(self.do_call(s, ins))
                sts = out
                continue
            if op == 'br':
                for s in sts:
                    if not ins.a:
                        goto(b, ins.x[0], s)
                        continue
                    c = self.value(s, ins.a[0][0], ins.a[0][1])
                    if ins.x[0] == ins.x[1]:
                        goto(b, ins.x[0], s)
                        continue
                    self.branch(f, info, b, s, [(c, ins.x[0]), (NOT(c), ins.x[1])], goto)
                return
            if op == 'switch':
                for s in sts:
                    ty = ins.a[0][0]
                    c = self.value(s, ty, ins.a[0][1])
                    alts = {}
                    order = []
                    none = []
                    for v, tgt in ins.x[1]:
                        e = eq(c, self.const(ty, v))
                        none.append(NOT(e))
                        if tgt not in alts:
                            alts[tgt] = []
                            order.append(tgt)
                        alts[tgt].append(e)
                    d = AND(*none)
                    if ins.x[0] in alts:
                        alts[ins.x[0]].append(d)
                    else:
                        alts[ins.x[0]] = [d]
                        order.append(ins.x[0])
                    self.branch(f, info, b, s, [(OR(*alts[t]), t) for t in order], goto)
                return
            if op == 'ret':
                for s in sts:
                    v = self.value(s, ins.a[0][0], ins.a[0][1]) if ins.a else None
                    rets.append((s, v))
                return
            if op == 'unreachable':
                return
            for s in sts:
                self.step(s, ins)

    def branch(self, f, info, b, s, alts, goto):
        live = [(c, t) for c, t in alts if c is not FALSE]
        pcs = set()
        for p in s.pc:
            pcs.add(p.id)
        l2 = []
        for c, t in live:
            if NOT(c).id in pcs:
                continue
            l2.append((c, t))
        live = l2
        for c, t in live:
            if c.id in pcs:
                live = [(c, t)]
                break
        if len(live) > 1 and (self.prune == 'all' or (self.prune == 'loop' and info.nest[b])):
            live = [(c, t) for c, t in live if self.feasible(s, c)]
        for c, t in live:
            s2 = s if len(live) == 1 else s.copy()
            if len(live) > 1 and c is not TRUE:
                s2.pc = s.pc + (c,)
            goto(b, t, s2)

    # ---------------------------------------------------------- instructions
    def do_call(self, st, ins):
        c = ins.x
        args = [self.value(st, t, v) if t is not llir.META else None for t, v in ins.a]
        if c[0] == 'g':
            nm = c[1][1:]
            if nm.startswith('llvm.'):
                v = self.intrinsic(st, nm, args, ins)
                if ins.res:
                    st.env[ins.res] = v
                return [st]
            out = []
            for s, v in self.call(nm, args, st, ins):
                if ins.res:
                    s.env[ins.res] = v
                out.append(s)
            return out
        p = self.value(st, llir.PTR, c)
        alts = []
        w = self.where(ins)
        for g, b, o in p.ts:
            if isinstance(b, FuncBase):
                alts.append((g, b.name))
            elif AND(st.cond(), g) is not FALSE:
                self.oblige(st, NOT(g), 'memory', w, 'memory.call.valid-function-pointer@' + w)
        out = []
        for g, nm in alts:
            s = st.copy()
            if g is not TRUE:
                s.pc = st.pc + (g,)
            for s2, v in self.call(nm, args, s, ins):
                if ins.res:
                    s2.env[ins.res] = v
                out.append(s2)
        if self.merge and len(out) > 1:
            out = [self.merge_states(out)]
        return out

    def intrinsic(self, st, nm, args, ins):
        if nm.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], zext(args[2], 64), ins)
            return None
        if nm.startswith('llvm.memcpy'):
            self.memcpy(st, args[0], args[1], zext(args[2], 64), ins)
            return None
        if nm.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], zext(args[2], 64), ins, 'memmove')
            return None
        if nm.startswith('llvm.stacksave'):
            return NULLP
        if nm.startswith('llvm.stackrestore') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume'):
            return None
        if nm.startswith('llvm.abs.'):
            x = args[0]
            return ite(slt(x, bv(0, x.w)), neg(x), x)
        if nm.startswith('llvm.fmuladd'):
            return uf('fmuladd%d' % args[0].w, args, args[0].w)
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.', nm)
        if m:
            a, b = args
            c = {'smax': slt(b, a), 'smin': slt(a, b), 'umax': ult(b, a), 'umin': ult(a, b)}[m.group(1)]
            return ite(c, a, b)
        raise EngineError('intrinsic ' + nm)

    def cast(self, op, x, t1, t2):
        if op == 'trunc':
            return trunc(x, 0 if t2.n == 1 else t2.n)
        if op == 'zext':
            return zext(x, t2.n)
        if op == 'sext':
            return sext(x, t2.n)
        if op == 'ptrtoint':
            v = pv_addr(x)
            return v if t2.n == 64 else trunc(v, t2.n)
        if op == 'inttoptr':
            return pv_int(zext(x, 64))
        if op == 'bitcast':
            return x
        w1 = x.w
        w2 = 8 * self.mod.sizeof(t2)
        if isc(x):
            r = ffold(op, x, t1, t2, w2)
            if r is not None:
                return r
        return uf('%s_%d_%d' % (op, w1, w2), [x], w2)

    def step(self, st, ins):
        op = ins.op
        env = st.env
        V = self.value
        if op == 'load':
            p = V(st, llir.PTR, ins.a[0][1])
            if self.decide:
                p = self.narrow(st, p)
            v = self.load(st, p, ins.ty, ins)
            env[ins.res] = self.narrow(st, v) if self.decide and isinstance(v, PV) else v
        elif op == 'store':
            v = V(st, ins.ty, ins.a[0][1])
            if self.decide and isinstance(v, PV):
                v = self.narrow(st, v)
            if self.decide and isinstance(v, T) and v.op == 'ite':
                v = self.concretize(st, v)
            p = V(st, llir.PTR, ins.a[1][1])
            self.store(st, self.narrow(st, p) if self.decide else p, ins.ty, v, ins)
        elif op == 'getelementptr':
            env[ins.res] = self.gep(V(st, llir.PTR, ins.a[0][1]), ins.x, [(t, V(st, t, v)) for t, v in ins.a[1:]])
        elif op in llir.BIN:
            ty = ins.ty
            a = V(st, ty, ins.a[0][1])
            b = V(st, ty, ins.a[1][1])
            env[ins.res] = self.binop(st, ins, op, a, b)
        elif op == 'icmp':
            ty = ins.a[0][0]
            a = V(st, ty, ins.a[0][1])
            b = V(st, ty, ins.a[1][1])
            env[ins.res] = self.icmp(st, ins, ins.x, a, b)
        elif op == 'fcmp':
            ty = ins.a[0][0]
            a = V(st, ty, ins.a[0][1])
            b = V(st, ty, ins.a[1][1])
            if isc(a) and isc(b):
                env[ins.res] = fcmp_fold(ins.x, a, b)
            else:
                env[ins.res] = uf('fcmp_%s_%d' % (ins.x, a.w), [a, b], 0)
        elif op in llir.CAST:
            ty = ins.a[0][0]
            env[ins.res] = self.cast(op, V(st, ty, ins.a[0][1]), ty, ins.ty)
        elif op == 'select':
            c = V(st, llir.INT(1), ins.a[0][1])
            if self.decide and c.op != 'c':
                c = TRUE if not self.feasible(st, NOT(c)) else FALSE if not self.feasible(st, c) else c
            env[ins.res] = vite(c, V(st, ins.ty, ins.a[1][1]), V(st, ins.ty, ins.a[2][1]))
        elif op == 'alloca':
            ty = ins.x
            nm = ins.res.strip('%') + '@' + norm(self.callstack[-1])
            if ins.a:
                cnt = zext(V(st, ins.a[0][0], ins.a[0][1]), 64)
                s = self.mod.sizeof(ty)
                lay = Layout()
                c = cnt.data if cnt.op == 'c' else cnt
                if self.alloca_bytes and ty.k == 'int' and s > 1:
                    c, s = (c * s if isinstance(c, int) else scale(cnt, s)), 1
                    cnt = c if isinstance(c, T) else bv(c, 64)
                lay.add_sec(Sec(0, s, c, 0, s, 'ptr' if ty.k == 'ptr' else 'int', 'data'))
                r = Region(nm, c * s if isinstance(c, int) else scale(cnt, s), lay, 'alloca')
            else:
                r = Region(nm, self.mod.sizeof(ty), layout_from_ll(self.mod, ty), 'alloca')
                if self.alloca_bytes and r.lay is not None and not r.lay.cells and len(r.lay.secs) == 1 and r.lay.secs[0].kind == 'int' and r.lay.secs[0].stride == r.lay.secs[0].esize > 1:
                    self.type_scalar(r, 1, 'int')
            self.alloca_log.append(r)
            env[ins.res] = pv(self._reg(r))
        elif op == 'freeze':
            env[ins.res] = V(st, ins.ty, ins.a[0][1])
        elif op == 'fneg':
            x = V(st, ins.ty, ins.a[0][1])
            env[ins.res] = bxor(x, bv(1 << (x.w - 1), x.w))
        else:
            raise EngineError('instruction ' + op)

    def feasible_guard(self, st, g):
        return not self.valid(st, NOT(g), 1000)

    def icmp(self, st, ins, pr, a, b):
        if isinstance(a, PV):
            if pr == 'eq':
                return pv_eq(a, b)
            if pr == 'ne':
                return NOT(pv_eq(a, b))
            if len(a.ts) == 1 and len(b.ts) == 1 and a.ts[0][1] is b.ts[0][1]:
                a, b = a.ts[0][2], b.ts[0][2]
            else:
                bs = set(id(x[1]) for x in a.ts) & set(id(x[1]) for x in b.ts if x[1] is not INTB)
                if not bs or len(a.ts) * len(b.ts) > 16:
                    a, b = pv_addr(a), pv_addr(b)
                else:         # offsets are compared where both point into the same object
                    acc = []
                    for g1, b1, o1 in a.ts:
                        for g2, b2, o2 in b.ts:
                            g = AND(g1, g2)
                            if g is FALSE or not self.feasible_guard(st, g):
                                continue
                            x, y = (o1, o2) if b1 is b2 else (pv_addr(PV([(TRUE, b1, o1)])), pv_addr(PV([(TRUE, b2, o2)])))
                            acc.append(AND(g, self.icmp(st, ins, pr, x, y)))
                    return OR(*acc)
        if a.w == 0:
            if pr == 'eq':
                return IFF(a, b)
            if pr == 'ne':
                return XORB(a, b)
            a = zext(a, 8)
            b = zext(b, 8)
        return {'eq': eq, 'ne': ne, 'ult': ult, 'ule': ule, 'ugt': ugt, 'uge': uge, 'slt': slt, 'sle': sle, 'sgt': sgt,
                'sge': sge}[pr](a, b)

    def binop(self, st, ins, op, a, b):
        if op[0] == 'f':
            if isc(a) and isc(b):
                r = fbin_fold(op, a, b)
                if r is not None:
                    return r
            return uf('%s_%d' % (op, a.w), [a, b], a.w)
        if a.w == 0:
            return {'and': AND, 'or': OR, 'xor': XORB}[op](a, b)
        w = a.w
        if op in ('shl', 'lshr', 'ashr'):
            if b.op != 'c' or b.data >= w:
                wh = self.where(ins)
                self.oblige(st, ult(b, bv(w, w)), 'arith', wh, 'arith.shift-amount@' + wh)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b.op != 'c' or b.data == 0:
                wh = self.where(ins)
                self.oblige(st, ne(b, bv(0, w)), 'arith', wh, 'arith.division-by-zero@' + wh)
                if op[0] == 's':
                    self.oblige(st, NOT(AND(eq(a, bv(1 << (w - 1), w)), eq(b, bv(-1, w)))), 'arith', wh, 'arith.division-overflow@' + wh)
        elif self.check_overflow and 'nsw' in ins.flags and op in ('add', 'sub', 'mul'):
            wh = self.where(ins)
            f = {'add': add, 'sub': sub, 'mul': mul}[op]
            ww = w + 1 if op != 'mul' else 2 * w
            x = f(sext(a, ww), sext(b, ww))
            l, h = srange(x)
            if not (l >= -(1 << (w - 1)) and h < (1 << (w - 1))):
                self.oblige(st, eq(x, sext(f(a, b), ww)), 'overflow', wh, 'arith.signed-overflow@' + wh)
        return {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem, 'and': band,
                'or': bor, 'xor': bxor, 'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b)

    # ---------------------------------------------------------- loops with invariants
    def inv_loop(self, f, info, h, st0):
        from .loops import inv_loop
        return inv_loop(self, f, info, h, st0)


def cpl(a, b):
    n = 0
    m = min(len(a), len(b))
    while n < m and a[n] is b[n]:
        n += 1
    return n


def put_byte(v, i, b):
    w = v.w
    parts = []
    if i > 0:
        parts.append(extract(8 * i - 1, 0, v))
    parts.append(b)
    if 8 * (i + 1) < w:
        parts.append(extract(w - 1, 8 * (i + 1), v))
    r = parts[0]
    for p in parts[1:]:
        r = concat(p, r)
    return r


def exact_div(t, k):
    if k == 1:
        return t
    c, parts = lin_parts(t)
    c = tosigned(c, 64)
    if c % k == 0 and all(tosigned(q, 64) % k == 0 for _, q in parts):
        return mklin(c // k, [(x, tosigned(q, 64) // k) for x, q in parts], 64)
    return udiv(t, bv(k, 64)) if not parts or k & (k - 1) or True else None


def exact_div_ok(t, k):
    c, parts = lin_parts(t)
    return tosigned(c, 64) % k == 0 and all(tosigned(q, 64) % k == 0 for _, q in parts)


import struct as _st


def fconst(txt, w):
    if txt.startswith('0x'):
        bits = int(txt[2:], 16)
        if w == 32:
            d = _st.unpack('<d', _st.pack('<Q', bits))[0]
            return bv(_st.unpack('<I', _st.pack('<f', d))[0], 32)
        return bv(bits, 64)
    d = float(txt)
    if w == 32:
        return bv(_st.unpack('<I', _st.pack('<f', d))[0], 32)
    return bv(_st.unpack('<Q', _st.pack('<d', d))[0], 64)


def f_of(t):
    if t.w == 32:
        return _st.unpack('<f', _st.pack('<I', t.data))[0]
    return _st.unpack('<d', _st.pack('<Q', t.data))[0]


def to_f(d, w):
    if w == 32:
        return bv(_st.unpack('<I', _st.pack('<f', d))[0], 32)
    return bv(_st.unpack('<Q', _st.pack('<d', d))[0], 64)


def fbin_fold(op, a, b):
    x, y = f_of(a), f_of(b)
    try:
        r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
        return to_f(r, a.w)
    except (KeyError, ZeroDivisionError, OverflowError):
        return None


def fcmp_fold(pr, a, b):
    x, y = f_of(a), f_of(b)
    return B({'oeq': x == y, 'une': x != y, 'olt': x < y, 'ole': x <= y, 'ogt': x > y, 'oge': x >= y}[pr])


def ffold(op, x, t1, t2, w2):
    try:
        if op == 'sitofp':
            return to_f(float(sval(x)), w2)
        if op == 'uitofp':
            return to_f(float(x.data), w2)
        if op in ('fptosi', 'fptoui'):
            return bv(int(f_of(x)), w2)
        if op in ('fpext', 'fptrunc'):
            return to_f(f_of(x), w2)
    except (OverflowError, ValueError):
        return None
    return None


# ------------------------------------------------------------------ library functions
builtin = {}


def bi(n):
    def d(f):
        builtin[n] = f
        return f
    return d


def alloc(vc, st, size, ins, zero=False, name=None):
    if size.op == 'ite':
        size = vc.concretize(st, size)
    n = len(vc.alloc_log)
    sz = size.data if size.op == 'c' else size
    r = Region(name or 'heap%d@%s' % (n, vc.where(ins)), sz, None, 'heap')
    vc._reg(r)
    if zero:
        r.fill = 0
    if isinstance(r.size, T) and r.size.op == 'c':
        r.size = r.size.data
    for t in vc.heap_types:
        tsz, td = vc.struct_layout(t)
        if r.size == tsz:
            r.lay = layout_from_di(vc.mod, td)
            r.typename = t
            break
    else:
        if vc.heap_tail:
            # a structure followed by `count` elements; the block has to have room for all of them
            t, el, count = vc.heap_tail
            tsz, td = vc.struct_layout(t)
            lay = layout_from_di(vc.mod, td)
            if isinstance(el, str):
                stride, ed_ = vc.struct_layout(el)
                for c in layout_from_di(vc.mod, ed_).cells.values():
                    lay.add_sec(Sec(tsz, stride, count, c.off, c.size, c.kind, 'tail.' + c.name, c.signed))
            else:
                stride = el
                lay.add_sec(Sec(tsz, el, count, 0, el, 'int', 'tail', True))
            w = vc.where(ins)
            vc.oblige(st, ule(add(bv(tsz, 64), scale(count, stride)), r.size_t()), 'memory', w, 'memory.alloc.room@' + w)
            r.size = add(bv(tsz, 64), scale(count, stride))
            r.lay, r.typename = lay, t
    vc.alloc_log.append(r)
    if vc.malloc_may_fail:
        ok = fresh('malloc_ok', 0)
        vc.extern_log.append(('malloc', ok, st.cond()))
        if vc.recording:
            vc.live_log.append((r, AND(ok, st.cond())))
        return PV([(ok, r, Z64), (NOT(ok), INTB, Z64)])
    if vc.recording:
        vc.live_log.append((r, st.cond()))
    return pv(r)


@bi('malloc')
def _malloc(vc, st, a, ins):
    return alloc(vc, st, zext(a[0], 64), ins)


@bi('calloc')
def _calloc(vc, st, a, ins):
    return alloc(vc, st, mul(a[0], a[1]), ins, True)


@bi('realloc')
def _realloc(vc, st, a, ins):
    """a new block with any contents; the old one is given back only if it succeeds"""
    n = alloc(vc, st, zext(a[1], 64), ins)
    ok = NOT(pv_eq(n, NULLP))
    _free(vc, st, [PV([(AND(g, ok), b, o) for g, b, o in a[0].ts])], ins)
    return n


@bi('free')
def _free(vc, st, a, ins):
    w = vc.where(ins)
    for g, b, o in a[0].ts:
        if AND(st.cond(), g) is FALSE:
            continue
        if b is INTB:
            vc.oblige(st, IMP(g, eq(o, Z64)), 'memory', w, 'memory.free.valid-pointer@' + w)
            continue
        if not isinstance(b, Region) or b.kind == 'opaque':
            # an object this function knows nothing about: only ownership says it may be freed
            if isinstance(b, Region) and getattr(b, 'freeable', False):
                pass
            else:
                vc.oblige(st, NOT(g), 'memory', w, 'memory.free.unknown-object@' + w)
                continue
        if b.kind in ('alloca', 'global') or getattr(b, 'nofree', False):
            vc.oblige(st, NOT(g), 'memory', w, 'memory.free.not-heap(%s)@%s' % (b.name, w))
            continue
        vc.oblige(st, IMP(g, eq(o, Z64)), 'memory', w, 'memory.free.start-of-block@' + w)
        d = st.dead.get(b.id, FALSE)
        vc.oblige(st, IMP(g, NOT(d)), 'memory', w, 'memory.free.not-twice(%s)@%s' % (b.name, w))
        st.dead[b.id] = OR(d, g)
    return None


@bi('memcmp')
def b_memcmp(vc, st, a, ins):
    if a[2].op != 'c' or a[2].data > 64:
        raise EngineError('memcmp of unknown length')
    n, w = a[2].data, vc.where(ins)

    def byte(p, i):
        out = None
        for g, b, o in reversed(p.ts):
            ok = FALSE if not isinstance(b, Region) or b.kind == 'opaque' else AND(ule(bv(n, 64), b.size_t()), ule(o, sub(b.size_t(), bv(n, 64))))
            if i == 0:
                vc.oblige(st, IMP(g, ok), 'memory', w, 'memory.memcmp.in-bounds@' + w)
            if ok is FALSE:
                continue
            if b.lay is None:
                vc.type_scalar(b, 1, 'int')
            x = add(o, bv(i, 64))
            if x.op != 'c':
                raise EngineError('memcmp at unknown position')
            v = vc.byte_at(st, b, x.data)
            out = v if out is None else ite(g, v, out)
        return bv(0, 8) if out is None else out
    r = bv(0, 32)
    for i in reversed(range(n)):
        x, y = byte(a[0], i), byte(a[1], i)
        r = ite(eq(x, y), r, sub(zext(x, 32), zext(y, 32)))
    return r
