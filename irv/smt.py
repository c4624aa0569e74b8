"""Back ends: z3 (library) and cvc5 (library) on terms."""
import time
import z3
from .terms import T

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)

_ufs = {}


def ufun(name, ws, w):
    k = (name, tuple(ws), w)
    if k not in _ufs:
        sorts = [z3.BoolSort() if x == 0 else z3.BitVecSort(x) for x in ws] + [z3.BoolSort() if w == 0 else z3.BitVecSort(w)]
        _ufs[k] = z3.Function(name + '@%d' % w, *sorts)
    return _ufs[k]


def to_z3(t):
    if t._z is not None:
        return t._z
    stack = [t]
    while stack:
        x = stack[-1]
        if x._z is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if a._z is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        x._z = conv(x, [a._z for a in x.args])
    return t._z


def conv(x, a):
    op = x.op
    w = x.w
    if op == 'c':
        return z3.BitVecVal(x.data, w)
    if op == 'v':
        return z3.Bool(x.data) if w == 0 else z3.BitVec(x.data, w)
    if op == 'true':
        return z3.BoolVal(True)
    if op == 'false':
        return z3.BoolVal(False)
    if op == 'lin':
        c, ks = x.data
        m = (1 << w) - 1
        r = None
        for k, v in zip(ks, a):
            if k == 1:
                y = v
            elif k == m:
                r = -v if r is None else r - v
                continue
            else:
                y = v * z3.BitVecVal(k, w)
                if k & (k - 1) == 0:
                    y = v << z3.BitVecVal(k.bit_length() - 1, w)
            r = y if r is None else r + y
        if c:
            r = r + z3.BitVecVal(c, w)
        return r
    if op == 'ite':
        return z3.If(a[0], a[1], a[2])
    if op == 'not':
        return z3.Not(a[0])
    if op == 'and':
        return z3.And(*a)
    if op == 'eq':
        return a[0] == a[1]
    if op == 'ult':
        return z3.ULT(a[0], a[1])
    if op == 'ule':
        return z3.ULE(a[0], a[1])
    if op == 'slt':
        return a[0] < a[1]
    if op == 'sle':
        return a[0] <= a[1]
    if op == 'mul':
        return a[0] * a[1]
    if op == 'zext':
        return z3.ZeroExt(w - x.args[0].w, a[0])
    if op == 'sext':
        return z3.SignExt(w - x.args[0].w, a[0])
    if op == 'extract':
        return z3.Extract(x.data[0], x.data[1], a[0])
    if op == 'concat':
        return z3.Concat(a[0], a[1])
    if op == 'and_':
        return a[0] & a[1]
    if op == 'or_':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'shl':
        return a[0] << a[1]
    if op == 'lshr':
        return z3.LShR(a[0], a[1])
    if op == 'ashr':
        return a[0] >> a[1]
    if op == 'udiv':
        return z3.UDiv(a[0], a[1])
    if op == 'urem':
        return z3.URem(a[0], a[1])
    if op == 'sdiv':
        return a[0] / a[1]
    if op == 'srem':
        return z3.SRem(a[0], a[1])
    if op == 'sel':
        return ufun('sel:' + x.data, [64], w)(a[0])
    if op == 'uf':
        return ufun('uf:' + x.data, [y.w for y in x.args], w)(*a)
    raise Exception('conv ' + op)


class Model(object):
    """assignment of the variables and array symbols (total, default 0)"""

    def __init__(self, vars, sels, ufs):
        self.vars = vars
        self.sels = sels
        self.ufs = ufs

    def var(self, name, w):
        return self.vars.get(name, 0)

    def sel(self, name, idx, w):
        d, default = self.sels.get(name, ({}, 0))
        return d.get(idx, default)

    def uf(self, name, args, w):
        d, default = self.ufs.get(name, ({}, 0))
        return d.get(args, default)


def _val(v):
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    if z3.is_bv_value(v):
        return v.as_long()
    return 0


def get_model(m):
    vs, sels, ufs = {}, {}, {}
    for d in m.decls():
        n = d.name()
        if d.arity() == 0:
            vs[n] = _val(m[d])
        else:
            fi = m[d]
            tab = {}
            default = 0
            try:
                for i in range(fi.num_entries()):
                    e = fi.entry(i)
                    args = tuple(_val(e.arg_value(j)) for j in range(e.num_args()))
                    tab[args] = _val(e.value())
                default = _val(fi.else_value())
            except Exception:
                pass
            n2 = n.rsplit('@', 1)[0]
            if n2.startswith('sel:'):
                sels[n2[4:]] = ({k[0]: v for k, v in tab.items()}, default)
            elif n2.startswith('uf:'):
                ufs[n2[3:]] = (tab, default)
    return Model(vs, sels, ufs)


def cone(fs):
    """facts connected to the last formula through shared variables"""
    from .terms import free_vars
    goal = fs[-1]
    return fs


def check(fs, ms=10000, seed=0):
    """satisfiability of the conjunction -> (result, model)"""
    s = z3.Solver()
    s.set('timeout', int(ms))
    for f in fs:
        s.add(to_z3(f))
    r = s.check()
    if r == z3.sat:
        return 'sat', get_model(s.model())
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


def check_tactic(fs, ms, tac):
    g = z3.Goal()
    t = z3.Then(*tac) if len(tac) > 1 else z3.Tactic(tac[0])
    s = t.solver()
    s.set('timeout', int(ms))
    for f in fs:
        s.add(to_z3(f))
    r = s.check()
    if r == z3.sat:
        return 'sat', get_model(s.model())
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


NL = ('mul', 'udiv', 'urem', 'sdiv', 'srem')


def check_uf(fs, ms):
    return uf_solve(fs, ms)[0]


def uf_solve(fs, ms, rounds=24):
    """products and quotients as uninterpreted functions, refined with their values at the points models come up with
    -> ('unsat', None), ('sat', model) or ('unknown', None)"""
    import time
    end = time.time() + ms / 1000.0
    memo = {}
    apps = []

    def go(t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            a = [memo[y.id] for y in x.args]
            if x.op in NL and (x.op == 'mul' or x.args[1].op != 'c'):
                memo[x.id] = r = ufun('abs:' + x.op, [x.w, x.w], x.w)(*a)
                apps.append((x.op, x.w, a, r))
            else:
                memo[x.id] = conv(x, a)
        return memo[t.id]
    s = z3.Solver()
    for f in fs:
        s.add(go(f))
    muls = [(w, a, r) for op, w, a, r in apps if op == 'mul']
    for i in range(min(len(muls), 24)):
        for j in range(i):
            if muls[i][0] == muls[j][0]:
                (_, (a, b), p), (_, (c, d), q) = muls[i], muls[j]
                s.add(z3.Implies(z3.And(a == d, b == c), p == q))
    for rnd in range(rounds):
        left = (end - time.time()) * 1000
        if left < 20:
            break
        s.set('timeout', int(left))
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r != z3.sat:
            break
        m = s.model()
        wrong = 0
        for op, w, a, r in apps:
            x, y = [_val(m.eval(q, model_completion=True)) for q in a]
            v = _val(m.eval(r, model_completion=True))
            t = concrete(op, x, y, w)
            if t != v:
                wrong += 1
                s.add(z3.Implies(z3.And(a[0] == x, a[1] == y), r == t))
        if not wrong:
            return 'sat', get_model(m)
    return 'unknown', None


def concrete(op, x, y, w):
    from . import terms as tm
    t = tm.evalt(tm.mk(op, (tm.var('x', w), tm.var('y', w)), w), Model({'x': x, 'y': y}, {}, {}))
    return t


def has_nl(fs):
    from . import nia
    return nia.has_nl(fs)


def smt2(fs):
    s = z3.Solver()
    for f in fs:
        s.add(to_z3(f))
    return s.to_smt2()


def check_cvc5(fs, ms):
    import subprocess
    txt = '(set-logic ALL)\n' + smt2(fs)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--lang=smt2', '-'], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           universal_newlines=True, timeout=ms / 1000.0 + 5)
        o = p.stdout.strip().split('\n')[0]
    except Exception:
        o = 'unknown'
    return o if o in ('sat', 'unsat') else 'unknown', None


def decide(fs, ms=30000):
    """portfolio -> (result, model, backend)"""
    from . import nia
    try:
        if nia.has_nl(fs):
            r, m = check(fs, min(ms, 2000))
            if r != 'unknown':
                return r, m, 'z3'
            if check_uf(fs, min(ms, 4000)) == 'unsat':
                return 'unsat', None, 'z3-uf'
            if nia.check(fs, ms) == 'unsat':
                return 'unsat', None, 'z3-nia'
            if check_uf(fs, min(ms, 15000)) == 'unsat':
                return 'unsat', None, 'z3-uf'
        else:
            r, m = check(fs, min(ms, 2000))
            if r != 'unknown':
                return r, m, 'z3'
            if nia.check(fs, min(ms, 3000)) == 'unsat':
                return 'unsat', None, 'z3-nia'
        r, m = check(fs, min(ms, 15000))
        if r != 'unknown':
            return r, m, 'z3'
        r, m = check_tactic(fs, ms, ['simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'solve-eqs', 'bit-blast', 'sat'])
        if r != 'unknown':
            return r, m, 'z3-bitblast'
    except z3.Z3Exception as e:
        pass
    r, m = check_cvc5(fs, ms)
    if r != 'unknown':
        return r, m, 'cvc5'
    return 'unknown', None, 'none'
