"""Reader for the textual LLVM IR that clang produces from /repo's sources."""
import re

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<id>[%@](?:"[^"]*"|[-A-Za-z0-9_.$]+))
|(?P<meta>![A-Za-z0-9_.]+)
|(?P<attr>\#[0-9]+)
|(?P<num>-?(?:0x[A-Za-z]?[0-9A-Fa-f]+|[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?))
|(?P<dots>\.\.\.)
|(?P<word>[A-Za-z_][A-Za-z0-9_.]*)
|(?P<p>[()\[\]{}<>,*=:|!])
)''', re.X)


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ParseError('token: ' + s[i:i + 60])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class ParseError(Exception):
    pass


class Ty(object):
    __slots__ = ('k', 'n', 'el', 'name', 'packed', '_lay')

    def __init__(self, k, n=None, el=None, name=None, packed=False):
        self.k = k
        self.n = n
        self.el = el
        self.name = name
        self.packed = packed
        self._lay = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return self.name or '{' + ','.join(map(repr, self.el)) + '}'
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')
FLOAT = Ty('float')
DOUBLE = Ty('double')
META = Ty('metadata')
LABEL = Ty('label')
INTS = {}


def INT(n):
    if n not in INTS:
        INTS[n] = Ty('int', n)
    return INTS[n]


class Ins(object):
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line', 'flags', 'txt')

    def __init__(self, op, res, ty, a, x=None, flags=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.x = x
        self.flags = flags
        self.line = None
        self.txt = None


class Fn(object):
    def __init__(self, name):
        self.name = name
        self.params = []   # (name, ty)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.vararg = False
        self.sub = None


PATTRS = set('''noundef signext zeroext nocapture readonly readnone writeonly noalias nonnull returned immarg
 inreg dereferenceable dso_local internal private unnamed_addr local_unnamed_addr hidden constant global external
 tail musttail notail fastcc ccc nounwind inbounds nsw nuw exact fast nnan ninf nsz arcp contract afn reassoc
 volatile available_externally linkonce_odr weak common allocptr nofree disjoint nneg noreturn'''.split())


class Module(object):
    def __init__(self):
        self.structs = {}
        self.globals = {}     # name -> (ty, init, const)
        self.fns = {}
        self.decls = {}
        self.md = {}
        self._di = {}

    # -------- layout (x86-64)
    def size_align(self, t):
        if t._lay is not None:
            return t._lay[0], t._lay[1]
        k = t.k
        if k == 'int':
            s = (t.n + 7) // 8
            p = 1
            while p < s:
                p *= 2
            r = (p, min(p, 16), None)
        elif k == 'ptr' or k == 'double':
            r = (8, 8, None)
        elif k == 'float':
            r = (4, 4, None)
        elif k == 'arr':
            s, a = self.size_align(t.el)
            r = (s * t.n, a, None)
        elif k == 'struct':
            off = 0
            al = 1
            offs = []
            for f in self.fields(t):
                s, a = self.size_align(f)
                if self.packed(t):
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        elif k == 'void':
            r = (1, 1, None)
        else:
            raise ParseError('sizeof %r' % t)
        t._lay = r
        return r[0], r[1]

    def fields(self, t):
        if t.name:
            return self.structs[t.name].el
        return t.el

    def packed(self, t):
        if t.name:
            return self.structs[t.name].packed
        return t.packed

    def sizeof(self, t):
        return self.size_align(t)[0]

    def offs(self, t):
        self.size_align(t)
        return t._lay[2]

    # -------- debug info
    def di(self, ref):
        if ref is None:
            return None
        ref = ref.strip()
        if not ref.startswith('!'):
            return None
        return self.mdparse(ref[1:])

    def mdparse(self, key):
        if key in self._di:
            return self._di[key]
        s = self.md.get(key)
        d = {}
        if s is not None:
            m = re.match(r'(?:distinct )?!(DI[A-Za-z]+)\((.*)\)\s*$', s)
            if m:
                d['kind'] = m.group(1)
                for part in splitc(m.group(2)):
                    if ':' in part:
                        a, b = part.split(':', 1)
                        d[a.strip()] = b.strip()
            else:
                m = re.match(r'(?:distinct )?!\{(.*)\}\s*$', s)
                if m:
                    d['kind'] = 'list'
                    d['items'] = [x.strip() for x in splitc(m.group(1)) if x.strip()]
        self._di[key] = d
        return d

    def find_struct_di(self, name):
        for k, s in self.md.items():
            if 'DW_TAG_structure_type' in s and ('name: "%s"' % name) in s and 'elements:' in s:
                return self.mdparse(k)
        # typedef of an anonymous struct
        for k, s in self.md.items():
            if 'DW_TAG_typedef' in s and ('name: "%s"' % name) in s:
                d = self.strip(self.mdparse(k))
                if d.get('tag') == 'DW_TAG_structure_type':
                    return d
        return None

    def strip(self, d):
        while d and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_member'):
            d = self.di(d.get('baseType'))
        return d

    def members(self, d):
        r = []
        el = self.di(d.get('elements'))
        for it in (el or {}).get('items', []):
            m = self.di(it)
            r.append((m.get('name', '').strip('"'), int(m.get('offset', '0')) // 8, m))
        return r


def splitc(s):
    out = []
    depth = 0
    q = False
    cur = ''
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '"':
                q = False
        elif c == '"':
            q = True
            cur += c
        elif c in '([{':
            depth += 1
            cur += c
        elif c in ')]}':
            depth -= 1
            cur += c
        elif c == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur)
    return out


class P(object):
    def __init__(self, mod, tk):
        self.m = mod
        self.t = tk
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in PATTRS:
                self.i += 1
                if p in ('dereferenceable',) and self.peek() == '(':
                    while self.next() != ')':
                        pass
            elif p in ('align',):
                self.i += 1
                if self.peek() == '(':
                    self.i += 3
                else:
                    self.i += 1
            elif p in ('memory', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'range', 'allocsize'):
                self.i += 1
                if self.acc('('):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == '(') - (y == ')')
            elif p is not None and p.startswith('#'):
                self.i += 1
            else:
                return

    def ty(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            return INT(int(x[1:]))
        if x == 'ptr':
            return PTR
        if x == 'void':
            return VOID
        if x == 'float':
            return FLOAT
        if x == 'double':
            return DOUBLE
        if x == 'metadata':
            return META
        if x == 'label':
            return LABEL
        if x == '[':
            n = int(self.next())
            self.exp('x')
            e = self.ty()
            self.exp(']')
            return Ty('arr', n, e)
        if x == '{':
            fs = []
            while not self.acc('}'):
                fs.append(self.ty())
                self.acc(',')
            return Ty('struct', None, fs)
        if x == '<':
            self.exp('{')
            fs = []
            while not self.acc('}'):
                fs.append(self.ty())
                self.acc(',')
            self.exp('>')
            return Ty('struct', None, fs, None, True)
        if x[0] == '%':
            return Ty('struct', None, None, x)
        raise ParseError('type ' + x + ' in ' + ' '.join(self.t)[:200])

    def val(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('l', x)
        if x[0] == '@':
            return ('g', x)
        if x == 'true':
            return ('i', 1)
        if x == 'false':
            return ('i', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x[0] == 'c' and x[1:2] == '"':
            return ('str', unesc(x[2:-1]))
        if x == '[' or x == '{':
            close = ']' if x == '[' else '}'
            fs = []
            while not self.acc(close):
                t = self.ty()
                fs.append((t, self.val(t)))
                self.acc(',')
            return ('agg', fs)
        if x == '<' and self.peek() == '{':
            self.next()
            fs = []
            while not self.acc('}'):
                t = self.ty()
                fs.append((t, self.val(t)))
                self.acc(',')
            self.exp('>')
            return ('agg', fs)
        if x == 'getelementptr':
            self.skip_attrs()
            self.exp('(')
            st = self.ty()
            self.exp(',')
            self.ty()
            base = self.val(PTR)
            idx = []
            while self.acc(','):
                t = self.ty()
                idx.append((t, self.val(t)))
            self.exp(')')
            return ('gep', st, base, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.exp('(')
            t = self.ty()
            v = self.val(t)
            self.exp('to')
            t2 = self.ty()
            self.exp(')')
            return ('cast', x, t, v, t2)
        if x in ('sub', 'add', 'mul'):
            self.skip_attrs()
            self.exp('(')
            t = self.ty()
            a = self.val(t)
            self.exp(',')
            t2 = self.ty()
            b = self.val(t2)
            self.exp(')')
            return ('cbin', x, t, a, b)
        if ty is not None and ty.k in ('float', 'double'):
            return ('f', x)
        try:
            return ('i', int(x))
        except ValueError:
            raise ParseError('value ' + x + ' in ' + ' '.join(self.t)[:200])


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext ptrtoint inttoptr bitcast sitofp uitofp fptosi fptoui fpext fptrunc addrspacecast'.split())


def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    fnlines = []
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            name, body = ln.split(' = type ', 1)
            if body.strip() == 'opaque':
                m.structs[name.strip()] = Ty('struct', None, [])
            else:
                m.structs[name.strip()] = P(m, toks(body)).ty()
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('define '):
            j = i
            while lines[j] != '}':
                j += 1
            fnlines.append((i, j))
            i = j
        elif ln.startswith('declare '):
            t = toks(ln)
            nm = [x for x in t if x[0] == '@'][0]
            m.decls[nm] = ln
        elif ln.startswith('!'):
            k = ln.find(' = ')
            if k > 0:
                m.md[ln[1:k]] = ln[k + 3:]
        i += 1
    for a, b in fnlines:
        parse_fn(m, lines[a:b])
    return m


def parse_global(m, ln):
    t = toks(ln)
    p = P(m, t)
    name = p.next()
    p.exp('=')
    const = False
    ext = False
    while p.peek() in PATTRS:
        x = p.next()
        if x == 'constant':
            const = True
        if x == 'external':
            ext = True
        if x in ('constant', 'global'):
            break
    ty = p.ty()
    init = None
    if not ext and p.peek() not in (None, ','):
        init = p.val(ty)
    m.globals[name] = (ty, init, const)


LBL = re.compile(r'^("[^"]*"|[-A-Za-z0-9_.$]+):')
DBG = re.compile(r', !dbg !(\d+)\s*$')


def parse_fn(m, ls):
    hdr = ls[0]
    dbg = re.search(r'!dbg !(\d+)', hdr)
    t = toks(hdr[:hdr.rfind('{')])
    p = P(m, t)
    p.exp('define')
    p.skip_attrs()
    ret = p.ty()
    p.skip_attrs()
    f = Fn(p.next()[1:])
    f.ret = ret
    f.sub = dbg.group(1) if dbg else None
    p.exp('(')
    while not p.acc(')'):
        if p.acc('...'):
            f.vararg = True
            continue
        ty = p.ty()
        p.skip_attrs()
        f.params.append((p.next(), ty))
        p.acc(',')
    cur = None
    i = 1
    while i < len(ls):
        ln = ls[i]
        i += 1
        if not ln.strip():
            continue
        mm = LBL.match(ln)
        if mm:
            nm = mm.group(1).strip('"')
            cur = []
            f.blocks[nm] = cur
            f.order.append(nm)
            continue
        if cur is None:
            cur = []
            f.blocks['entry'] = cur
            f.order.append('entry')
        if ' switch ' in ln or ln.lstrip().startswith('switch '):
            while ']' not in ln:
                ln += ' ' + ls[i]
                i += 1
        if 'llvm.dbg.' in ln or '#dbg_' in ln:
            ins = parse_dbg(m, ln)
            if ins:
                cur.append(ins)
            continue
        d = DBG.search(ln)
        line = None
        if d:
            ln = ln[:d.start()]
            line = d.group(1)
        ln = re.sub(r', !(?!dbg)[a-z.]+ ![0-9]+', '', ln)
        ins = parse_ins(m, ln.strip())
        ins.line = line
        ins.txt = ln.strip()
        cur.append(ins)
    m.fns[f.name] = f


def parse_dbg(m, ln):
    g = re.search(r'llvm\.dbg\.(value|declare)\(metadata ([^,]*), metadata !(\d+), metadata !DIExpression\(([^)]*)\)', ln)
    if not g or g.group(4).strip():
        return None
    try:
        p = P(m, toks(g.group(2)))
        ty = p.ty()
        v = p.val(ty)
    except ParseError:
        return None
    return Ins('dbg', None, ty, [(ty, v)], (g.group(1), g.group(3)))


def parse_ins(m, s):
    t = toks(s)
    p = P(m, t)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = p.next()
        p.next()
    p.skip_attrs()
    op = p.next()
    if op in BIN:
        fl = []
        while p.peek() in PATTRS:
            fl.append(p.next())
        ty = p.ty()
        a = p.val(ty)
        p.exp(',')
        b = p.val(ty)
        return Ins(op, res, ty, [(ty, a), (ty, b)], None, tuple(fl))
    if op in ('icmp', 'fcmp'):
        while p.peek() in PATTRS:
            p.next()
        pr = p.next()
        ty = p.ty()
        a = p.val(ty)
        p.exp(',')
        b = p.val(ty)
        return Ins(op, res, INT(1), [(ty, a), (ty, b)], pr)
    if op in CAST:
        fl = []
        while p.peek() in PATTRS:
            fl.append(p.next())
        ty = p.ty()
        a = p.val(ty)
        p.exp('to')
        t2 = p.ty()
        return Ins(op, res, t2, [(ty, a)], None, tuple(fl))
    if op == 'fneg':
        p.skip_attrs()
        ty = p.ty()
        return Ins(op, res, ty, [(ty, p.val(ty))])
    if op == 'load':
        p.skip_attrs()
        ty = p.ty()
        p.exp(',')
        p.ty()
        return Ins(op, res, ty, [(PTR, p.val(PTR))])
    if op == 'store':
        p.skip_attrs()
        ty = p.ty()
        v = p.val(ty)
        p.exp(',')
        p.ty()
        a = p.val(PTR)
        return Ins(op, None, ty, [(ty, v), (PTR, a)])
    if op == 'getelementptr':
        p.skip_attrs()
        st = p.ty()
        p.exp(',')
        p.ty()
        base = p.val(PTR)
        idx = []
        while p.acc(','):
            ty = p.ty()
            idx.append((ty, p.val(ty)))
        return Ins(op, res, PTR, [(PTR, base)] + idx, st)
    if op == 'alloca':
        ty = p.ty()
        cnt = None
        while p.acc(','):
            if p.acc('align'):
                p.next()
            else:
                t2 = p.ty()
                cnt = (t2, p.val(t2))
        return Ins(op, res, PTR, [cnt] if cnt else [], ty)
    if op == 'phi':
        ty = p.ty()
        inc = []
        while True:
            p.exp('[')
            v = p.val(ty)
            p.exp(',')
            b = p.next()[1:].strip('"')
            p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
        return Ins(op, res, ty, inc)
    if op == 'select':
        p.skip_attrs()
        ty0 = p.ty()
        c = p.val(ty0)
        p.exp(',')
        ty = p.ty()
        a = p.val(ty)
        p.exp(',')
        p.ty()
        b = p.val(ty)
        return Ins(op, res, ty, [(ty0, c), (ty, a), (ty, b)])
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Ins(op, None, VOID, [], (p.next()[1:].strip('"'),))
        ty = p.ty()
        c = p.val(ty)
        p.exp(',')
        p.exp('label')
        a = p.next()[1:].strip('"')
        p.exp(',')
        p.exp('label')
        b = p.next()[1:].strip('"')
        return Ins(op, None, VOID, [(ty, c)], (a, b))
    if op == 'switch':
        ty = p.ty()
        c = p.val(ty)
        p.exp(',')
        p.exp('label')
        d = p.next()[1:].strip('"')
        p.exp('[')
        cs = []
        while not p.acc(']'):
            t2 = p.ty()
            v = p.val(t2)
            p.exp(',')
            p.exp('label')
            cs.append((v, p.next()[1:].strip('"')))
        return Ins(op, None, ty, [(ty, c)], (d, cs))
    if op == 'ret':
        ty = p.ty()
        if ty is VOID:
            return Ins(op, None, VOID, [])
        return Ins(op, None, ty, [(ty, p.val(ty))])
    if op == 'unreachable':
        return Ins(op, None, VOID, [])
    if op == 'freeze':
        ty = p.ty()
        return Ins(op, res, ty, [(ty, p.val(ty))])
    if op == 'call':
        p.skip_attrs()
        ret = p.ty()
        p.skip_attrs()
        if p.peek() == '(':  # function type
            d = 0
            while True:
                y = p.next()
                d += (y == '(') - (y == ')')
                if d == 0:
                    break
        callee = p.val(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            ty = p.ty()
            p.skip_attrs()
            args.append((ty, p.val(ty)))
            p.acc(',')
        return Ins(op, res, ret, args, callee)
    raise ParseError('instruction ' + s)
