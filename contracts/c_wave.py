"""Contracts of the WAVE writer and reader.  The file is a ghost: a position, an end and bytes;
the functions of the C library are used by their assumed contracts."""
from irv.terms import *
from irv.mem import *
from irv.exe import exact_div
from irv.contract import goal
from contracts.consts import K
from contracts.c_attrs import c32, U
from contracts.c_data import when, data

Z32, ONE = bv(0, 32), bv(1, 32)
Z64_, ONE64 = bv(0, 64), bv(1, 64)
HEADER, ENDED, INITED = 1, 2, 1 << 24
L64 = lambda x: bv(x & ((1 << 64) - 1), 64)


class File(object):
    """a seekable file; one byte at an arbitrary position is watched"""

    def __init__(s, g, I, pos, end, content=None):
        s.g = g
        s.fp = g.arr('FILE', 1, 8)
        s.K = sub(add(I, g.sym('watched', 64, 0, 1 << 40)), bv(8, 64))
        s.seekable = TRUE
        s.content = content
        s.seen = lambda S, pos, n: None
        s.b0 = g.sym('content', 8) if content is None else None
        for k, v in (('ok', TRUE), ('pos', pos), ('end', end), ('byte', s.b0 if content is None else Z32), ('flushed', TRUE)):
            g.ghost(k, v)
        g.extern('fwrite', s.fwrite, ('p', 64, 64, 'p'), 64)
        if content is not None:
            g.extern('fread', s.fread, ('p', 64, 64, 'p'), 64)
        g.extern('fseek', s.fseek, ('p', 64, 32), 32)
        g.extern('ftell', s.ftell, ('p',), 64)
        g.extern('fflush', s.fflush, ('p',), 32)

    def same(s, S, f):
        g = s.g
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), pv_eq(f, pv(s.fp))))

    def fwrite(s, g, S, a):
        n = mul(a[1], a[2])
        s.same(S, a[3])
        g.accessible(S, a[0], n)
        pos = g.gget(S, 'pos')
        d = sub(s.K, pos)
        inside = ult(d, n)
        if inside is not FALSE:
            g.gset(S, 'byte', ite(inside, g.byte(S, a[0], d), g.gget(S, 'byte')))
        e = g.gget(S, 'end')
        new = add(pos, n)
        g.gset(S, 'pos', new)
        g.gset(S, 'end', ite(eq(e, pos), new, ite(ult(e, new), new, e)))
        g.gset(S, 'flushed', FALSE)
        return a[2]

    def fseek(s, g, S, a):
        s.same(S, a[0])
        g.gset(S, 'pos', ite(eq(a[2], Z32), a[1], ite(eq(a[2], ONE), add(g.gget(S, 'pos'), a[1]), add(g.gget(S, 'end'), a[1]))))
        return ite(s.seekable, Z32, c32(-1))

    def ftell(s, g, S, a):
        s.same(S, a[0])
        return g.gget(S, 'pos')

    def fread(s, g, S, a):
        n = mul(a[1], a[2])
        s.same(S, a[3])
        g.accessible(S, a[0], n)
        pos, end = g.gget(S, 'pos'), g.gget(S, 'end')
        there = ite(ult(pos, end), sub(end, pos), Z64_)
        full = ule(add(pos, n), end)

        def go(S, n):
            s.seen(S, pos, n)
            g.fill(S, a[0], n, lambda i: s.content.select(add(pos, i)))
            g.gset(S, 'pos', add(pos, n))
            return n if a[1] is ONE64 else udiv(n, a[1])
        if g.holds(S, full):
            return go(S, n)
        if not (g.sym_mode and n.op == 'c'):
            return go(S, ite(ult(there, n), there, n))
        out = []
        for c, m in ((full, n), (NOT(full), there)):
            T_ = S.copy()
            T_.pc = S.pc + (c,)
            out.append((T_, go(T_, m)))
        return out

    def fflush(s, g, S, a):
        s.same(S, a[0])
        g.gset(S, 'flushed', TRUE)
        return Z32


def elem(o, size):
    """which element is at this offset"""
    d = exact_div(o, size)
    return lshr(o, bv(size // 2, 64)) if d is None else d


def le(x, n):
    return [extract(8 * i + 7, 8 * i, x) for i in range(n)]


def text(t):
    return [bv(ord(c), 8) for c in t]


def header(sr, nc, nb, riff=Z32, size=Z32):
    """the 44 bytes before the frames"""
    align = trunc(mul(nc, c32(nb // 8)), 16)
    return text('RIFF') + le(riff, 4) + text('WAVEfmt ') + le(c32(16), 4) + le(bv(1, 16), 2) + le(trunc(nc, 16), 2) + le(sr, 4) + \
        le(mul(sr, mul(nc, c32(nb // 8))), 4) + le(align, 2) + le(bv(nb, 16), 2) + text('data') + le(size, 4)


def writer(g, nb):
    w = g.obj('writer', 'BKWaveFileWriter')
    g.set(w, 'object.isa', pv(g.glob('BKWaveFileWriterClass')))
    g.set(w, 'numBits', nb)
    nc = g.range(w, 'numChannels', 1, 8)
    sr = g.range(w, 'sampleRate', 1, 1 << 23)
    I = g.range(w, 'initOffset', 0, 1 << 36)
    D = g.range(w, 'dataSize', 0, 1 << 36)
    return w, nc, sr, I, D


def as_header(f, I, bytes_, b):
    return AND(*[IMP(eq(f.K, add(I, bv(j, 64))), eq(b, v)) for j, v in enumerate(bytes_)])


def sample_byte(e, nb, i):
    """byte i of the frames e"""
    if nb == 8:
        return add(extract(15, 8, e.select(i)), bv(128, 8))
    v = e.select(lshr(i, ONE64))
    return ite(eq(band(i, ONE64), ONE64), extract(15, 8, v), extract(7, 0, v))


@goal('C21', functions=['BKWaveFileWriterAppendFrames'], variants=[('%dbits.%s' % (b, n), {'nb': b, 'first': x}) for b in (8, 16) for n, x in (('first', True), ('next', False))])
def wave_append(g, nb, first):
    """the header precedes the first frames; all frames follow each other in the format of the file, nothing else is written"""
    if nb == 8:
        g.byte_arrays()
    w, nc, sr, I, D0 = writer(g, nb)
    eb = nb // 8
    if first:
        g.set(w, 'dataSize', 0)
        g.set(w, 'fileSize', 0)
        D0 = Z64_
    else:
        g.set(w, 'fileSize', add(D0, bv(36, 64)))
    fl = g.rd(w, 'object.flags')
    g.assume(eq(band(fl, ONE), Z32 if first else ONE))
    g.set(w, 'reverseEndian', 0)
    n = g.sym('numFrames', 32, 0, (1 << 30) - 1)
    g.bound(n, 3000)
    fr = g.arr('frames', 2, U(n))
    e = g.rd(fr, 'data')
    base = add(I, bv(44, 64))
    start = add(base, D0)
    end = I if first else start
    f = File(g, I if first else start, I if first else start, end)
    g.set(w, 'file', pv(f.fp))
    total = scale(U(n), eb)
    hdr = header(sr, nc, nb)
    is32 = lambda v: not isinstance(v, PV) and getattr(v, 'w', 0) == 32

    def cands(L):
        out = [('ok', lambda V: V.ghost('ok'))]
        m = lambda V: sub(V.ghost('pos'), start)
        out.append(('pos', lambda V: ule(m(V), total)))
        out.append(('k<=pos', lambda V: ule(V.k, m(V))))
        for x in L.other + list(L.steps):
            v = L.phis[x]
            if isinstance(v, PV):
                def off(V, x=x):
                    return AND(*[AND(OR(NOT(gd), B(b is fr)), IMP(gd, eq(scale(elem(o, 2), eb), m(V)))) for gd, b, o in V.phis[x].ts])
                out.append((x + '=at', off))
            elif v.w in (32, 64):
                cv = (lambda V, x=x: U(V.phis[x])) if v.w == 32 else (lambda V, x=x: V.phis[x])
                out.append((x + '=done', lambda V, cv=cv: eq(scale(cv(V), eb), m(V))))
                out.append((x + '=left', lambda V, cv=cv: eq(add(scale(cv(V), eb), m(V)), total)))
                out.append((x + '<=left', lambda V, cv=cv: ule(add(scale(cv(V), eb), m(V)), total)))
        out.append(('byte', lambda V: eq(V.ghost('byte'), ite(ult(sub(f.K, start), m(V)), sample_byte(e, nb, sub(f.K, start)), V.entry.ghost['byte'] if V.entry else V.ghost('byte')))))
        out.append(('end', lambda V: eq(V.ghost('end'), V.ghost('pos'))))
        return out
    g.cands(cands)

    def arrays(V):
        out = {}
        for r_ in g.locals() if g.sym_mode else []:
            out[(r_, 'data')] = lambda V, r_=r_: (lambda old, d: lambda i: ite(ult(i, V.k), sample_byte(e, nb, add(d, i)), old.select(i)))(V.at_entry(r_, 'data'), sub(V.ghost('pos'), start))
        return out
    if nb == 8:
        g.arrays(arrays)
    r = g.call('BKWaveFileWriterAppendFrames', w, fr, n)
    b = g.gget(None, 'byte')
    g.ensure('result', eq(r, Z32))
    g.ensure('same-file', g.gget(None, 'ok'))
    g.ensure('position', AND(eq(g.gget(None, 'pos'), add(start, total)), eq(g.gget(None, 'end'), add(start, total))))
    g.ensure('frames', when(g, ult(sub(f.K, start), total), lambda: eq(b, sample_byte(e, nb, sub(f.K, start)))))
    if first:
        g.ensure('header', as_header(f, I, hdr, b))
    g.ensure('nothing-else', IMP(OR(ult(f.K, I if first else start), ule(add(start, total), f.K)), eq(b, f.b0)))
    g.ensure('data-size', eq(g.rd(w, 'dataSize'), add(D0, total)))
    g.ensure('file-size', eq(g.rd(w, 'fileSize'), add(add(D0, total), bv(36, 64))))
    g.ensure('state', eq(g.rd(w, 'object.flags'), band(bor(fl, ONE), c32(~ENDED))))
    g.frame((w, 'dataSize'), (w, 'fileSize'), (w, 'object.flags'))


@goal('C21', functions=['BKWaveFileWriterTerminate'], variants=[('frames', {'empty': False}), ('empty', {'empty': True})])
def wave_terminate(g, empty):
    """the sizes in the header become those of the frames written, all other bytes stay as they are; further frames go to the end"""
    w = g.obj('writer', 'BKWaveFileWriter')
    g.set(w, 'object.isa', pv(g.glob('BKWaveFileWriterClass')))
    nb = 16
    g.set(w, 'numBits', nb)
    nc = g.range(w, 'numChannels', 1, 8)
    sr = g.range(w, 'sampleRate', 1, 1 << 23)
    I = g.range(w, 'initOffset', 0, 1 << 36)
    D = g.range(w, 'dataSize', 0, 1 << 36)
    g.set(w, 'reverseEndian', 0)
    if empty:
        g.set(w, 'dataSize', 0)
        D = Z64_
    g.set(w, 'fileSize', 0 if empty else add(D, bv(36, 64)))
    fl = g.rd(w, 'object.flags')
    g.assume(eq(band(fl, ONE), Z32 if empty else ONE))
    pos = I if empty else add(add(I, bv(44, 64)), D)
    f = File(g, I, pos, pos)
    g.set(w, 'file', pv(f.fp))
    r = g.call('BKWaveFileWriterTerminate', w)
    b = g.gget(None, 'byte')
    size = trunc(D, 32)
    hdr = header(sr, nc, nb, add(size, c32(36)), size)
    end = add(add(I, bv(44, 64)), D)
    g.ensure('result', eq(r, Z32))
    g.ensure('same-file', g.gget(None, 'ok'))
    if empty:
        g.ensure('header', as_header(f, I, hdr, b))
        g.ensure('nothing-else', IMP(OR(ult(f.K, I), ule(end, f.K)), eq(b, f.b0)))
    else:
        rel = sub(f.K, I)
        for j in list(range(4, 8)) + list(range(40, 44)):
            g.ensure('size%d' % j, IMP(eq(rel, bv(j, 64)), eq(b, hdr[j])))
        g.ensure('nothing-else', OR(ult(sub(rel, bv(4, 64)), bv(4, 64)), ult(sub(rel, bv(40, 64)), bv(4, 64)), eq(b, f.b0)))
    g.ensure('position', AND(eq(g.gget(None, 'pos'), end), eq(g.gget(None, 'end'), end)))
    g.ensure('written', g.gget(None, 'flushed'))
    g.ensure('state', eq(g.rd(w, 'object.flags'), bor(fl, c32(HEADER | ENDED))))
    g.frame((w, 'object.flags'), *([(w, 'fileSize')] if empty else []))
    if empty:
        g.ensure('file-size', eq(g.rd(w, 'fileSize'), bv(36, 64)))


@goal('C21', functions=['BKDispose', 'BKWaveFileWriterDispose'])
def wave_dispose(g):
    """a disposed writer completes its file, but only once"""
    w = g.obj('writer', 'BKWaveFileWriter')
    g.set(w, 'object.isa', pv(g.glob('BKWaveFileWriterClass')))
    fl = g.rd(w, 'object.flags')
    g.assume(eq(band(fl, c32(3 << 24)), c32(INITED)))
    g.ghost('n', Z32)
    g.ghost('ok', TRUE)

    def term(g_, S, a):
        g.gset(S, 'n', add(g.gget(S, 'n'), ONE))
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), pv_eq(a[0], pv(w))))
        return Z32
    g.stub('BKWaveFileWriterTerminate', term)
    g.call('BKDispose', w)
    g.ensure('completed', eq(g.gget(None, 'n'), ite(eq(band(fl, c32(ENDED)), Z32), ONE, Z32)))
    g.ensure('same-writer', g.gget(None, 'ok'))


def checked(g, f, want):
    """the library tells whether the file can be used -> seekable, usable"""
    seekable, mode = g.symbool('seekable'), g.sym('mode', 32)
    f.seekable = seekable
    g.extern('fileno', lambda g_, S, a: (f.same(S, a[0]), c32(5))[1], ('p',), 32)
    g.extern('fcntl', lambda g_, S, a: (g.gset(S, 'ok', AND(g.gget(S, 'ok'), eq(a[0], c32(5)), eq(a[1], c32(3)))), mode)[1], (32, 32), 32)
    m = band(mode, c32(3))
    return seekable, OR(eq(m, c32(2)), eq(m, c32(want)))


@goal('C21', functions=['BKWaveFileWriterInit'])
def wave_writer_init(g):
    """a writer is made for seekable, writable files and frames with 8 or 16 bits; it begins at the position of the file"""
    w = g.obj('writer', 'BKWaveFileWriter')
    I = g.sym('position', 64, 0, 1 << 36)
    f = File(g, I, I, I)
    seekable, ok = checked(g, f, 1)
    nc, sr, nb = g.sym('numChannels', 32), g.sym('sampleRate', 32), g.sym('numBits', 32)
    r = g.call('BKWaveFileWriterInit', w, f.fp, nc, sr, nb)
    valid = OR(eq(nb, Z32), eq(nb, c32(8)), eq(nb, c32(16)))
    g.ensure('result', eq(r, ite(NOT(seekable), c32(K['FILE_NOT_SEEKABLE']), ite(NOT(ok), c32(K['FILE_NOT_WRITABLE']), ite(valid, Z32, c32(K['INVALID_VALUE']))))))
    done = AND(seekable, ok, valid)
    for n, v in (('numChannels', nc), ('sampleRate', sr), ('numBits', ite(eq(nb, Z32), c32(16), nb)), ('initOffset', I), ('dataSize', Z64_), ('fileSize', Z64_), ('reverseEndian', Z32), ('object.flags', c32(INITED))):
        g.ensure(n, IMP(done, eq(g.rd(w, n), v)))
        g.ensure(n + '-kept', IMP(NOT(AND(seekable, ok)), eq(g.rd(w, n), g.pre(w, n))))
    g.ensure('file', IMP(done, pv_eq(g.rd(w, 'file'), pv(f.fp))))
    g.ensure('position-kept', AND(eq(g.gget(None, 'pos'), I), eq(g.gget(None, 'byte'), f.b0), g.gget(None, 'ok')))


@goal('C21', functions=['BKWaveFileWriteData', 'BKWaveFileWriterInit', 'BKWaveFileWriterAppendFrames', 'BKWaveFileWriterTerminate'], variants=[('default', {'bits': 0}), ('8bits', {'bits': 8}), ('16bits', {'bits': 16}), ('12bits', {'bits': 12})])
def wave_write_data(g, bits):
    """the whole file: header with the sizes of all frames, all frames and nothing else; or nothing at all"""
    d = data(g)
    nb = bits or 16
    nf, nc = g.range(d, 'numFrames', 0, (1 << 26) - 1), g.range(d, 'numChannels', 1, 8)
    g.bound(nf, 300)
    n = mul(nf, nc)
    fr = g.arr('frames', 2, U(n))
    g.set(d, 'frames', pv(fr))
    I = g.sym('position', 64, 0, 1 << 36)
    f = File(g, I, I, I)
    sr = g.sym('sampleRate', 32, 1, 1 << 23)
    seekable, ok = checked(g, f, 1)
    g.ghost('appended', Z32)
    eb = nb // 8
    total = scale(U(n), eb)
    base = add(I, bv(44, 64))
    e = g.rd(fr, 'data')
    hdr = header(sr, nc, nb)

    def append(g_, S, a):
        """wave_append"""
        w = a[0]
        get = lambda x: g.get(S, w, 'BKWaveFileWriter', x)
        good = AND(pv_eq(a[1], pv(fr)), eq(a[2], n), pv_eq(get('file'), pv(f.fp)), eq(get('numBits'), c32(nb)), eq(get('numChannels'), nc), eq(get('sampleRate'), sr), eq(get('initOffset'), I),
                   eq(g.gget(S, 'pos'), I), eq(g.gget(S, 'end'), I), eq(get('dataSize'), Z64_), eq(get('fileSize'), Z64_), eq(band(get('object.flags'), ONE), Z32), eq(get('reverseEndian'), Z32))
        g.gset(S, 'ok', AND(g.gget(S, 'ok'), good))
        g.gset(S, 'appended', add(g.gget(S, 'appended'), ONE))
        rel = sub(f.K, I)
        v = g.gget(S, 'byte')
        for j, x in enumerate(hdr):
            v = ite(eq(rel, bv(j, 64)), x, v)
        inside = ult(sub(f.K, base), total)
        if inside is not FALSE:
            v = ite(inside, sample_byte(e, nb, sub(f.K, base)), v)
        g.gset(S, 'byte', v)
        g.gset(S, 'pos', add(base, total))
        g.gset(S, 'end', add(base, total))
        g.gset(S, 'flushed', FALSE)
        g.put(S, w, 'BKWaveFileWriter', 'dataSize', total)
        g.put(S, w, 'BKWaveFileWriter', 'fileSize', add(total, bv(36, 64)))
        g.put(S, w, 'BKWaveFileWriter', 'object.flags', band(bor(get('object.flags'), ONE), c32(~ENDED)))
        return Z32
    if g.sym_mode:
        g.stub('BKWaveFileWriterAppendFrames', append)
    r = g.call('BKWaveFileWriteData', f.fp, d, sr, bits)
    b = g.gget(None, 'byte')
    done = AND(seekable, ok) if bits != 12 else FALSE
    size = trunc(total, 32)
    end = add(base, total)
    g.ensure('result', ite(done, eq(r, Z32), slt(r, Z32)))
    g.ensure('used', g.gget(None, 'ok'))
    g.ensure('header', IMP(done, as_header(f, I, header(sr, nc, nb, add(size, c32(36)), size), b)))
    g.ensure('frames', when(g, AND(done, ult(sub(f.K, base), total)), lambda: eq(b, sample_byte(e, nb, sub(f.K, base)))))
    g.ensure('nothing-else', IMP(OR(NOT(done), ult(f.K, I), ule(end, f.K)), eq(b, f.b0)))
    g.ensure('end', IMP(done, AND(eq(g.gget(None, 'pos'), end), eq(g.gget(None, 'end'), end), g.gget(None, 'flushed'))))
    g.frame()


# ------------------------------------------------------------------ reader
def opened(g, P=None):
    """a file with arbitrary content -> reader, file, position, end, bytes"""
    end = g.sym('end', 64, 0, 1 << 40)
    P = g.sym('position', 64, 0, 1 << 40)
    g.assume(ule(P, end))
    g.bound(end, 4000)
    F = g.rd(g.arr('bytes', 1, end), 'data')
    f = File(g, P, P, end, F)
    w = g.obj('reader', 'BKWaveFileReader')
    g.set(w, 'object.isa', pv(g.glob('BKWaveFileReaderClass')))
    g.set(w, 'file', pv(f.fp))
    return w, f, P, end, F


def bytes_(F, p, n):
    """n bytes, the first is the lowest"""
    v = F.select(p)
    for k in range(1, n):
        v = concat(F.select(add(p, bv(k, 64))), v)
    return v


@goal('C22', functions=['BKWaveFileReaderInit'])
def wave_reader_init(g):
    """a reader is made for seekable, readable files and changes nothing in them"""
    w = g.obj('reader', 'BKWaveFileReader')
    I = g.sym('position', 64, 0, 1 << 36)
    f = File(g, I, I, I)
    seekable, ok = checked(g, f, 0)
    r = g.call('BKWaveFileReaderInit', w, f.fp)
    g.ensure('result', eq(r, ite(NOT(seekable), c32(K['FILE_NOT_SEEKABLE']), ite(NOT(ok), c32(K['FILE_NOT_READABLE']), Z32))))
    done = AND(seekable, ok)
    for n, v in (('numChannels', Z32), ('sampleRate', Z32), ('numBits', Z32), ('numFrames', Z32), ('dataSize', Z64_), ('object.flags', c32(INITED))):
        g.ensure(n, eq(g.rd(w, n), ite(done, v, g.pre(w, n))))
    g.ensure('file', IMP(done, pv_eq(g.rd(w, 'file'), pv(f.fp))))
    g.ensure('position-kept', AND(eq(g.gget(None, 'pos'), I), eq(g.gget(None, 'byte'), f.b0), g.gget(None, 'ok')))


@goal('C22', functions=['BKWaveFileReaderReadHeader'], variants=[('short', {'short': True}), ('8bits', {'nb': 8}), ('16bits', {'nb': 16}), ('others', {'nb': 0})])
def wave_header(g, nb=0, short=False):
    """the first data chunk behind a supported format is found; its size tells the number of complete frames; everything else is refused"""
    w, f, P, end, F = opened(g)
    g.set(w, 'sampleRate', 0)
    outs = [g.arr(n, 4, 1) for n in ('outChannels', 'outRate', 'outFrames')]
    g.assume(ult(end, add(P, bv(36, 64))) if short else ule(add(P, bv(36, 64)), end))
    at = lambda o, n: bytes_(F, add(P, bv(o, 64)), n)
    tag = lambda t: bv(int.from_bytes(t.encode(), 'little'), 32)
    fs, nc, sr, bits = at(16, 4), at(22, 2), at(24, 4), at(34, 2)
    if not short:
        g.assume(eq(bits, bv(nb, 16)) if nb else AND(ne(bits, bv(8, 16)), ne(bits, bv(16, 16))))
    valid = AND(ule(add(P, bv(36, 64)), end), eq(at(0, 4), tag('RIFF')), eq(at(8, 4), tag('WAVE')), eq(at(12, 4), tag('fmt ')), eq(at(20, 2), bv(1, 16)),
                OR(eq(bits, bv(8, 16)), eq(bits, bv(16, 16))), ule(bv(1, 16), nc), ule(nc, bv(8, 16)), ne(sr, Z32), ule(c32(16), fs))
    odd = lambda x: add(U(x), band(U(x), ONE64))
    c0 = add(P, add(bv(20, 64), odd(fs)))
    size = lambda p: bytes_(F, add(p, bv(4, 64)), 4)
    past = lambda p: ult(end, add(p, bv(8, 64)))
    FC = g.fun('chunk', 64, lambda p: OR(past(p), eq(bytes_(F, p, 4), tag('data'))), lambda p: p, lambda p: (add(add(p, bv(8, 64)), odd(size(p))),))

    def cands(L):
        def chain(V):
            p = V.ghost('pos')
            FC.unfold(p)
            return eq(FC(p), FC(c0))
        return [('ok', lambda V: V.ghost('ok')), ('near', lambda V: ule(V.ghost('pos'), add(end, bv(1 << 33, 64)))), ('k<=pos', lambda V: ule(V.k, V.ghost('pos'))), ('chain', chain)]
    g.cands(cands)
    one = bv(nb // 8 or 1, 64)
    g.ghost('frames', Z64_)
    g.ghost('size-at', Z64_)

    def seen(S, pos, n):
        if n.op == 'c' and n.data == 8:
            x, q = U(size(pos)), add(pos, bv(8, 64))
            m = ite(eq(x, Z64_), sub(end, q), x)
            g.gset(S, 'frames', sdiv(sdiv(m, zext(nc, 64)), one) if g.sym_mode or nc.data else Z64_)
            g.gset(S, 'size-at', pos)
    f.seen = seen
    r = g.call('BKWaveFileReaderReadHeader', w, *outs)
    FC.unfold(c0)
    c = FC(c0) if g.sym_mode or valid is TRUE else c0
    found = AND(valid, NOT(past(c)))
    n0 = U(size(c)) if g.sym_mode or found is TRUE else Z64_
    body = add(c, bv(8, 64))
    n = ite(eq(n0, Z64_), sub(end, body), n0)
    done = AND(found, ule(n, bv((1 << 31) - 1, 64)))
    g.ensure('result', eq(r, ite(done, Z32, c32(-1))))
    # computed where the size was read
    nf = g.gget(None, 'frames')
    g.ensure('size', IMP(done, eq(g.gget(None, 'size-at'), c)))
    for o, v in zip(outs, (zext(nc, 32), sr, trunc(nf, 32))):
        g.ensure(o.name, eq(g.rd(o, 'data').select(Z64_), ite(done, v, g.pre(o, 'data').select(Z64_))))
    for x, v in (('numChannels', zext(nc, 32)), ('sampleRate', sr), ('numBits', zext(bits, 32)), ('numFrames', trunc(nf, 32)), ('dataSize', mul(mul(nf, zext(nc, 64)), one))):
        g.ensure(x, IMP(done, eq(g.rd(w, x), v)))
    g.ensure('refused', IMP(NOT(done), eq(g.rd(w, 'sampleRate'), Z32)))
    g.ensure('position', IMP(done, eq(g.gget(None, 'pos'), body)))
    g.ensure('same-file', g.gget(None, 'ok'))


@goal('C22', functions=['BKWaveFileReaderReadHeader'])
def wave_header_again(g):
    """a header is only read once"""
    w, f, P, end, F = opened(g)
    g.assume(ne(g.rd(w, 'sampleRate'), Z32))
    outs = [g.arr(n, 4, 1) for n in ('outChannels', 'outRate', 'outFrames')]
    r = g.call('BKWaveFileReaderReadHeader', w, *outs)
    g.ensure('result', eq(r, Z32))
    for o, x in zip(outs, ('numChannels', 'sampleRate', 'numFrames')):
        g.ensure(x, eq(g.rd(o, 'data').select(Z64_), g.rd(w, x)))
    g.ensure('position', eq(g.gget(None, 'pos'), P))
    g.frame(*[(o, 'data') for o in outs])


@goal('C22', functions=['BKWaveFileReaderReadFrames'], variants=[('8bits', {'nb': 8}), ('16bits', {'nb': 16})])
def wave_read_frames(g, nb):
    """every frame of the file is converted exactly; frames missing at the end of a truncated file are zero"""
    w, f, P, end, F = opened(g)
    s = nb // 8 - 1
    count = g.sym('count', 64, 0, ((1 << 31) - 1) >> s)
    g.bound(count, 2500)
    D = scale(count, 1 + s)
    g.set(w, 'numBits', nb)
    g.set(w, 'dataSize', D)
    out = g.arr('frames', 2, count)
    o0 = g.rd(out, 'data')
    half = lambda x: lshr(x, ONE64) if s else x

    def dec(i):
        if nb == 8:
            return concat(sub(F.select(add(P, i)), bv(128, 8)), bv(0, 8))
        return bytes_(F, add(P, scale(i, 2)), 2)
    there = half(sub(end, P))

    def written(V):
        """frames which were written, by the pointer to the next one"""
        for v in V.phis.values():
            if isinstance(v, PV):
                for gd, b, o in v.ts:
                    if b is out:
                        return elem(o, 2)
        return half(sub(V.ghost('pos'), P))
    g.arrays(lambda V: {(out, 'data'): lambda V: (lambda m: lambda i: ite(ult(i, m), dec(i), o0.select(i)))(written(V))})

    def cands(L):
        out_ = [('ok', lambda V: V.ghost('ok'))]
        out_.append(('m', lambda V: ule(written(V), count)))
        out_.append(('end', lambda V: ule(V.ghost('pos'), end)))
        out_.append(('k<=m', lambda V: ule(V.k, written(V))))
        out_.append(('there', lambda V: ule(written(V), there)))
        at = lambda V: scale(written(V), 1 + s)
        out_.append(('pos', lambda V: OR(eq(V.ghost('pos'), add(P, at(V))), AND(eq(V.ghost('pos'), end), eq(end, add(add(P, at(V)), ONE64))) if s else FALSE)))
        for x in L.other + list(L.steps):
            v = L.phis[x]
            if isinstance(v, PV):
                out_.append((x + '=out', lambda V, x=x: AND(*[AND(OR(NOT(gd), B(b is out)), IMP(gd, ule(elem(o, 2), count))) for gd, b, o in V.phis[x].ts])))
            elif v.w in (32, 64):
                cv = (lambda V, x=x: U(V.phis[x])) if v.w == 32 else (lambda V, x=x: V.phis[x])
                out_.append((x + '=done', lambda V, cv=cv: eq(cv(V), at(V))))
                out_.append((x + '=left', lambda V, cv=cv: eq(add(cv(V), at(V)), D)))
                out_.append((x + '=n', lambda V, cv=cv: ule(cv(V), bv(1024, 64))))
                if s:
                    out_.append((x + '=even', lambda V, cv=cv: eq(band(cv(V), ONE64), Z64_)))
                out_.append((x + '=unwritten', lambda V, cv=cv: AND(eq(add(add(P, at(V)), cv(V)), V.ghost('pos')))))
                out_.append((x + '=unwritten2', lambda V, cv=cv: OR(eq(add(add(P, at(V)), cv(V)), V.ghost('pos')), AND(eq(V.ghost('pos'), end), eq(add(add(add(P, at(V)), cv(V)), ONE64), end)))))
        return out_
    g.cands(cands)
    r = g.call('BKWaveFileReaderReadFrames', w, out)
    g.ensure('result', eq(r, Z32))
    a = g.rd(out, 'data')
    g.forall('frames', count, lambda i: eq(a.select(i), ite(ult(i, there), dec(i), bv(0, 16)) if g.sym_mode else (dec(i) if ult(i, there) is TRUE else bv(0, 16))))
    g.ensure('same-file', g.gget(None, 'ok'))
    g.frame((out, 'data'))


# ------------------------------------------------------------------ data objects from files
@goal('C18', functions=['BKDataLoadRaw'])
def data_load_raw(g):
    """the rest of the file, and nothing else, is decoded; the result is reported and nothing is kept"""
    d = data(g)
    end = g.sym('end', 64, 0, 1 << 40)
    P = g.sym('position', 64, 0, 1 << 40)
    g.assume(ule(P, end))
    g.bound(end, 4000)
    F = g.rd(g.arr('bytes', 1, end), 'data')
    f = File(g, P, P, end, F)
    W = g.sym('watchedByte', 64, 0, 1 << 40)
    res, nch, params = g.sym('result', 32, signed=True), g.sym('numChannels', 32), g.sym('params', 32)
    g.ghost('calls', Z32)
    g.ghost('good', TRUE)
    n = sub(end, P)

    def setdata(g_, S, a):
        g.gset(S, 'calls', add(g.gget(S, 'calls'), ONE))
        same = AND(pv_eq(a[0], pv(d)), eq(U(a[2]), n), eq(a[3], nch), eq(a[4], params))
        g.accessible(S, a[1], n)
        byte = when(g, ult(W, n), lambda: eq(g.byte(S, a[1], W), F.select(add(P, W))))
        g.gset(S, 'good', AND(g.gget(S, 'good'), same, byte))
        return res
    g.stub('BKDataSetData', setdata)
    r = g.call('BKDataLoadRaw', d, f.fp, nch, params)
    big = ult(bv((1 << 31) - 1, 64), n)
    done = eq(g.gget(None, 'calls'), ONE)
    g.ensure('decoded-once', OR(done, eq(g.gget(None, 'calls'), Z32)))
    g.ensure('exactly-the-rest', g.gget(None, 'good'))
    g.ensure('too-large', IMP(big, AND(NOT(done), eq(r, c32(K['FILE_ERROR'])))))
    g.ensure('result', IMP(NOT(big), eq(r, ite(done, res, c32(K['ALLOCATION_ERROR'])))))
    g.ensure('same-file', g.gget(None, 'ok'))
    g.no_leak('nothing-kept')
    g.frame()


@goal('C19', functions=['BKDataLoadWAVE', 'BKDataResetStates'])
def data_load_wave(g):
    """the frames of the file replace the old ones, which are given back, and the users of the data are told; if anything fails the data is as before"""
    from contracts.c_data import frames, same, States, RESET, INITED as INIT_, COPY
    d = data(g)
    old, nf0, nc0, own = frames(g, d, 'old')
    s = States(g, d, RESET)
    fp = g.arr('FILE', 1, 8)
    ri, rh, rf = [g.sym(n, 32, signed=True) for n in ('initResult', 'headerResult', 'framesResult')]
    nc, sr, nf = g.sym('numChannels', 32, 1, 8), g.sym('sampleRate', 32, 1), g.sym('numFrames', 32, 0, (1 << 31) - 1)
    g.bound(nf, 40)
    W = g.sym('watched', 64, 0, 1 << 34)
    wv = g.sym('frame', 16)
    count = mul(U(nf), U(nc))
    g.assume(ult(W, count))
    s.extra = lambda S: AND(eq(g.get(S, pv(d), 'BKData', 'numFrames'), nf), eq(g.get(S, pv(d), 'BKData', 'numChannels'), nc))
    s.inv()
    g.ghost('order', Z32)
    g.ghost('good', TRUE)

    def at(S, k, *c):
        g.gset(S, 'good', AND(g.gget(S, 'good'), eq(g.gget(S, 'order'), c32(k)), *c))
        g.gset(S, 'order', c32(k + 1))

    def init(g_, S, a):
        at(S, 0, pv_eq(a[1], pv(fp)))
        g.put(S, a[0], 'BKWaveFileReader', 'object.isa', pv(g.glob('BKWaveFileReaderClass')))
        g.put(S, a[0], 'BKWaveFileReader', 'object.flags', c32(1 << 24))
        return ri

    def head(g_, S, a):
        at(S, 1)
        for p, v in zip(a[1:], (nc, sr, nf)):
            g.poke(S, p, ite(slt(rh, Z32), Z32, v))
        return rh

    def read(g_, S, a):
        at(S, 2)
        g.accessible(S, a[1], scale(count, 2))
        g.poke(S, pv_add(a[1], scale(W, 2)), wv)
        return rf
    for nm, h in (('Init', init), ('ReadHeader', head), ('ReadFrames', read)):
        g.stub('BKWaveFileReader' + nm, h)
    r = g.call('BKDataLoadWAVE', d, fp)
    neg = lambda x: slt(x, Z32)
    INV = c32(K['INVALID_RETURN_VALUE'])
    bad = OR(neg(ri), neg(rh))
    few = slt(nf, c32(2))
    done = eq(r, Z32)
    g.ensure('refused', IMP(bad, eq(r, INV)))
    g.ensure('too-short', IMP(AND(NOT(bad), few), eq(r, c32(K['INVALID_NUM_FRAMES']))))
    ready = AND(NOT(bad), NOT(few))
    g.ensure('result', IMP(ready, OR(eq(r, c32(K['ALLOCATION_ERROR'])), eq(r, ite(neg(rf), INV, Z32)))))
    same(g, d, NOT(done), 'failed-unchanged')
    ex = s.check(done)
    p = g.rd(d, 'frames')
    g.ensure('frame', when(g, done, lambda: eq(g.load(pv_add(p, scale(W, 2)), 16), wv)))
    for x, v in (('numFrames', nf), ('numChannels', nc), ('sampleRate', sr), ('numBits', c32(16))):
        g.ensure(x, IMP(done, eq(g.rd(d, x), v)))
    g.ensure('owner', IMP(done, eq(g.rd(d, 'object.flags'), c32(INIT_ | COPY))))
    g.ensure('old-frames-given-back', IFF(g.freed(old), AND(done, own)))
    g.ensure('in-order', g.gget(None, 'good'))
    g.no_leak('no-leak', p)
    g.frame((old, ''), ('freed', old), (d, 'frames'), (d, 'numFrames'), (d, 'numChannels'), (d, 'numBits'), (d, 'sampleRate'), (d, 'object.flags'), *ex)
