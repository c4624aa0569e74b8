"""Compile /repo's current sources to LLVM IR (for the verifier) and to an
instrumented shared library (for replaying counterexamples)."""
import glob
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import llir

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('IRV_REPO', '/repo')


class BuildError(Exception):
    pass


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))) + [os.path.join(HERE, 'wrap.c')]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def build_ir(tmp):
    """-> text of the linked, mem2reg'ed module"""
    outs = []

    def one(s):
        o = os.path.join(tmp, os.path.basename(s)[:-2] + '.ll')
        run(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-w', '-S', '-emit-llvm',
             '-I', os.path.join(REPO, 'src'), '-o', o, s])
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, sources()))
    a = os.path.join(tmp, 'all.ll')
    b = os.path.join(tmp, 'allm.ll')
    run(['llvm-link', '-S', '-o', a] + outs)
    run(['opt', '-S', '-passes=function(mem2reg,loop-simplify)', '-o', b, a])
    return open(b).read()


def load(tmp=None):
    if tmp is None:
        with tempfile.TemporaryDirectory(prefix='irv') as t:
            return llir.parse(build_ir(t))
    return llir.parse(build_ir(tmp))


SAN = ['-fsanitize=address,bounds,integer-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


EXTERN = ['-D%s=vt_%s' % (f, f) for f in ('fwrite', 'fread', 'fseek', 'ftell', 'fflush', 'fileno', 'fcntl')]


def build_native(tmp):
    """shared library of the real sources with ASan, for in-process replay"""
    objs = []

    def one(s):
        o = os.path.join(tmp, 'n_' + os.path.basename(s)[:-2] + '.o')
        run(['gcc', '-g', '-O0', '-w', '-fPIC'] + SAN + ['-Dmalloc=vt_malloc', '-Dcalloc=vt_calloc', '-Drealloc=vt_realloc', '-Dfree=vt_free'] + EXTERN + ['-I', os.path.join(REPO, 'src'), '-c', '-o', o, s])
        return o

    def helper(s):
        o = os.path.join(tmp, 'n_' + os.path.basename(s)[:-2] + '.o')
        run(['gcc', '-g', '-O1', '-w', '-fPIC', '-I', os.path.join(REPO, 'src'), '-c', '-o', o, s])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources()))
    objs.append(helper(os.path.join(HERE, 'nathelp.c')))
    so = os.path.join(tmp, 'libnat.so')
    run(['gcc', '-shared'] + SAN + ['-o', so] + objs + ['-lm'])
    return so


def symbols(so):
    out = {}
    for ln in run(['nm', so]).split('\n'):
        m = re.match(r'([0-9a-f]+) (\w) (\S+)', ln)
        if m:
            out.setdefault(re.sub(r'\.\d+$|\.lto_priv.*$', '', m.group(3)), int(m.group(1), 16))
    return out


def symbols_all(so):
    out = {}
    for ln in run(['nm', so]).split('\n'):
        m = re.match(r'([0-9a-f]+) ([tTwW]) (\S+)', ln)
        if m:
            out.setdefault(re.sub(r'\.\d+$|\.lto_priv.*$', '', m.group(3)), []).append(int(m.group(1), 16))
    return out
