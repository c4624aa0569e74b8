#!/usr/bin/env python3-vt
"""mkseed.py FILE.py ... : plant the bugs described in python files (list SEEDS of dicts
id, property, edits [(file, old, new)], demo (C source), needs, breaks, [cflags]) into seeded/<id>/,
after confirming in a scratch copy that it compiles, passes the tests, and that the demo tells it apart."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -w %s -I src -o "$T/demo" "$D/demo.c" src/*.c -lm || exit 2
cd "$T" && timeout 120 ./demo
'''


def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def make(s):
    t = tempfile.mkdtemp(prefix='seed_')
    r = os.path.join(t, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.c', 'w').write(s['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % s.get('cflags', ''))
        os.chmod(d + '/demo.sh', 0o755)
        p = sh('bash %s/demo.sh' % d, r)
        if p.returncode:
            return 'demo fails on the unchanged tree: %d %s' % (p.returncode, p.stdout[-500:])
        for f, o, n in s['edits']:
            q = os.path.join(r, f)
            x = open(q).read()
            if x.count(o) != 1:
                return '%s: %d matches of %r' % (f, x.count(o), o)
            open(q, 'w').write(x.replace(o, n))
        diff = subprocess.check_output(['git', 'diff'], cwd=r, universal_newlines=True)
        open(d + '/patch.diff', 'w').write(diff)
        for f in sorted({e[0] for e in s['edits']}):
            bl = subprocess.check_output(['git', 'blame', '-s', 'HEAD', '--', f], cwd=r, universal_newlines=True).split('\n')
            dl = subprocess.check_output(['git', 'diff', '-U0', '--', f], cwd=r, universal_newlines=True)
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dl, re.M):
                for k in range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)):
                    if not bl[k - 1].startswith('^'):
                        return 'changes a line of a fix: ' + bl[k - 1]
        # tests: the scripts work on /repo only, so use the scratch copy's own build
        b = sh('cd _build 2>/dev/null && (make -j8 || ninja)', r)
        p = sh('bash %s/demo.sh' % d, r)
        if p.returncode == 0:
            return 'demo does not notice the change'
        if p.returncode == 2:
            return 'does not compile: ' + p.stdout[-800:]
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if os.environ.get('DRY'):
            return 'ok (dry)'
        # the real build and tests, patch applied to /repo for a moment
        a = sh('git apply %s/patch.diff' % d, '/repo')
        try:
            b = sh('bash /opt/vp/build.sh', '/repo')
            sh('bash /opt/vp/test.sh %s/t.json' % t, '/repo')
            tj = json.load(open(t + '/t.json'))
        finally:
            sh('git checkout -- .', '/repo')
        if a.returncode or b.returncode or tj['failed'] or len(tj['passed']) != 3:
            return 'build/tests: %s %s %s' % (a.stdout[-200:], b.stdout[-300:], tj)
        return 'ok'
    finally:
        shutil.rmtree(t)


for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        print(s['id'], make(s))
if not os.environ.get('DRY'):
    sh('bash /opt/vp/build.sh', '/repo')
