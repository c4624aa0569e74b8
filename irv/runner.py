"""Runs the goals of a property: unbounded proof, counterexample replay, bounded stand-in."""
import json
import multiprocessing as mp
import os
import pickle
import resource
import subprocess
import sys
import tempfile
import time
import traceback
from . import build, llir

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def _child(fn, args, q, conn):
    from .prove import big_stack
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    try:
        r = big_stack(fn, *args)
    except BaseException as e:
        r = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:]}
    conn.send(r)
    conn.close()


def pool(tasks, jobs, limit):
    """tasks: [(key, fn, args)] -> {key: result}; each in its own forked process"""
    ctx = mp.get_context('fork')
    todo = list(tasks)
    live = []
    out = {}
    while todo or live:
        while todo and len(live) < jobs:
            key, fn, args = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, args, None, b))
            p.start()
            b.close()
            live.append((key, p, a, time.time()))
        time.sleep(0.01)
        nl = []
        for key, p, a, t0 in live:
            if a.poll():
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = {'error': 'worker died'}
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                out[key] = {'error': 'worker died (memory limit?)'}
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                out[key] = {'error': 'time limit of %d s' % limit}
            else:
                nl.append((key, p, a, t0))
                continue
        live = nl
    return out


def solve_goal(mod, goal, opts):
    """-> result dict (runs in a worker)"""
    from . import contract, prove, smt
    from .terms import evalt, AND, TRUE, FALSE
    t0 = time.time()
    g = contract.SymG(mod, goal, bounded=opts.get('bounded', False), unroll=opts.get('unroll'))
    vc = g.vc
    vc.deadline = t0 + opts.get('exec_limit', 150)
    res = {'goal': goal.id, 'bounded': g.bounded}
    err = None
    try:
        goal.run(g)
    except contract.NoReturn as e:
        err = None
    tx = time.time() - t0
    # vacuity: the requires must be satisfiable and the end reachable
    vac = None
    if not opts.get('no_vacuity'):
        r, m, be = smt.check(vc.facts + [g.st.cond()], 10000)[0], None, None
        if r == 'unsat':
            vac = 'vacuous: preconditions or path to the end unsatisfiable'
    prove.discharge(vc, opts.get('ms', 30000), opts.get('jobs', 1), stop_after=opts.get('stop_after'))
    obls = []
    fails = []
    for o in vc.obls:
        obls.append((o.name, o.status or 'skipped', o.backend, round(o.time, 3)))
        if o.status != 'proved':
            f = {'name': o.name, 'status': o.status or 'skipped', 'kind': o.kind}
            if o.model is not None:
                m = o.model
                f['model'] = {'vars': m.vars, 'sels': {k: ({str(i): x for i, x in d[0].items()}, d[1]) for k, d in m.sels.items()}}
                plan = []
                for e in vc.extern_log:
                    if e[0] == 'malloc':
                        try:
                            if evalt(e[2], m):
                                plan.append(evalt(e[1], m))
                        except Exception:
                            pass
                f['plan'] = plan
            fails.append(f)
    if opts.get('second'):
        # re-discharge with the other solver
        second = []
        tlim = time.time() + opts['second']
        for o in vc.obls:
            if o.status == 'proved' and o.backend in ('z3', 'z3-bitblast') and o.goal is not TRUE:
                if time.time() > tlim:
                    break
                r, _ = smt.check_cvc5(prove.formula(vc, o), 8000)
                second.append(r)
                if r == 'sat':
                    fails.append({'name': o.name, 'status': 'solvers disagree', 'kind': 'solver'})
        res['second'] = {'confirmed': second.count('unsat'), 'unknown': second.count('unknown'), 'sat': second.count('sat')}
    res.update({
        'obls': obls, 'fails': fails, 'vacuous': vac, 'exec_s': round(tx, 2), 'wall_s': round(time.time() - t0, 2),
        'solver_s': round(sum(o.time for o in vc.obls) + vc.solver_ms / 1000.0, 2),
        'called': g.called, 'inlined': sorted(vc.inlined), 'contracts': sorted(vc.contracts_used),
        'loops': vc.loop_report, 'inv_loops': vc.loops_proved, 'ensures': g.ensures,
        'exact': vc.loops_proved == 0 and not vc.contracts_used, 'notes': g.notes,
    })
    return res


class Native(object):
    """native replay of models / random conformance runs"""

    def __init__(self, mod, tmp):
        self.mod, self.tmp = mod, tmp
        self.so = None
        self.n = 0

    def ready(self):
        if self.so is None:
            self.so = build.build_native(self.tmp)
            self.pk = os.path.join(self.tmp, 'mod.pk')
            with open(self.pk, 'wb') as f:
                pickle.dump(self.mod, f)
            self.asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, universal_newlines=True).stdout.strip()

    def run(self, tasks, timeout):
        self.ready()
        self.n += 1
        tf = os.path.join(self.tmp, 'task%d_%d.json' % (os.getpid(), self.n))
        json.dump(tasks, open(tf, 'w'))
        scratch = tempfile.mkdtemp(prefix='irvn', dir=self.tmp)
        env = dict(os.environ)
        env.update({'LD_PRELOAD': self.asan, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1',
                    'PYTHONMALLOC': 'malloc'})
        try:
            p = subprocess.run([sys.executable, os.path.join(HERE, 'nat.py'), self.so, self.pk, tf], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               universal_newlines=True, timeout=timeout, env=env, cwd=scratch, errors='replace')
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = 'timeout', (e.stdout or b''), ''
            if isinstance(so, bytes):
                so = so.decode('utf8', 'replace')
        recs = []
        for ln in so.split('\n'):
            if ln.startswith('{'):
                try:
                    recs.append(json.loads(ln))
                except ValueError:
                    pass
        return rc, recs, se

    def replay(self, goal, fail, bounded=False, timeout=25):
        """-> (verdict, detail)   verdict in confirmed / held / inapplicable"""
        if 'model' not in fail:
            return 'inapplicable', 'no model'
        rc, recs, se = self.run([{'goal': goal.id, 'model': fail['model'], 'plan': fail.get('plan'), 'bounded': bounded}], timeout)
        if rc == 'timeout' and not bounded:      # the inputs may just be huge
            return 'inapplicable', 'timeout'
        return self.verdict(rc, recs, se)

    def verdict(self, rc, recs, se):
        started = any('start' in r for r in recs)
        last = [r for r in recs if 'result' in r]
        if last and last[-1]['result'] == 'fail':
            return 'confirmed', {'failed': last[-1]['info'], 'inputs': last[-1].get('inputs'), 'seed': last[-1].get('seed')}
        if rc == 'timeout':
            return ('confirmed', {'failed': ['does not terminate (native run stopped after the time limit)'], 'start': [r for r in recs if 'start' in r][-1:]}) if started and not last else ('inapplicable', 'timeout')
        if rc not in (0,) and started:
            if 'AddressSanitizer' in se or 'runtime error' in se or (isinstance(rc, int) and rc < 0):
                return 'confirmed', {'failed': ['crash'], 'sanitizer': se[:3000], 'start': [r for r in recs if 'start' in r][-1:]}
            return 'inapplicable', 'child exited with %s: %s' % (rc, se[-500:])
        if last:
            return ('held' if last[-1]['result'] == 'ok' else 'inapplicable'), last[-1].get('info')
        return 'inapplicable', 'no result: ' + se[-500:]

    def random(self, goal, seed, secs, timeout=None):
        rc, recs, se = self.run([{'goal': goal.id, 'seed': seed, 'secs': secs}], timeout or secs + 25)
        done = [r for r in recs if 'done' in r]
        if rc == 0 and done and not [r for r in recs if r.get('result') == 'fail']:
            errs = [r for r in recs if r.get('result') == 'error']
            return ('error' if errs else 'held'), {'runs': done[-1]['done'], 'rejected': done[-1]['rejected'], 'err': errs[:1]}
        v, d = self.verdict(rc, recs, se)
        return v, d
