#!/usr/bin/env python3-vt
"""Decide one property:  check.py PROP [--tier quick|thorough]
                         check.py --replay out/FILE.json
                         check.py --list

For every goal of the property the obligations generated from the LLVM IR of /repo's current
sources are discharged for all inputs.  Where that fails, the counterexample is replayed against
the natively compiled real code; see DESIGN.md, 'Decision'."""
import argparse
import concurrent.futures
import inspect
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from irv import build, runner
import contracts

BUDGET = {'quick': 780.0, 'thorough': 3000.0}


def jdump(x):
    return json.dumps(x, indent=1, default=str, sort_keys=True)


def known(prop):
    p = os.path.join(HERE, 'known-findings.json')
    try:
        return [e for e in json.load(open(p)).get('findings', []) if e.get('property') == prop]
    except (IOError, ValueError):
        return []


def matches(e, goal, obl):
    import fnmatch
    return fnmatch.fnmatchcase(goal.name, e.get('goal', '')) and fnmatch.fnmatchcase(obl, e.get('obligation', ''))


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.end = self.t0 + BUDGET[tier]
        self.violations = []
        self.known_hits = []
        self.notes = []
        self.bounded = []
        self.jobs = max(1, min(8, os.cpu_count() or 1))
        self.thor = tier == 'thorough'

    def left(self):
        return self.end - time.time()

    def say(self, s):
        print('  ' + s)
        sys.stdout.flush()

    def violation(self, goal, obl, why, confirmed, extra):
        for e in known(self.prop):
            if goal is not None and matches(e, goal, obl) and e.get('status') != 'fixed':
                if e['what'] not in self.known_hits:
                    self.known_hits.append(e['what'])
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, e['what']))
                return
        d = os.path.join(HERE, 'out')
        if not os.path.isdir(d):
            os.makedirs(d)
        path = os.path.join(d, '%s-%s-%d.json' % (self.prop, (goal.name if goal else 'build').replace('/', '_'), len(self.violations)))
        rec = {'property': self.prop, 'goal': goal.id if goal else None, 'failed_obligation': obl, 'why': why,
               'confirmed_natively': confirmed}
        rec.update(extra)
        with open(path, 'w') as f:
            f.write(jdump(rec))
        self.violations.append((obl, path))
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if confirmed else ' no-failing-input-found'))
        self.say('%s: %s' % (obl, why))
        sys.stdout.flush()

    # ------------------------------------------------------------------
    def run(self):
        goals = [g for g in contracts.load() if g.prop == self.prop]
        if not goals:
            print('no goals for property', self.prop)
            return 1
        try:
            mod = build.load()
        except Exception as e:
            self.violation(None, 'build', 'the sources of /repo do not build: %s' % str(e)[:2000], False, {})
            return self.finish(None, {}, [])
        self.tmp = tempfile.mkdtemp(prefix='irv_%s_' % self.prop)
        try:
            return self.run2(mod, goals)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    # internal functions which contracts name, with their number of parameters
    INTERNAL = {'BKClocksAdvance': 3, 'BKTrackRun': 2, 'BKTrackTick': 2, 'BKTrackInstrStateCallback': 2, 'BKTrackSampleDataStateCallback': 2}

    def applicable(self, mod, goals):
        """internal functions may be renamed or dissolved: contracts which name them have no subject then"""
        out = []
        for g in goals:
            src = inspect.getsource(g.fn)
            gone = [n for n, k in self.INTERNAL.items() if "'%s'" % n in src and (n not in mod.fns or len(mod.fns[n].params) != k)]
            if gone:
                self.notes.append('%s: left out, internal function %s is not there any more' % (g.name, gone[0]))
                self.say('%s: left out, internal function %s is not there any more' % (g.name, gone[0]))
            else:
                out.append(g)
        return out

    def run2(self, mod, goals):
        ms = 20000 if not self.thor else 120000
        opts = {'ms': ms, 'jobs': 1, 'exec_limit': 200 if not self.thor else 900}
        if self.thor:
            opts['second'] = 240
        goals = self.applicable(mod, goals)
        # long goals first
        order = sorted(goals, key=lambda g: -g.opt.get('cost', 1))
        res = runner.pool([(g.id, runner.solve_goal, (mod, g, opts)) for g in order], self.jobs,
                          min(420 if not self.thor else 1500, self.left() * 0.55))
        nat = runner.Native(mod, self.tmp)
        bad = []
        for g in goals:
            r = res[g.id]
            if 'error' in r:
                self.say('%s: %s' % (g.name, r['error']))
                bad.append(g)
            elif r['vacuous']:
                self.say('%s: %s' % (g.name, r['vacuous']))
                bad.append(g)
            elif r['fails']:
                bad.append(g)
        if bad:
            nat.ready()
            # replay, bounded stand-ins and random runs of the failing goals
            btasks = [(g.id, runner.solve_goal, (mod, g, dict(opts, bounded=True, ms=ms, exec_limit=120))) for g in bad]
            verdicts = {}
            with concurrent.futures.ThreadPoolExecutor(6) as ex:
                futs = {}
                for g in bad[:40]:
                    futs[g.id] = ex.submit(self.native, nat, g, res[g.id], False)
                for g in bad[:40]:
                    try:
                        verdicts[g.id] = futs[g.id].result()
                    except Exception as e:
                        verdicts[g.id] = None
                        self.notes.append('native replay of %s: %r' % (g.id, e))
            for g in bad:
                v = verdicts.get(g.id)
                if v:
                    self.violation(g, v[0], 'replayed on the native code: %s' % str(v[1].get('failed'))[:300], True,
                                   {'inputs': v[1], 'fail': v[2], 'verifier': self.brief(res[g.id])})
            rest = [g for g in bad if not verdicts.get(g.id)]
            if rest and self.left() > 60:
                # random runs of their contracts on the real code
                with concurrent.futures.ThreadPoolExecutor(6) as ex:
                    futs = {g.id: ex.submit(nat.random, g, self.seed * 104729, 8) for g in rest[:18] if not g.opt.get('no_native')}
                    for g in rest[:18]:
                        if g.id not in futs:
                            continue
                        try:
                            v, d = futs[g.id].result()
                        except Exception as e:
                            self.notes.append('random runs of %s: %r' % (g.id, e))
                            continue
                        if v == 'confirmed':
                            verdicts[g.id] = True
                            f = (res[g.id].get('fails') or [{}])[0]
                            self.violation(g, f.get('name') or 'native:' + g.name, 'fails on the native code: %s' % str(d.get('failed'))[:300], True,
                                           {'inputs': d, 'fail': {k: f[k] for k in f if k != 'model'}, 'verifier': self.brief(res[g.id])})
                rest = [g for g in rest if not verdicts.get(g.id)]
            if rest:
                bres = runner.pool([t for t in btasks if t[0] in [g.id for g in rest]], self.jobs, max(30, min(240, self.left() * 0.6)))
                for g in rest:
                    self.decide(mod, nat, g, res[g.id], bres[g.id])
        natruns = {}
        if self.thor and not self.violations:
            with concurrent.futures.ThreadPoolExecutor(7) as ex:
                futs = {g.id: ex.submit(nat.random, g, self.seed * 100003, 6) for g in goals if not g.opt.get('no_native')}
                for g in goals:
                    if g.id not in futs:
                        continue
                    v, d = futs[g.id].result()
                    natruns[g.id] = (v, d)
                    if v == 'confirmed':
                        self.violation(g, 'native:' + g.name, 'random run of the contract on the native code: %s' % str(d.get('failed'))[:300], True, {'inputs': d})
        return self.finish(mod, res, goals, natruns)

    def brief(self, r):
        return {k: r.get(k) for k in ('error', 'vacuous', 'loops', 'fails', 'wall_s') if r.get(k)}

    def native(self, nat, g, r, bounded):
        """-> (obligation, detail, fail) when a failing run of the real code is found"""
        if g.opt.get('no_native'):
            return None
        n = 0
        for f in r.get('fails') or []:
            if 'model' not in f:
                continue
            n += 1
            if n > 6 or self.left() < 60:
                break
            v, d = nat.replay(g, f, bounded)
            if v == 'confirmed':
                return f['name'], d, f
        return None

    def decide(self, mod, nat, g, r, b):
        """the unbounded proof failed and no refuting model was confirmed natively"""
        hit = self.native(nat, g, b, True) if 'error' not in b else None
        if not hit and not g.opt.get('no_native') and self.left() > 40:
            v, d = nat.random(g, self.seed * 7919, 8)
            if v == 'confirmed':
                hit = ('native:' + g.name, d, {})
        if hit:
            self.violation(g, hit[0], 'fails on the native code: %s' % str(hit[1].get('failed'))[:300], True,
                           {'inputs': hit[1], 'fail': hit[2], 'verifier': self.brief(r)})
            return
        if 'error' not in r and r.get('exact'):
            ref = [f for f in r['fails'] if f['status'] == 'refuted']
            if ref:
                self.violation(g, ref[0]['name'], 'obligation refuted by the solver', False, {'fail': ref[0], 'verifier': self.brief(r)})
                return
        if 'error' not in b:
            ref = [f for f in b['fails'] if f['status'] == 'refuted']
            if ref:
                self.violation(g, ref[0]['name'], 'obligation refuted on the exactly unrolled code (bounded variant)', False, {'fail': ref[0], 'verifier': self.brief(r)})
                return
        if 'error' not in r and r['vacuous'] or 'error' not in b and b['vacuous']:
            self.violation(g, 'vacuity:' + g.name, 'the preconditions of the contract became unsatisfiable or the call never returns', False, {'verifier': self.brief(r)})
            return
        if 'error' not in b and not b['fails']:
            self.bounded.append(g.name)
            self.notes.append('%s: not proved for all inputs this time; bounded stand-in with loops unrolled held' % g.name)
            self.say('%s: unbounded proof not found (%s); bounded stand-in holds' % (g.name, r.get('error') or ', '.join(f['name'] for f in r['fails'][:3])))
            return
        n = (r.get('fails') or b.get('fails') or [{'name': g.name, 'status': r.get('error')}])[0]
        self.violation(g, n['name'], 'not discharged: %s' % (r.get('error') or n['status']), False,
                       {'fail': n, 'verifier': self.brief(r), 'bounded': self.brief(b)})

    # ------------------------------------------------------------------
    def finish(self, mod, res, goals, natruns=None):
        obl = dis = 0
        backends = {}
        funcs, inl, stubs, loops = set(), set(), set(), 0
        solver = 0.0
        per = []
        second = {'confirmed': 0, 'unknown': 0, 'sat': 0}
        ensures = 0
        for g in goals:
            r = res.get(g.id) or {}
            if 'error' in r or not r:
                per.append({'goal': g.name, 'error': r.get('error')})
                continue
            n = len(r['obls'])
            ok = [o for o in r['obls'] if o[1] == 'proved']
            if g.name not in self.bounded:
                obl += n
                dis += len(ok)
            for o in ok:
                backends[o[2] or 'simplifier'] = backends.get(o[2] or 'simplifier', 0) + 1
            funcs |= set(g.opt.get('functions', [])) | set(r['called'])
            inl |= set(r['inlined'])
            stubs |= set(r['contracts'])
            loops += r['inv_loops']
            solver += r['solver_s']
            ensures += r['ensures']
            if r.get('second'):
                for k in second:
                    second[k] += r['second'][k]
            per.append({'goal': g.name, 'obligations': n, 'discharged': len(ok), 'wall_s': r['wall_s'], 'loops_by_invariant': r['inv_loops']})
        if mod is not None and not self.violations and (obl == 0 or ensures == 0):
            self.violation(None, 'vacuity', 'no obligations generated', False, {})
        cov = {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (self.prop, self.tier),
            'trusted_base': TRUSTED,
            'explanation': 'weakest-precondition style verification conditions generated from the LLVM IR (clang -O0 + mem2reg) of /repo/src; every goal is a contract over real functions, proved for all inputs',
            'functions_under_contract': sorted(f for f in funcs),
            'functions_verified_inline_in_callers': sorted(inl - funcs),
            'functions_used_by_contract_only': sorted(stubs),
            'goals': per, 'backends': backends, 'solver_s': round(solver, 1),
            'loops_by_inductive_invariant': loops,
            'bounded_goals_not_counted_as_proved': self.bounded,
            'postconditions': ensures,
        }
        if self.thor:
            cov['second_solver_cvc5'] = second
            cov['native_contract_runs'] = {k: (v[0], v[1].get('runs') if isinstance(v[1], dict) else v[1]) for k, v in (natruns or {}).items()}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': ASSUME + self.notes + ['known finding: ' + k for k in self.known_hits], 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        d = os.path.join(HERE, 'evidence')
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            f.write(jdump(ev))
        print('%s %s: %d/%d obligations discharged, %d goals, %d violations, %.1f s' % (self.prop, self.tier, dis, obl, len(goals), len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


TRUSTED = ['clang 18 -O0 front end and opt mem2reg/loop-simplify', 'irv VC generator (/verif/irv), cross-checked by native replay', 'z3, cvc5 (thorough: re-discharged by cvc5)']
ASSUME = [
    'machine arithmetic is modelled exactly (two\'s complement bit-vectors, as gcc/clang -fwrapv would compute); signed overflow is not an obligation unless a contract says so',
    'heap blocks are disjoint, malloc/calloc may fail at any call unless a goal says otherwise; realloc, memcpy, memset, strlen by built-in contracts',
    'objects passed to a contract are laid out as the debug info says and do not alias unless the goal wires them together',
    'single thread; user callbacks do not touch the objects except as the goal states',
]


def replay(path):
    rec = json.load(open(path))
    print(jdump({k: rec[k] for k in ('property', 'goal', 'failed_obligation', 'why')}))
    if not rec.get('goal'):
        return 1
    goals = {g.id: g for g in contracts.load()}
    mod = build.load()
    tmp = tempfile.mkdtemp(prefix='irv_replay_')
    try:
        nat = runner.Native(mod, tmp)
        g = goals[rec['goal']]
        f = rec.get('fail') or {}
        if 'model' in f:
            v, d = nat.replay(g, f)
            if v != 'confirmed':
                v, d = nat.replay(g, f, True)
        else:
            inp = rec.get('inputs') or {}
            st = (inp.get('start') or [{}])[-1].get('start') if inp.get('seed') is None else inp['seed']
            if not isinstance(st, int):
                print('no failing input recorded')
                return 1
            v, d = nat.random(g, st - 1, 2)
        print(v)
        print(jdump(d))
        return 1 if v == 'confirmed' else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if a.list:
        for g in contracts.load():
            print(g.id)
        return 0
    if a.replay:
        return replay(a.replay)
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    tier = a.tier if a.tier in BUDGET else 'quick'
    c = Check(a.prop, tier, seed)
    try:
        return c.run()
    except Exception:
        traceback.print_exc()
        print('internal error of the check')
        c.violation(None, 'internal', traceback.format_exc()[-2000:], False, {})
        return 1


if __name__ == '__main__':
    sys.exit(main())
