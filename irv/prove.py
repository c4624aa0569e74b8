"""Discharging obligations in parallel worker processes."""
import os
import multiprocessing as mp
import time
import sys
import threading
from .terms import *
from . import smt


def formula(vc, o):
    return vc.facts[:o.nf] + [AND(*o.pc), NOT(o.goal)]


_G = {}


def _work(i):
    vc, ms = _G['vc'], _G['ms']
    o = vc.obls[i]
    t = time.time()
    try:
        r, m, be = smt.decide(formula(vc, o), ms)
    except Exception as e:
        r, m, be = 'unknown', None, 'error:%r' % (e,)
    md = None
    if r == 'sat' and m is not None:
        md = (m.vars, m.sels, m.ufs)
    return i, r, md, be, time.time() - t


def discharge(vc, ms=30000, jobs=8, stop_after=None):
    todo = [i for i, o in enumerate(vc.obls) if o.status is None]
    # identical formulas once
    _G['vc'] = vc
    _G['ms'] = ms
    res = []
    if not todo:
        return
    seen = {}
    uniq = []
    for i in todo:
        o = vc.obls[i]
        k = (o.nf, AND(*o.pc).id, o.goal.id)
        if k in seen:
            seen[k].append(i)
        else:
            seen[k] = [i]
            uniq.append(i)
    if len(uniq) == 1 or jobs == 1:
        it = map(_work, uniq)
        pool = None
    else:
        pool = mp.get_context('fork').Pool(min(jobs, len(uniq)))
        it = pool.imap_unordered(_work, uniq)
    bad = 0
    for i, r, md, be, t in it:
        o = vc.obls[i]
        k = (o.nf, AND(*o.pc).id, o.goal.id)
        for j in seen[k]:
            q = vc.obls[j]
            q.time = t if j == i else 0
            q.backend = be
            if r == 'unsat':
                q.status = 'proved'
            elif r == 'sat':
                q.status = 'refuted'
                q.model = smt.Model(*md) if md else None
            else:
                q.status = 'unknown'
        if r != 'unsat':
            bad += 1
            if stop_after and bad >= stop_after:
                break
    if pool:
        pool.terminate()
        pool.join()


def big_stack(fn, *a):
    """run with a deep stack"""
    out = {}

    def go():
        try:
            out['r'] = fn(*a)
        except BaseException as e:
            out['e'] = e
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'e' in out:
        raise out['e']
    return out['r']
