"""Discharge of obligations: z3, then cvc5, in worker processes"""
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
from .core import z3, _has_quant


def smt2(ob):
    s = z3.Solver()
    s.add(*ob.hyps)
    s.add(z3.Not(ob.goal))
    return s.to_smt2()


def run_z3(text, rlimit, mbqi=False, seed=1, timeout=None, ematch=True):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('rlimit', rlimit)
    if timeout:
        s.set('timeout', int(timeout * 1000))
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    s.set('smt.random_seed', seed)
    if not mbqi:
        s.set('smt.arith.solver', 6 if seed % 2 else 2)
    s.from_string(text)
    r = s.check()
    return str(r), s.reason_unknown() if str(r) == 'unknown' else ''


def work(job):
    """(index, text, effort) -> (index, verdict, backend, time, reason)"""
    i, text, effort = job
    t0 = time.time()
    last = ''
    # every step has a resource limit that does not depend on the load
    steps = [('z3', dict(rlimit=4000000, seed=1)), ('z3', dict(rlimit=4000000, seed=2)),
             ('z3', dict(rlimit=3000000, mbqi=True, seed=1))]
    if effort:
        steps += [('z3', dict(rlimit=60000000, seed=1)), ('z3', dict(rlimit=60000000, seed=2)),
                  ('cvc5', 60), ('z3', dict(rlimit=30000000, mbqi=True, seed=3))]
    for kind, arg in steps:
        try:
            if kind == 'z3':
                r, why = run_z3(text, timeout=240, **arg)
            else:
                r, why = run_cvc5(text, arg)
        except Exception as e:
            r, why = 'unknown', repr(e)
            if kind == 'z3' and 'error' in why:
                # an ill-formed problem says nothing
                return i, 'error', '', time.time() - t0, why
        if r == 'unsat':
            return i, 'proved', kind, time.time() - t0, ''
        if r == 'sat' and (kind == 'cvc5' or arg.get('mbqi')):
            return i, 'refuted', kind, time.time() - t0, ''
        last = why
    return i, 'unknown', '', time.time() - t0, last


def run_cvc5(text, seconds):
    try:
        import cvc5
    except ImportError:
        return 'unknown', 'no cvc5'
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    s = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    s.setOption('tlimit-per', str(seconds * 1000))
    p = cvc5.InputParser(s)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text, 'x')
    sm = p.getSymbolManager()
    res = 'unknown'
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        out = str(c.invoke(s, sm)).strip()
        if out in ('sat', 'unsat', 'unknown'):
            res = out
    return res, ''


PROCS = 8


def discharge(obligations, effort=0, procs=None, limit=None):
    todo = []
    for i, ob in enumerate(obligations):
        if ob.status == 'proved':
            continue
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            ob.status, ob.backend = 'proved', 'simplifier'
            continue
        todo.append((i, smt2(ob), effort))
    if not todo:
        return
    n = procs or min(PROCS, os.cpu_count() or 1, len(todo))
    if n == 1:
        res = map(work, todo)
    else:
        pool = mp.get_context('fork').Pool(n, maxtasksperchild=50)
        res = pool.imap_unordered(work, todo)
    end = time.time() + limit if limit else None
    res = iter(res)
    while True:
        try:
            i, verdict, backend, t, why = res.next(max(1, end - time.time())) if end and n != 1 else next(res)
        except StopIteration:
            break
        except mp.TimeoutError:
            pool.terminate()
            break
        ob = obligations[i]
        ob.status, ob.backend, ob.time, ob.reason = verdict, backend, t, why
    if n != 1:
        pool.terminate()
        pool.join()
