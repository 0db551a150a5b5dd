"""Verify the contracts of one property: run as
    python -m vc.run PROP TIER OUT.json
in a process of its own (the modules under test are loaded transformed)."""
import importlib
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings


def main(prop, tier, out, only=None):
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) \
        if False else None
    from . import core, xform, bshim, npshim, api, solve
    root = os.environ.get('KD_REPO', '/repo')
    xform.Loader.runtime = bshim.runtime
    xform.Loader.builtins = bshim.BUILTINS
    bshim.MODULES['numpy'] = npshim.NPM
    sys.meta_path.insert(0, xform.Finder(root))
    sys.dont_write_bytecode = True
    for f in sorted(os.listdir(os.path.join(root, 'karabo_data'))):
        if f.endswith('.py') and f not in ('__init__.py',):
            try:
                importlib.import_module('karabo_data.' + f[:-3])
            except ImportError:
                pass
    importlib.import_module('karabo_data.geometry2')
    here = os.path.join(os.path.dirname(__file__), 'contracts')
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('vc.contracts.' + f[:-3])
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    res = {'property': prop, 'contracts': [], 'notes': []}
    todo = [c for c in api.CONTRACTS.get(prop, []) if not only or c[0] in only]
    end = float(os.environ.get('VC_DEADLINE', time.time() + 900))
    solve.PROCS = 8 if len(todo) == 1 else 4
    notes = set()
    done, running, queue = {}, {}, list(enumerate(todo))
    while queue or running:
        while queue and len(running) < 4:
            i, (nm, functions, f, assumes) = queue.pop(0)
            running[i] = start_contract(nm, functions, f, assumes, tier)
        time.sleep(0.02)
        for i, (pid, path) in list(running.items()):
            r, st = os.waitpid(pid, os.WNOHANG)
            late = time.time() > end + 15
            if r == 0 and not late:
                continue
            if r == 0:
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            del running[i]
            nm, functions, f, assumes = todo[i]
            try:
                with open(path) as fh:
                    c, n = json.load(fh)
            except (OSError, ValueError):
                c, n = {'name': nm, 'functions': list(functions), 'assumes': list(assumes), 'paths': 0,
                        'obligations': [], 'undecided': 'did not finish' if late else 'engine died (%s)' % st,
                        'explore_s': 0, 'solve_s': 0, 'covered': [], 'fork_checks': 0}, []
            if os.path.exists(path):
                os.unlink(path)
            notes |= set(n)
            done[i] = c
            if ('-v' in sys.argv or '-vv' in sys.argv):
                show(c)
    res['contracts'] = [done[i] for i in sorted(done)]
    res['notes'] = sorted(notes)
    res['seconds'] = time.time() - t0
    with open(out, 'w') as fh:
        json.dump(res, fh, indent=1)


def start_contract(nm, functions, f, assumes, tier):
    """Each contract in a process of its own: what it yields does not depend
    on the others"""
    fd, path = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid, path
    code = 1
    try:
        os.setpgid(0, 0)
        notes = set()
        c = run_contract(nm, functions, f, assumes, tier, notes)
        with open(path, 'w') as fh:
            json.dump([c, sorted(notes)], fh)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def show(c):
    print('%-40s paths %d, %d obligations, %.1f s explore, %.1f s solve%s' % (
        c['name'], c['paths'], len(c['obligations']), c['explore_s'], c['solve_s'],
        ' UNDECIDED: ' + c['undecided'] if c['undecided'] else ''))
    for o in c['obligations']:
        if o['status'] != 'proved' or '-vv' in sys.argv:
            print('    %-9s %-8s %6.2fs %s  %s' % (o['status'], o['backend'], o['time'], o['name'], o['reason']))


def z3false(o):
    from .core import z3
    return z3.is_false(z3.simplify(o.goal))


def run_contract(nm, functions, f, assumes, tier, notes):
    from . import core, solve
    eng = core.Engine(nm)
    core.current.eng = eng
    und = ''
    t0 = time.time()
    eng.started, eng.limit = t0, 0.6 * (float(os.environ.get('VC_DEADLINE', t0 + 900)) - t0)
    try:
        eng.explore(f)
    except core.OutOfSubset as e:
        und = '%s: %s' % (type(e).__name__, e)
        tb = traceback.extract_tb(e.__traceback__)
        kd = [x for x in tb if 'karabo_data' in x.filename and '/vc/' not in x.filename]
        if kd:
            und += ' at %s:%d' % (kd[-1].name, kd[-1].lineno)
        if ('-v' in sys.argv or '-vv' in sys.argv):
            traceback.print_exc()
    except RecursionError as e:
        und = 'RecursionError'
    except Exception as e:
        und = 'engine: %r' % e
        if ('-v' in sys.argv or '-vv' in sys.argv):
            traceback.print_exc()
    if not und and eng.ends and eng.vacuous():
        und = 'the assumptions are contradictory on every path'
    if not und and not any(z3false(o) for o in eng.obligations):
        for nm_, ok in sorted(eng.scopes.items()):
            if not ok:
                und = 'contradictory suppositions in %s' % nm_
    if not und and not eng.ends and not any(z3false(o) for o in eng.obligations):
        und = 'no path reaches the end of the contract'
    t1 = time.time()
    solve.discharge(eng.obligations, 0)
    # more effort for what is left, until enough has definitely failed
    bad = [o for o in eng.obligations if o.status == 'unknown']
    cap = 8 if tier != 'thorough' else 32
    while bad:
        left = float(os.environ.get('VC_DEADLINE', time.time() + 900)) - time.time()
        if left < 60 or any(o.status in ('refuted', 'error') for o in eng.obligations):
            break
        some, bad = bad[:cap], bad[cap:]
        solve.discharge(some, 1, limit=left - 20)
        if any(o.status != 'proved' for o in some):
            break
    for o in bad:
        o.reason = 'only tried with little effort; ' + o.reason
    t2 = time.time()
    errors = [o for o in eng.obligations if o.status == 'error']
    if errors and not und:
        und = 'the solver rejects an obligation: ' + errors[0].reason
    notes |= eng.notes
    core.current.eng = None
    names = {}
    for o in eng.obligations:
        names.setdefault(o.name, []).append(o)
    dump = os.environ.get('VC_DUMP')
    if dump:
        for i, o in enumerate(eng.obligations):
            if o.status != 'proved':
                with open(os.path.join(dump, '%s.%d.smt2' % (nm, i)), 'w') as fh:
                    fh.write('; %s\n; %s\n' % (o.name, o.path) + solve.smt2(o))
    return {
        'name': nm, 'functions': list(functions), 'assumes': list(assumes), 'paths': eng.npaths,
        'obligations': [{'name': o.name, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 3),
                         'reason': o.reason, 'path': o.path} for o in eng.obligations],
        'undecided': und, 'explore_s': round(t1 - t0, 2), 'solve_s': round(t2 - t1, 2),
        'covered': sorted(eng.reached), 'fork_checks': eng.fork_checks,
    }


if __name__ == '__main__':
    import threading
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    only = os.environ.get('VC_ONLY')
    err = []

    def go():
        try:
            main(sys.argv[1], sys.argv[2], sys.argv[3], only.split(',') if only else None)
        except BaseException:
            traceback.print_exc()
            err.append(1)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(1 if err else 0)
