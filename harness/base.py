"""Runner for the executable contracts (bounded part of every check)."""
import os, sys, json, time, random, traceback, importlib, contextlib, io, warnings, signal, threading

os.environ.setdefault('MPLBACKEND', 'agg')
sys.dont_write_bytecode = True
REPO = os.environ.get('KD_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Fail(Exception):
    """An executable contract does not hold."""


def require(cond, msg, *args):
    if not cond:
        raise Fail(msg.format(*args) if args else msg)


def raises(exc, fn, msg):
    """fn must raise exc (and nothing else)."""
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Fail('{}: expected {}, got {!r}'.format(msg, getattr(exc, '__name__', exc), e))
    raise Fail('{}: expected {}, nothing raised'.format(msg, getattr(exc, '__name__', exc)))


CASE_TIMEOUT = 120


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run_case(prop, part, index, seed):
    """Run one case. Returns (status, description, message)."""
    from . import model
    mod = importlib.import_module('harness.' + prop.lower())
    fn = dict((p[0], p[1]) for p in mod.PARTS)[part]
    rng = random.Random('{}:{}:{}:{}'.format(seed, prop, part, index))
    rng.index = index
    model._counter = model.itertools.count(1)
    desc = {}
    out = io.StringIO()
    with model.Scratch() as scratch, warnings.catch_warnings(), \
            contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        warnings.simplefilter('ignore')
        cwd = os.getcwd()
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(CASE_TIMEOUT)
        try:
            r = fn(rng, scratch, desc)
            return ('skip' if r == 'skip' else 'ok'), desc, None
        except Fail as e:
            return 'fail', desc, str(e)
        except CaseTimeout:
            return 'fail', desc, 'did not finish within {} s'.format(CASE_TIMEOUT)
        except Exception as e:
            return 'fail', desc, 'unexpected {}: {}\n{}'.format(
                type(e).__name__, e, traceback.format_exc(limit=-6))
        finally:
            signal.alarm(0)
            os.chdir(cwd)


def _worker(args):
    prop, part, lo, hi, seed, deadline = args
    res = []
    for i in range(lo, hi):
        if time.time() > deadline:
            res.append((part, i, 'timeout', {}, None))
            continue
        st, desc, msg = run_case(prop, part, i, seed)
        res.append((part, i, st, desc if (st == 'fail' or i < 2) else
                    {'k': desc.get('k')}, msg))
    return res


def run_property(prop, seed, tier, budget):
    """Run all parts. Returns dict(evaluations, nontrivial, failures, samples)."""
    import multiprocessing as mp
    mod = importlib.import_module('harness.' + prop.lower())
    deadline = time.time() + budget
    jobs = []
    mult = 1 if tier == 'quick' else 12
    for p in mod.PARTS:
        name, _, n = p[0], p[1], p[2]
        n = n if (len(p) > 3 and p[3] == 'fixed') else n * mult
        step = max(1, min(25, n // 16 or 1))
        for lo in range(0, n, step):
            jobs.append((prop, name, lo, min(n, lo + step), seed, deadline))
    # interleave the parts
    jobs.sort(key=lambda j: (j[2], j[1]))
    out = dict(evaluations=0, distinct_nontrivial=0, timeouts=0, failures=[], samples=[], parts={})
    def collect(res):
        for part, i, st, desc, msg in res:
            if st == 'timeout':
                out['timeouts'] += 1
                continue
            out['evaluations'] += 1
            out['parts'].setdefault(part, 0)
            if st == 'ok':
                out['parts'][part] += 1
                out['distinct_nontrivial'] += 1
                if i < 1:
                    out['samples'].append({'part': part, 'index': i, 'case': desc})
            if st == 'fail':
                out['failures'].append(dict(part=part, index=i, case=desc, message=msg))

    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    ctx = mp.get_context('fork')
    lost = []
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=ctx) as pool:
        futs = {pool.submit(_worker, j): j for j in jobs}
        for f in as_completed(futs):
            try:
                collect(f.result())
            except BrokenProcessPool:
                lost.append(futs[f])
    # A process died: find the case by running the lost ones on their own
    for j in lost:
        for i in range(j[2], j[3]):
            if out['failures'] and any(f['message'].startswith('the process') for f in out['failures']):
                break
            with ProcessPoolExecutor(1, mp_context=ctx) as pool:
                try:
                    collect(pool.submit(_worker, (j[0], j[1], i, i + 1, j[4], j[5])).result())
                except BrokenProcessPool:
                    out['failures'].append(dict(part=j[1], index=i, case={}, message='the process running this case died'))
    out['failures'].sort(key=lambda f: (f['part'], f['index']))
    return out
