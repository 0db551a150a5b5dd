"""What contracts use"""
import contextlib
import importlib
import sys
import numpy as np
from .core import *
from .values import *
from . import values as V
from . import arr as A
from .arr import Arr, new
from .containers import *
from .containers import FnSeq, ListSeq, LoopSeq, elem_term, sym_eq, set_seqs
from . import psum
from .npshim import NPM, np_array

ISORT, RSORT, BSORT = z3.IntSort(), z3.RealSort(), z3.BoolSort()
u8 = np.dtype('u8')


def load(name):
    return importlib.import_module('karabo_data.' + name if name else 'karabo_data')


@contextlib.contextmanager
def patched(obj, **kw):
    missing = object()
    old = {}
    for k, v in kw.items():
        old[k] = obj.__dict__.get(k, missing) if hasattr(obj, '__dict__') else missing
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is missing:
                delattr(obj, k)
            else:
                setattr(obj, k, v)


def sint(name, lo=None, hi=None, dt=None):
    eng = E()
    t = eng.fresh(name)
    if lo is not None:
        eng.fact(t >= I(V.term(lo) if isinstance(lo, Sym) else lo))
    if hi is not None:
        eng.fact(t < I(V.term(hi) if isinstance(hi, Sym) else hi))
    return mk_int(t, np.dtype(dt) if dt is not None else None)


def sreal(name):
    return SReal(E().fresh(name, RSORT))


def sbool(name):
    return mk_bool(E().fresh(name, BSORT))


def fact(t, *a, **k):
    E().fact(t, *a, **k)


def arr_of(f, n, dt):
    """1-D array of element function f"""
    return new((dim(n),), np.dtype(dt), lambda idx: f(I(idx[0])))


def sarr(name, n, dt, lo=None, hi=None):
    """A 1-D array of n arbitrary elements"""
    eng = E()
    dt = np.dtype(dt)
    sort = {'b': BSORT, 'f': RSORT}.get(dt.kind, ISORT)
    f = eng.fresh_fn(name, [ISORT], sort)
    if dt.kind == 'u':
        lo, hi = (0 if lo is None else lo), (2 ** (8 * dt.itemsize) if hi is None else hi)
    if lo is not None:
        q = bound_var(hint='q')
        fact(f(q) >= lo, [q], (), [(f(q),)])
    if hi is not None:
        q = bound_var(hint='q')
        fact(f(q) < hi, [q], (), [(f(q),)])
    a = arr_of(f, n, dt)
    a.elem_fn = f
    return a


def increasing(f, n, strict=True):
    q, r = bound_var(hint='q'), bound_var(hint='r')
    fact(f(q) < f(r) if strict else f(q) <= f(r), [q, r], [q >= 0, q < r, r < I(n)], [(f(q), f(r))])


def forall_ix(n, fn, lo=0, hint='q'):
    """Goal: fn(i) for all lo <= i < n, with a fresh constant for i"""
    k = z3.Int(E().name('sk_' + hint))
    return z3.Implies(z3.And(k >= I(lo), k < I(n)), fn(k))


class _Scope:
    def __init__(self):
        self.conds, self.ids, self.sk = [], set(), []


@contextlib.contextmanager
def scope(name=''):
    """What is supposed here (suppose, skolem) is forgotten at the end; what
    was learnt meanwhile holds under those suppositions from then on."""
    eng = E()
    p = eng.path
    sc = _Scope()
    scopes = p.__dict__.setdefault('scopes', [])
    scopes.append(sc)
    n0 = len(p.facts)
    depth = len(p.frames)
    tr0 = [len(fr.trace) for fr in p.frames]
    ps0, keep0 = dict(p.__dict__.get('psmemo', {})), len(p.__dict__.get('pskeep', []))
    ids0 = set(p.fact_ids)
    try:
        yield sc
        eng.scope_end(name or '%s:%d' % _caller(), p)
    except Infeasible:
        if eng.path is not p or len(p.frames) != depth:
            raise
    scopes.remove(sc)
    new_facts = p.facts[n0:]
    del p.facts[n0:]
    p.fact_ids = ids0
    p.psmemo = ps0
    del p.__dict__.setdefault('pskeep', [])[keep0:]
    for k in [k for k in p.memo if k[0] == 'implied']:
        del p.memo[k]
    for fr, t in zip(p.frames, tr0):
        if any(k == 'dec' for k, f in fr.trace[t:]):
            raise OutOfSubset('a decision about a supposition in a loop')
        del fr.trace[t:]
    skids = {k.get_id() for k in sc.sk}
    for k in [k for k, v in p.__dict__.get('bounds', {}).items() if k in skids or v[1] is None]:
        del p.bounds[k]
    for f in new_facts:
        # nothing later refers to the constants of the scope
        if id(f) not in sc.ids and not (skids and (mentions(f.body, skids) or any(mentions(h, skids) for h in f.hyps))):
            eng.fact(Fact(f.body, f.vars, tuple(sc.conds) + f.hyps, f.pats, f.tag))


def mentions(t, ids):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


def _caller():
    f = sys._getframe(1)
    while f and ('contextlib' in f.f_code.co_filename or f.f_code.co_filename.endswith('vc/api.py')):
        f = f.f_back
    return (f.f_code.co_name, f.f_lineno) if f else ('', 0)


def suppose(cond):
    """Suppose cond until the end of the scope"""
    p = E().path
    if not p.__dict__.get('scopes'):
        raise OutOfSubset('engine: suppose outside a scope')
    sc = p.scopes[-1]
    cond = z3.BoolVal(cond) if isinstance(cond, bool) else V.term(cond)
    f = Fact(cond)
    sc.conds.append(cond)
    sc.ids.add(id(f))
    sc.__dict__.setdefault('keep', []).append(f)
    p.facts.append(f)
    for fr in p.frames:
        fr.trace.append(('fact', f))


def skolem(hint, lo=0, hi=None):
    """An arbitrary index within bounds, supposed to exist"""
    k = E().fresh('any_' + hint)
    p = E().path
    if p.__dict__.get('scopes'):
        p.scopes[-1].sk.append(k)
        if isinstance(lo, int) and isinstance(hi, int) and lo < hi:
            p.__dict__.setdefault('bounds', {})[k.get_id()] = (lo, hi - 1, k)
    suppose(k >= I(lo) if hi is None else z3.And(k >= I(lo), k < I(hi)))
    return k


def at(a, *idx):
    """Element of an array as a term"""
    a = A.to_arr(a)
    return a.elem(*idx)


def n_of(a, axis=0):
    if isinstance(a, Arr):
        return I(a._shape[axis])
    if isinstance(a, np.ndarray):
        return I(a.shape[axis])
    if isinstance(a, VList):
        return I(as_seq(a).n)
    return I(len(a))


def T(x):
    return V.term(x)


def prove(name, goal):
    if isinstance(goal, bool):
        E().prove(name, z3.BoolVal(goal))
        if not goal:
            raise PathEnd()     # the rest would be about something else
    else:
        E().prove(name, V.term(goal))


def prove_with(name, goal, eqs):
    """Prove goal after rewriting by equations (each an obligation, too)"""
    for l, r in eqs:
        prove(name + ' (equation)', l == r)
    sub = [(simp(l), r) for l, r in eqs]
    prove(name, simp(z3.substitute(simp(goal), *sub)))


def have(name, goal):
    """Prove, and use from then on"""
    prove(name, goal)
    fact(z3.BoolVal(goal) if isinstance(goal, bool) else V.term(goal))


def mention(*ts):
    """Make terms known to the solver (instances of lemmas are found by
    terms); says nothing about them"""
    for t in ts:
        fact(z3.Function('known', t.sort(), BSORT)(t))


def ranks(t, i):
    """Make known to the solver the places of position i in the enumerations
    (of non-zero elements) which term t looks into"""
    seen, todo, out = set(), [t], []
    reg = E().__dict__.get('rank_of', {})
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        todo += x.children()
        if z3.is_app(x) and x.decl().name() in reg:
            rk = reg[x.decl().name()](*(x.children()[:-1] + [i]))
            ix = x.decl()(*(x.children()[:-1] + [rk]))
            mention(rk, ix)
            out.append(rk)
    return out


def induct(name, lo, hi, P, nvars=0, insts=None, pats=None):
    """Lemma by induction: P(i, *vs) for all lo <= i < hi and all vs. Base and
    step are obligations; the step may use P(i, ...) for the given instances
    of vs. The lemma is assumed from then on."""
    eng = E()
    vs = [eng.fresh('ind_v') for _ in range(nvars)]
    i = eng.fresh('ind_i')
    lo = I(lo)
    bounded = hi is not None
    hi = I(hi) if bounded else eng.fresh('unbounded')
    # hi=None: the bound is arbitrary, so the lemma holds for all i
    prove(name + ' (base)', z3.Implies(lo < hi, P(lo, *vs)))
    inst = insts(i, *vs) if insts else [tuple(vs)]
    hyps = [i >= lo, i + 1 < hi] + [P(i, *(x if isinstance(x, tuple) else (x,))) for x in inst]
    eng.prove(name + ' (step)', P(i + 1, *vs), extra=hyps)
    q = bound_var(hint='li')
    qs = [bound_var(hint='lv') for _ in range(nvars)]
    top = [q < hi] if bounded else []
    fact(P(q, *qs), [q] + qs, [q >= lo] + top, pats(q, *qs) if pats else ())

    def use(i, *vs):
        """An instance of the lemma"""
        fact(z3.Implies(z3.And(I(i) >= lo, *([I(i) < hi] if bounded else [])), P(I(i), *[I(v) for v in vs])))
    return use


def check_genuine(e, tb):
    """An exception coming out of the engine itself, and not on purpose, says
    nothing about the code"""
    last = tb[-1]
    if isinstance(e, RecursionError) or '/z3/' in last.filename:
        raise OutOfSubset('engine: %r' % e) from e
    if '/vc/' in last.filename and not (last.line or '').strip().startswith('raise '):
        raise OutOfSubset('engine: %r at %s:%d' % (e, last.filename, last.lineno)) from e
    if isinstance(e, (AttributeError, TypeError)) and any(
            "'%s'" % n in str(e) for n in ('Arr', 'SInt', 'SReal', 'SBool', 'VList', 'VSet', 'VDict', 'SymDS', 'SymFile',
                                          'H5', 'RangeSeq', 'FnSeq', '_Iter', 'SAny', 'Dead', 'ZipSeq')):
        raise OutOfSubset('engine: %r' % e) from e


@contextlib.contextmanager
def no_exception(name):
    """The code must not raise"""
    try:
        yield
    except Signal:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        check_genuine(e, tb)
        where = [f for f in tb if 'karabo_data' in f.filename and '/vc/' not in f.filename]
        w = '%s:%d' % (where[-1].name, where[-1].lineno) if where else ''
        E().prove('%s: no %s at %s' % (name, type(e).__name__, w), z3.BoolVal(False))
        E().path.log['raised'] = repr(e)
        if ('-v' in sys.argv or '-vv' in sys.argv):
            traceback.print_exc()
        raise PathEnd()


CONTRACTS = {}


def contract(cid, *functions, assumes=()):
    """Declare a contract of the given functions for properties cid"""
    def deco(f):
        for c in cid.split():
            CONTRACTS.setdefault(c, []).append((f.__name__, functions, f, assumes))
        return f
    return deco
