"""Symbolic execution core: paths, facts, fresh symbols, loop summaries,
obligations.

The real functions of /repo (after the mechanical transformation in xform.py)
run in CPython on symbolic values. A symbolic truth value asked for by the
code forks the path; every path is run again from the start of the contract
with the decisions taken so far (so the code needs no undo). A loop over a
symbolic collection is not unrolled: one generic iteration j is executed, and
its effects are turned into definitions over all iterations.
"""
import sys
import time
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _P not in sys.path:
    sys.path.append(_P)
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class Signal(BaseException):
    """Raised by the engine through the code under test"""


class OutOfSubset(Signal):
    """The code does something the engine has no semantics for."""


class PathEnd(Signal):
    """This exploration of a path is over."""


class Infeasible(PathEnd):
    """The path cannot be taken."""


class EngineLimit(OutOfSubset):
    pass


def I(x):
    """z3 Int of a Python int or z3 term"""
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(int(x))


def simp(t):
    return z3.simplify(t)


_bv = [0]


def bound_var(sort=None, hint='q'):
    """A constant to be bound by a quantifier built right away"""
    _bv[0] += 1
    return z3.Const('{}!{}'.format(hint, _bv[0]), sort if sort is not None else z3.IntSort())


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return z3.BoolVal(True)
    return l[0] if len(l) == 1 else z3.And(*l)


def disj(l):
    l = [x for x in l if not z3.is_false(x)]
    if not l:
        return z3.BoolVal(False)
    return l[0] if len(l) == 1 else z3.Or(*l)


def implies(a, b):
    if z3.is_true(a):
        return b
    return z3.Implies(a, b)


_pc = {}


def _pat_ok(t):
    """May t be used in a pattern?"""
    i = t.get_id()
    r = _pc.get(i)
    if r is not None and r[1].eq(t):
        return r[0]
    if z3.is_quantifier(t):
        ok = False
    elif z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ITE, z3.Z3_OP_EQ,
                                              z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
                                              z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT):
        ok = False
    else:
        ok = all(_pat_ok(c) for c in t.children())
    _pc[i] = (ok, t)
    return ok


def forall(vs, body, patterns=None):
    if not vs:
        return body
    if patterns:
        patterns = [p for p in patterns
                    if all(_pat_ok(x) for x in (p if isinstance(p, (list, tuple)) else (p,)))
                    and all(any(mentions(x, v) for x in (p if isinstance(p, (list, tuple)) else (p,))) for v in vs)]
    if patterns:
        ps = []
        for p in patterns:
            if isinstance(p, (list, tuple)):
                ps.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
            else:
                ps.append(p)
        try:
            return z3.ForAll(vs, body, patterns=ps)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def _consts(term, acc, seen):
    todo = [term]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(i)
            else:
                todo.extend(t.children())
    return acc


def mentions(term, const):
    """Does term contain const (an uninterpreted constant)?"""
    return const.get_id() in _consts(term, set(), set())


def apps_of(term, decl):
    """All applications of decl in term (outside quantifiers)"""
    out, seen, todo = [], set(), [term]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen or z3.is_quantifier(t):
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().eq(decl):
                out.append(t)
            todo.extend(t.children())
    return out


class Fact:
    """A (universally quantified) fact, kept open so that it can be
    generalised over the generic iterations it was established in."""
    __slots__ = ('vars', 'hyps', 'body', 'pats', '_z', 'tag', '_g')

    def __init__(self, body, vars=(), hyps=(), pats=(), tag=''):
        self.vars, self.hyps, self.body = tuple(vars), tuple(hyps), body
        self.pats = tuple(tuple(p) if isinstance(p, (tuple, list)) else (p,) for p in pats)
        self._z = self._g = None
        self.tag = tag

    def z3(self):
        if self._z is None:
            b = implies(conj(self.hyps), self.body)
            self._z = forall(list(self.vars), b, self.pats)
        return self._z

    def ground(self):
        """The symbols of this fact if it has no quantifier, or False"""
        if self._g is None:
            self._g = not self.vars and not _has_quant(self.z3()) and _symbols(self.z3())
        return self._g

    def subst(self, *subs):
        f = lambda t: z3.substitute(t, *subs)
        return Fact(f(self.body), self.vars, tuple(f(h) for h in self.hyps),
                    [tuple(f(x) for x in p) for p in self.pats], self.tag)


class BodyPath:
    """One path through the body of a loop"""
    def __init__(self):
        self.trace = []          # ('dec', lit) | ('fact', Fact)
        self.effects = []        # (kind, uid, ...)
        self.carried = None      # {name: value at the end}
        self.exit = None

    def guard(self):
        return [l for k, l in self.trace if k == 'dec']


class LoopRec:
    """What one loop (at one place of one path) does"""
    def __init__(self, tag, n, j, state):
        self.tag, self.n, self.j = tag, n, j
        self.state = state
        self.normal, self.exits = [], []       # [BodyPath]


class Path:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.facts = []          # [Fact]
        self.fact_ids = set()
        self.ctx = []            # [(j, n)] generic iterations we are in
        self.names = {}
        self.space = ''
        self.uid = {}
        self.frames = []         # active loop body frames (BodyPath)
        self.pending = []        # new alternatives found on this path
        self.epoch = 0
        self.log = {}
        self.completed = False
        self.stop = None         # loop key whose body is being probed
        self.memo = {}


class Obligation:
    def __init__(self, contract, name, hyps, goal, path):
        self.contract, self.name, self.goal, self.path = contract, name, goal, path
        self.hyps = hyps
        self.status = None
        self.backend = None
        self.time = 0.0
        self.reason = ''


class Engine:
    FORK_RLIMIT = 300000
    MAX_PATHS = 3000

    def __init__(self, contract_name=''):
        self.contract = contract_name
        self.path = None
        self.recs = {}
        self.obligations = []
        self._obkeys = set()
        self.npaths = 0
        self.notes = set()        # assumptions used
        self.functions = set()    # real functions executed
        self.fork_checks = 0
        self.reached = set()      # cover points
        self._loop_ids = {}
        self._probe = None
        self.scopes = {}          # name -> were its suppositions ever possible?
        self.started, self.limit = None, 0
        self.ends = []            # hypotheses at the end of complete paths

    def scope_end(self, name, p):
        """The end of a scope was reached: were its suppositions possible?"""
        if self.scopes.get(name) is True or len(p.frames) > 0 and p.stop is None:
            return
        s = z3.Solver()
        s.set('rlimit', 3000000)
        s.set('timeout', 20000)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.add(*self.hyps())
        self.scopes[name] = s.check() != z3.unsat

    def vacuous(self):
        """Are the assumptions of all complete paths contradictory?"""
        for h in sorted(self.ends, key=len):
            s = z3.Solver()
            s.set('rlimit', 3000000)
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            s.add(*h)
            if s.check() != z3.unsat:
                return False
        return True

    # ------------------------------------------------------------- naming

    def name(self, hint):
        p = self.path
        k = p.space + hint
        n = p.names.get(k, 0)
        p.names[k] = n + 1
        return '{}{}'.format(k, '' if n == 0 else '.%d' % n)

    def new_uid(self):
        p = self.path
        if p is None:
            return 'static'
        n = p.uid[p.space] = p.uid.get(p.space, 0) + 1
        return p.space + '#%d' % n

    @property
    def epoch(self):
        return self.path.epoch if self.path is not None else 0

    def fresh_fn(self, hint, argsorts, ret):
        """A fresh function, implicitly applied to the generic iterations we
        are in. Returns a Python callable on z3 terms, with .decl/.ctx."""
        ctx = [j for j, n in self.path.ctx]
        nm = self.name(hint)
        if not ctx and not argsorts:
            c = z3.Const(nm, ret)
            return lambda: c
        f = z3.Function(nm, *([z3.IntSort()] * len(ctx) + list(argsorts) + [ret]))
        return FreshFn(f, ctx)

    def fresh(self, hint, sort=None):
        return self.fresh_fn(hint, [], sort if sort is not None else z3.IntSort())()

    # -------------------------------------------------------------- facts

    def fact(self, body, vars=(), hyps=(), pats=(), tag=''):
        f = body if isinstance(body, Fact) else Fact(body, vars, hyps, pats, tag)
        if z3.is_true(f.body):
            return
        p = self.path
        i = f.z3().get_id()
        if i in p.fact_ids:
            return
        p.fact_ids.add(i)
        p.facts.append(f)
        for fr in p.frames:
            fr.trace.append(('fact', f))

    def forall_range(self, hint, n, fn, pats=None, lo=0, tag=''):
        """Assume fn(i) for all lo <= i < n"""
        q = bound_var(hint=hint)
        body = fn(q)
        ps = pats(q) if callable(pats) else ()
        self.fact(body, [q], [q >= I(lo), q < I(n)], ps, tag)

    def hyps(self):
        return [f.z3() for f in self.path.facts]

    def ground_hyps(self):
        return [f.z3() for f in self.path.facts if f.ground() is not False]

    def _check(self, extra, rlimit, ground=False):
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('timeout', 20000)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.add(*(self.ground_hyps() if ground else self.hyps()))
        s.add(*extra)
        self.fork_checks += 1
        self.tick()
        return s.check()

    def tick(self):
        """Exploration has a time limit (a shorter one once something that
        cannot be proved was found); what was found until then counts."""
        if self.started is not None and self.fork_checks % 10 == 0:
            t = time.time() - self.started
            if t > self.limit or t > self.limit / 4 and any(z3.is_false(o.goal) for o in self.obligations):
                raise EngineLimit('exploration stopped after %d s' % t)

    def _check_near(self, cond):
        """Does cond follow from the ground facts about its own symbols?"""
        sy = _symbols(cond)
        near = [f.z3() for f in self.path.facts if f.ground() is not False and f.ground() <= sy]
        if not near:
            return False
        s = z3.Solver()
        s.set('rlimit', 50000)
        s.set('auto_config', False)
        s.add(*near)
        s.add(z3.Not(cond))
        return s.check() == z3.unsat

    def implied(self, cond, rlimit=None, quick=False):
        """Is cond certainly true on this path? (False = don't know)"""
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = ('implied', cond.get_id(), len(self.path.facts))
        m = self.path.memo
        if key in m:
            return m[key][0]
        r = self._check_near(cond) or \
            self._check([z3.Not(cond)], rlimit or self.FORK_RLIMIT, ground=True) == z3.unsat
        if not r and not quick:
            r = self._check([z3.Not(cond)], rlimit or self.FORK_RLIMIT) == z3.unsat
        m[key] = (r, cond)
        return r

    # ------------------------------------------------------------ forking

    def _decide(self, options):
        """Take one of several labelled alternatives [(label, literal)]."""
        p = self.path
        pos = len(p.taken)
        if pos < len(p.prefix):
            label = p.prefix[pos]
            for l, lit in options:
                if l == label:
                    break
            else:
                raise OutOfSubset('paths differ between runs')
        else:
            feas = []
            for l, lit in options:
                if self._check([lit], self.FORK_RLIMIT) != z3.unsat:
                    feas.append((l, lit))
            if not feas:
                raise Infeasible()
            for l, lit in feas[1:]:
                p.pending.append(p.taken + [l])
            label, lit = feas[0]
        p.taken.append(label)
        f = Fact(lit)
        p.facts.append(f)
        for fr in p.frames:
            fr.trace.append(('dec', lit))
        return label

    def fork(self, cond):
        """The truth value of a symbolic condition on this path"""
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not _has_quant(cond):
            if self._check_near(cond):
                return True
            if self._check_near(z3.Not(cond)):
                return False
        if self.path.frames and _has_quant(cond):
            # conditions of paths through loop bodies are kept quantifier-free
            b = self.fresh('cond', z3.BoolSort())
            self.fact(z3.And(z3.Implies(b, cond), z3.Implies(z3.Not(b), z3.Not(cond))))
            cond = b
        return self._decide([('T', cond), ('F', z3.Not(cond))]) == 'T'

    def choose(self, hint='choice'):
        """A nondeterministic choice by the environment"""
        hint = 'choose_' + ''.join(c if c.isalnum() else '_' for c in hint)
        return self.fork(self.fresh(hint, z3.BoolSort()))

    # ---------------------------------------------------------- exploring

    def explore(self, fn):
        """Run a contract on all its paths"""
        work = [[]]
        while work:
            prefix = work.pop()
            self.npaths += 1
            if self.npaths > self.MAX_PATHS:
                raise EngineLimit('too many paths')
            p = self._run(fn, prefix)
            work.extend(p.pending)
            if p.completed and len(self.ends) < 40:
                self.ends.append([f.z3() for f in p.facts])

    def _run(self, fn, prefix, stop=None):
        p = Path(prefix)
        p.stop = stop
        saved, self.path = self.path, p
        self._fn = fn
        try:
            fn(self)
            p.completed = True
        except PathEnd:
            pass
        finally:
            self.path = saved
        return p

    # ------------------------------------------------------- obligations

    def prove(self, name, goal, extra=()):
        """Record a proof obligation: goal follows from the path's facts"""
        p = self.path
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        # the decisions taken determine everything up to here
        n = p.proved = p.__dict__.get('proved', {})
        n[name] = n.get(name, 0) + 1
        key = (name, n[name], p.space, tuple(p.taken))
        if key in self._obkeys:
            return
        self._obkeys.add(key)
        hyps = self.hyps() + list(extra)
        self.obligations.append(Obligation(self.contract, name, hyps, goal, '/'.join(p.taken)))

    def cover(self, name):
        self.reached.add(name)

    # -------------------------------------------------------------- loops

    def loop_tag(self, key):
        return self._loop_ids.setdefault(key, len(self._loop_ids) + 1)

    def summarise(self, key, n, state):
        """Explore the body of the loop identified by key (the decisions that
        lead to it)."""
        p = self.path
        tag = self.loop_tag(key)
        rec = LoopRec(tag, n, z3.Int('j@%d' % tag), state)
        work = [list(p.taken)]
        count = 0
        fn = self._fn
        while work:
            prefix = work.pop()
            count += 1
            if count > 200:
                raise EngineLimit('too many paths in a loop body')
            self._probe = None
            q = self._run(fn, prefix, stop=key)
            work.extend(q.pending)
            bp, self._probe = self._probe, None
            if bp is None:
                continue              # infeasible
            (rec.exits if bp.exit else rec.normal).append(bp)
        return rec


class FreshFn:
    def __init__(self, decl, ctx):
        self.decl, self.ctx = decl, list(ctx)

    def __call__(self, *a):
        return self.decl(*(self.ctx + [I(x) if not isinstance(x, z3.ExprRef) else x for x in a]))


_hq = {}


_sy = {}


def _symbols(t):
    """The uninterpreted constants and functions of a term"""
    i = t.get_id()
    r = _sy.get(i)
    if r is not None and r[1].eq(t):
        return r[0]
    seen, todo, res = set(), [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            todo.append(u.body())
        elif z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                res.add(u.decl().name())
            todo.extend(u.children())
    res = frozenset(res)
    _sy[i] = (res, t)
    return res


def _has_quant(t):
    i = t.get_id()
    r = _hq.get(i)
    if r is not None and r[1].eq(t):
        return r[0]
    seen, todo, res = set(), [t], False
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            res = True
            break
        todo.extend(u.children())
    _hq[i] = (res, t)
    return res


#: the engine in use (one per process at a time)
class _Current:
    eng = None


current = _Current()


def E():
    if current.eng is None:
        raise RuntimeError('no engine')
    return current.eng
