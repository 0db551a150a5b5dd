"""Loops over symbolic sequences"""
from .core import *
from .core import _has_quant, _consts
from .values import *
from . import values as V
from . import psum


def vsubst(v, sub, memo=None):
    """Substitute in a value recorded in a generic iteration"""
    import copy
    if memo is None:
        memo = {}
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, Sym):
        if hasattr(v, '_subst'):
            r = v._subst(sub)
        else:
            raise OutOfSubset('cannot carry a %s out of a loop' % type(v).__name__)
    elif hasattr(v, '_subst'):
        r = v._subst(sub)
    elif type(v) is tuple:
        r = tuple(vsubst(x, sub, memo) for x in v)
    elif type(v) is slice:
        r = slice(vsubst(v.start, sub, memo), vsubst(v.stop, sub, memo), vsubst(v.step, sub, memo))
    elif isinstance(v, (int, float, str, bytes, bool, type(None), np.generic, np.dtype, np.ndarray, type, frozenset)):
        return v
    elif isinstance(v, list):
        return [vsubst(x, sub, memo) for x in v]
    elif isinstance(v, dict):
        return {k: vsubst(x, sub, memo) for k, x in v.items()}
    elif callable(v) and not hasattr(v, '__dict__'):
        return v
    elif hasattr(v, '__dict__') and not isinstance(v, type):
        if getattr(v, '_static', False):
            return v
        r = copy.copy(v)
        memo[id(v)] = (r, v)
        for k, x in v.__dict__.items():
            r.__dict__[k] = vsubst(x, sub, memo)
        return r
    else:
        raise OutOfSubset('cannot carry a %s out of a loop' % type(v))
    memo[id(v)] = (r, v)
    return r


class Summary:
    """Closed form of a loop: guards of its body paths etc., as functions of
    the iteration"""
    def __init__(self, rec, values):
        self.rec = rec
        self.values = values      # {placeholder const: fn(k)-> term}

    def subst_fn(self, k):
        rec = self.rec
        k = I(k)
        subs = [(rec.j, k)]

        def f(t):
            if isinstance(t, int):
                return t
            t = z3.substitute(t, *[(p, fn(rec.j)) for p, fn in self.values.items_()])
            return z3.substitute(t, *subs)
        return f


class _PMap:
    def __init__(self):
        self.l = []

    def items_(self):
        return self.l


class Loop:
    """Protocol of the transformed code:

        lp = enter(seq, site)
        if lp.begin({'v': v...}):           # run the body once
            v = lp.entry('v') ...
            body;  lp.end({...}) / lp.leave(how)
        v = lp.final('v')                   # after
    """
    def __init__(self, seq, site=''):
        self.seq = seq
        self.n = seq.n
        self.site = site

    # ---------------------------------------------------------------- enter
    def begin(self, entry):
        eng = E()
        p = eng.path
        self.eng = eng
        nm = eng.name('loop@' + self.site)
        key = (tuple(p.taken), nm)
        self.key = key
        self.entry_vals = entry
        tag = eng.loop_tag(key)
        self.tag = tag
        self.j = z3.Int('j@%d' % tag)
        n = self.n
        self.placeholders = {}
        self._open = set()
        self.specs = {}
        self.outer = [j for j, n in p.ctx]
        want = eng.__dict__.get('loop_state')
        for name, v in entry.items():
            spec = want(self, name, v) if want is not None and v is not UNDEF else None
            if spec is not None:
                self.specs[name] = spec
                self.placeholders[name] = CarriedDead(name)
                if key not in (p.stop or ()):
                    spec.entry(self, name, v)
                continue
            self.placeholders[name] = self._placeholder(name, v)
        stops = p.stop or ()
        if key in stops:
            return self._begin_probe(key == stops[-1])
        rec = eng.recs.get(key)
        if rec is None:
            saved = p.stop
            rec = self._summarise(key, stops)
            eng.recs[key] = rec
        self.rec = rec
        self._close_carried()
        j = self.j
        if rec.exits:
            none = self._no_exit(I(n))
            if not eng.fork(none):
                return self._begin_exit()
        self._emit_facts(I(n))
        self._apply_effects(I(n))
        self.mode = 'after'
        return False

    def _summarise(self, key, stops):
        eng, p = self.eng, self.eng.path
        rec = LoopRec(self.tag, self.n, self.j, None)
        work = [list(p.taken)]
        count = 0
        fn = eng._fn
        while work:
            prefix = work.pop()
            count += 1
            if count > 200:
                raise EngineLimit('too many paths in a loop body')
            eng._probe = None
            q = eng._run(fn, prefix, stop=stops + (key,))
            bp, eng._probe = eng._probe, None
            work.extend(q.pending)
            if bp is None:
                continue
            (rec.exits if bp.exit else rec.normal).append(bp)
        return rec

    def _placeholder(self, name, v):
        tag = self.tag
        if v is UNDEF:
            return UNDEF
        if isinstance(v, bool) or isinstance(v, SBool) or isinstance(v, np.bool_):
            c = self._const('v@%d.%s' % (tag, name), z3.BoolSort())
            return SBool(c)
        if isinstance(v, (int, SInt, np.integer)):
            c = self._const('v@%d.%s' % (tag, name), z3.IntSort())
            dt = v.dt if isinstance(v, SInt) else (v.dtype if isinstance(v, np.integer) else None)
            return SInt(c, dt)
        if isinstance(v, (float, SReal, np.floating)):
            c = self._const('v@%d.%s' % (tag, name), z3.RealSort())
            return SReal(c, np.dtype('f8'))
        return CarriedDead(name)

    def _const(self, name, sort):
        return z3.Const(name, sort)

    # ---------------------------------------------------------------- probe
    def _begin_probe(self, innermost):
        eng, p = self.eng, self.eng.path
        self.mode = 'probe'
        self.innermost = innermost
        p.space = 'L%d.' % self.tag
        p.ctx = p.ctx + [(self.j, self.n)]
        p.facts.append(Fact(self.j >= 0))
        p.facts.append(Fact(self.j < I(self.n)))
        p.epoch += 1
        fr = BodyPath()
        fr.epoch = p.epoch
        fr.reads = set()
        fr.loop = self
        p.frames.append(fr)
        self.frame = fr
        self.index = self.j
        # range of unsigned state
        for name, ph in self.placeholders.items():
            self._state_facts(ph)
        if eng._check([], eng.FORK_RLIMIT) == z3.unsat:
            raise Infeasible()
        return True

    def _state_facts(self, ph):
        p = self.eng.path
        if isinstance(ph, SInt) and ph.dt is not None and ph.dt.kind == 'u':
            p.facts.append(Fact(z3.And(ph.t >= 0, ph.t < 2 ** (8 * ph.dt.itemsize))))

    def entry(self, name):
        if self.mode == 'probe':
            if name in self.specs:
                return self.specs[name].at(self, name, self.j)
            return self.placeholders[name]
        # exit mode: the state before the leaving iteration
        return self._state_at(name, self.index)

    def item(self):
        return self.seq.at(self.index)

    def end(self, carried):
        """The body ended normally"""
        if self.mode == 'probe':
            if self.innermost:
                for name, spec in self.specs.items():
                    spec.step(self, name, carried[name], self.j + 1)
                self.frame.carried = carried
                self.eng._probe = self.frame
            raise PathEnd()
        raise PathEnd()      # exit mode: this iteration was to leave

    def leave(self, how):
        """The body leaves the loop (break, return, raise)"""
        if self.mode == 'probe':
            if self.innermost:
                self.frame.exit = how
                self.eng._probe = self.frame
            raise PathEnd()
        p = self.eng.path
        p.space, p.ctx, p.names = self._saved

    # ----------------------------------------------------------------- exit
    def _no_exit(self, upto):
        q = bound_var(hint='x')
        bad = []
        for bp in self.rec.exits:
            bad.append(self._at(conj(bp.guard()), q))
        body = simp(z3.Not(disj(bad)))
        if not mentions(body, q):
            return z3.Or(upto <= 0, body)
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < upto), body))

    def _begin_exit(self):
        eng, p = self.eng, self.eng.path
        self.mode = 'exit'
        jx = eng.fresh('jx')
        eng.fact(z3.And(jx >= 0, jx < I(self.n)))
        eng.fact(disj([self._at(conj(bp.guard()), jx) for bp in self.rec.exits]))
        eng.fact(Fact(self._no_exit(jx)))
        self._emit_facts(jx + 1)
        self._apply_effects(jx)
        self.index = jx
        self._saved = (p.space, p.ctx, dict(p.names))
        p.space = 'L%d.' % self.tag
        p.ctx = p.ctx + [(jx, self.n)]
        return True

    # ---------------------------------------------------------------- state
    def _at(self, t, k):
        """A term recorded in the generic iteration, for iteration k"""
        if isinstance(t, int):
            return t
        subs = []
        for name, ph in self.placeholders.items():
            if isinstance(ph, Sym) and not isinstance(ph, CarriedDead):
                if mentions(t, ph.t):
                    v = self._state_term(name)
                    if v is None:
                        raise OutOfSubset('loop state %s has no closed form' % name)
                    subs.append((ph.t, v))
        if subs:
            t = z3.substitute(t, *subs)
        return z3.substitute(t, (self.j, I(k)))

    def _sub(self, k):
        return lambda t: self._at(t, k)

    def _close_carried(self):
        """Find the state before iteration j of every carried variable"""
        rec = self.rec
        self.state = {}
        if getattr(rec, 'state', None):
            self.state = rec.state
            return
        pend = {}
        for name, ph in self.placeholders.items():
            ends = [bp.carried.get(name, UNDEF) for bp in rec.normal]
            ev = self.entry_vals[name]
            if name in self.specs:
                self.state[name] = ('spec',)
                continue
            if all(e is ph or _same(e, ph) for e in ends):
                self.state[name] = ('same',)
                continue
            if not isinstance(ph, Sym) or isinstance(ph, CarriedDead):
                self.state[name] = ('last',)
                continue
            if not all(isinstance(e, (int, float, np.generic, SInt, SReal, SBool)) for e in ends):
                self.state[name] = ('dead',)
                continue
            terms = [V.term(e) for e in ends]
            if z3.is_int(ph.t) and all(z3.is_int(t) for t in terms):
                ds = [simp(t - ph.t) for t in terms]
                if not any(mentions(d, ph.t) for d in ds):
                    guards = [conj(bp.guard()) for bp in rec.normal]
                    self.state[name] = ('sum', ds, guards)
                    continue
            if not any(mentions(t, ph.t) for t in terms if not t.eq(ph.t)):
                self.state[name] = ('set', terms, [conj(bp.guard()) for bp in rec.normal])
                continue
            self.state[name] = ('dead',)
        rec.state = self.state

    def _increment(self, st):
        ds, guards = st[1], st[2]
        r = ds[-1]
        for d, g in zip(ds[-2::-1], guards[-2::-1]):
            r = V.ite(simp(g), d, r)
        return simp(r)

    def _state_term(self, name):
        """State before iteration j, as a term in j"""
        st = self.state.get(name)
        if st is None:
            return None
        ev = self.entry_vals[name]
        if st[0] == 'same':
            return V.term(ev)
        if st[0] == 'sum':
            inc = self._increment(st)
            if name in self._open:
                return None         # variables that depend on each other
            self._open.add(name)
            try:
                inc = self._plain_inc(inc)
            finally:
                self._open.discard(name)
            if inc is None:
                return None
            if not mentions(inc, self.j):
                return V.term(ev) + inc * self.j
            ps = psum.window(lambda k: z3.substitute(inc, (self.j, I(k))), self.n)
            return V.term(ev) + (ps.at(dim(I(ps.lo) + self.j)) - ps.at(ps.lo))
        if st[0] == 'set':
            return self._set_state(name, st, self.j)
        return None

    def _plain_inc(self, inc):
        """The increment may mention other state variables"""
        for name, ph in self.placeholders.items():
            if isinstance(ph, Sym) and not isinstance(ph, CarriedDead) and mentions(inc, ph.t):
                v = self._state_term(name)
                if v is None:
                    return None
                inc = z3.substitute(inc, (ph.t, v))
        return inc

    def _set_state(self, name, st, k):
        """A variable that is set to values not depending on itself"""
        terms, guards = st[1], st[2]
        ph = self.placeholders[name]
        ev = V.term(self.entry_vals[name])
        vals = {}
        setting = [(t, g) for t, g in zip(terms, guards) if not t.eq(ph.t)]
        consts = all(not mentions(t, self.j) for t, g in setting) and all(t.eq(setting[0][0]) for t, g in setting)
        if ev.sort() != setting[0][0].sort():
            return None
        if len(setting) == len(terms):
            # always set: the value of the iteration before
            r = setting[-1][0]
            for t, g in setting[-2::-1]:
                r = z3.If(g, t, r)
            if any(isinstance(p, Sym) and not isinstance(p, CarriedDead) and mentions(r, p.t)
                   for p in self.placeholders.values()):
                return None
            return z3.If(I(k) > 0, z3.substitute(r, (self.j, I(k) - 1)), ev)
        if consts:
            q = bound_var(hint='s')
            g = disj([g for t, g in setting])
            if any(isinstance(p, Sym) and not isinstance(p, CarriedDead) and mentions(g, p.t)
                   for p in self.placeholders.values()):
                return None
            ex = z3.Exists([q], z3.And(q >= 0, q < I(k), z3.substitute(g, (self.j, q))))
            return z3.If(ex, setting[0][0], ev) if not z3.is_bool(ev) else z3.If(ex, setting[0][0], ev)
        return None

    def _state_at(self, name, k):
        ph = self.placeholders[name]
        ev = self.entry_vals[name]
        if ph is UNDEF:
            return UNDEF
        st = self.state.get(name)
        if st[0] == 'same':
            return ev
        if st[0] == 'spec':
            return self.specs[name].at(self, name, I(k))
        if st[0] == 'last':
            return Dead('variable %s carried through a loop' % name)
        v = self._state_term(name)
        if v is None:
            return Dead('variable %s carried through a loop' % name)
        t = z3.substitute(v, (self.j, I(k)))
        if isinstance(ph, SBool):
            return mk_bool(t)
        if isinstance(ph, SInt):
            return mk_int(t, self._end_dt(name, ph))
        return SReal(t)

    def _end_dt(self, name, ph):
        for bp in self.rec.normal:
            e = bp.carried.get(name)
            if isinstance(e, SInt):
                return e.dt
            if isinstance(e, np.integer):
                return e.dtype
        return ph.dt

    def final(self, name):
        """Value of a variable after the loop (mode after)"""
        ph = self.placeholders[name]
        rec = self.rec
        if ph is UNDEF or self.state[name][0] in ('last', 'dead'):
            ends = [bp.carried.get(name, UNDEF) for bp in rec.normal]
            if all(e is UNDEF for e in ends):
                return UNDEF
            return Late(self, name)
        return self._state_at(name, I(self.n))

    def lastitem(self, name):
        return Dead('loop variable %s used after its loop' % name)

    # -------------------------------------------------------------- effects
    def _emit_facts(self, upto):
        """What is known in the generic iteration, for all iterations"""
        eng, rec, j = self.eng, self.rec, self.j
        seen = set()
        late = []
        for bp in rec.normal + rec.exits:
            guard = []
            for kind, f in bp.trace:
                if kind == 'dec':
                    guard.append(f)
                    continue
                key = (tuple(g.get_id() for g in guard), f.z3().get_id())
                if key in seen:
                    continue
                seen.add(key)
                if self._about_state(f, guard):
                    late.append((f, list(guard)))
                else:
                    self._generalise(f, guard, upto)
        for f, guard in late:
            self._generalise(f, guard, upto)

    def _about_state(self, f, guard):
        ps = [p.t for p in self.placeholders.values() if isinstance(p, Sym) and not isinstance(p, CarriedDead)]
        if not ps:
            return False
        ids = _consts(f.z3(), set(), set())
        for g in guard:
            ids |= _consts(g, set(), set())
        return any(p.get_id() in ids for p in ps)

    def _generalise(self, f, guard, upto):
        eng = self.eng
        j = self.j
        try:
            at = lambda t: self._at(t, j)
            body, hyps = at(f.body), [at(h) for h in f.hyps]
            guard = [at(g) for g in guard]
            pats = [tuple(at(x) for x in p) for p in f.pats]
        except OutOfSubset:
            return        # about state without a closed form: dropped
        if not any(mentions(t, j) for t in [body] + hyps + guard):
            eng.fact(Fact(body, f.vars, guard + hyps + [I(self.n) > 0], pats, f.tag))
            return
        q = bound_var(hint='g')
        s = lambda t: z3.substitute(t, (j, q))
        pats = [tuple(s(x) for x in p) for p in pats]
        vs = (q,) + f.vars
        pats = [p for p in pats if all(any(mentions(x, v) for x in p) for v in vs)]
        eng.fact(Fact(s(body), vs, [q >= 0, q < upto] + [s(g) for g in guard] + [s(h) for h in hyps], pats, f.tag))

    def _apply_effects(self, n):
        """Apply what n iterations do to objects made before the loop"""
        rec, eng = self.rec, self.eng
        objs = eng.path.__dict__.setdefault('objects', {})
        by_uid = {}
        order = []
        for bi, bp in enumerate(rec.normal):
            for ef in bp.effects:
                u = ef[1]
                if u not in by_uid:
                    by_uid[u] = [[] for _ in rec.normal]
                    order.append(u)
                by_uid[u][bi].append(ef)
        for bp in rec.normal + rec.exits:
            for u in bp.reads:
                if u in by_uid:
                    raise OutOfSubset('a loop reads what it writes')
        for u in order:
            obj = objs.get(u)
            if obj is None:
                raise OutOfSubset('effect on an unknown object')
            per_path = by_uid[u]
            guards = [conj(bp.guard()) for bp in rec.normal]
            obj._loop_effects(self, n, guards, per_path)


def _same(a, b):
    if isinstance(a, (SInt, SReal, SBool)) and type(a) is type(b):
        return a.t.eq(b.t)
    return False


class CarriedDead(Dead):
    def __init__(self, name):
        super().__init__('variable %s carried through a loop' % name)


class Late(Dead):
    """Value of a loop variable after the loop; resolved when needed"""
    def __init__(self, lp, name):
        super().__init__('loop variable %s used after its loop' % name)
        self.__dict__['_lp'] = (lp, name)


class _Range:
    """range(n) as a sequence"""
    def __init__(self, lo, n, step=1):
        self.lo, self.n, self.step = lo, n, step

    def at(self, k):
        return mk_int(I(self.lo) + self.step * I(k))
