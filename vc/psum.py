"""Prefix sums: PS(p, k) = sum of d(p, i) for 0 <= i < k.

The increment is normalised (offset of the summation variable removed, all
other maximal subterms abstracted as parameters), so that equal increments
share one function, and sums over windows telescope.
"""
import hashlib
from .core import z3, E, I, simp, bound_var, conj, OutOfSubset, mentions, _consts
from .values import num_value, dim

K = z3.Int('k!ps')
_KID = K.get_id()


class PS:
    """Prefix sums of one increment with given parameters"""
    def __init__(self, f, blk, args, inc, off):
        self.f, self.blk_f, self.args, self.inc, self.off = f, blk, args, inc, off

    def at(self, k):
        """Sum of the un-shifted increments below k"""
        return self.f(*(self.args + [I(k)]))

    def blk(self, e):
        """Index (>= lo) of the increment that covers e"""
        return self.blk_f(*(self.args + [I(self.lo), I(e)]))

    def d(self, k):
        return z3.substitute(self.inc, (K, I(k)))


def _has_k(t, cache):
    i = t.get_id()
    if i in cache:
        return cache[i]
    if i == _KID:
        r = True
    elif z3.is_quantifier(t):
        r = mentions(t.body(), K)
    else:
        r = any(_has_k(c, cache) for c in t.children())
    cache[i] = r
    return r


def _offset(t):
    """If K occurs only as K + a (same a), return (t with K for K + a, a)"""
    cache = {}
    offs = []

    def scan(u):
        if not _has_k(u, cache):
            return True
        if u.get_id() == _KID:
            offs.append(None)
            return True
        if z3.is_quantifier(u):
            return False
        if z3.is_add(u):
            ch = u.children()
            ks = [c for c in ch if c.get_id() == _KID]
            if len(ks) == 1 and not any(_has_k(c, cache) for c in ch if c.get_id() != _KID):
                rest = [c for c in ch if c.get_id() != _KID]
                offs.append(simp(sum(rest[1:], rest[0])))
                return True
        return all(scan(c) for c in u.children())
    ok = scan(t)
    if not ok or not offs or any(o is None for o in offs):
        return t, None
    a = offs[0]
    if any(not o.eq(a) for o in offs[1:]):
        return t, None
    # replace K + a by K:  t[K := K - a], simplified
    t2 = simp(z3.substitute(t, (K, K - a)))
    if mentions(a, K):
        return t, None
    return t2, a


_shash = {}
_COMM = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}


def _key(t):
    """A name for the structure of a term, independent of when it was made"""
    i = t.get_id()
    r = _shash.get(i)
    if r is not None and r[1].eq(t):
        return r[0]
    if z3.is_quantifier(t):
        k = t.sexpr()
    elif t.num_args() == 0:
        k = str(t)
    else:
        ks = [_key(c) for c in t.children()]
        if t.decl().kind() in _COMM:
            ks.sort()
        k = t.decl().name() + '(' + ','.join(ks)
    k = hashlib.md5(k.encode()).hexdigest()
    _shash[i] = (k, t)
    return k


def canon(t, memo=None):
    """The same term, with the arguments of commutative operators in an order
    that does not depend on when they were made"""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i]
    if z3.is_quantifier(t) or t.num_args() == 0:
        r = t
    else:
        ch = [canon(c, memo) for c in t.children()]
        if t.decl().kind() in _COMM:
            ch.sort(key=_key)
        r = t.decl()(*ch)
    memo[i] = r
    return r


def _template(t):
    """Abstract maximal K-free non-numeral subterms as parameters"""
    cache = {}
    params = []
    subs = []

    def rec(u):
        if not _has_k(u, cache):
            if num_value(u) is not None or z3.is_rational_value(u):
                return u
            for p, v in subs:
                if p.eq(u):
                    return v
            v = z3.Const('p!%d!%s' % (len(subs), u.sort().name()), u.sort())
            subs.append((u, v))
            params.append(u)
            return v
        if u.get_id() == _KID:
            return u
        if z3.is_quantifier(u):
            raise OutOfSubset('sum over a quantified increment')
        return u.decl()(*[rec(c) for c in u.children()])
    tt = rec(t)
    return tt, params


_templates = {}


def prefix(inc_fn):
    """PS for increments inc_fn(k); also establishes its offset"""
    t = simp(inc_fn(K))
    t, off = _offset(t)
    t = canon(t)
    tt, params = _template(t)
    key = tt.sexpr()
    eng = E()
    reg = eng.__dict__.setdefault('_ps', {})
    if key not in reg:
        i = len(reg)
        sorts = [p.sort() for p in params]
        f = z3.Function('PS%d' % i, *(sorts + [z3.IntSort(), z3.IntSort()]))
        b = z3.Function('BLK%d' % i, *(sorts + [z3.IntSort(), z3.IntSort(), z3.IntSort()]))
        reg[key] = (f, b)
    f, b = reg[key]
    return PS(f, b, params, t, off)


def facts(ps, lo, hi):
    """The facts about ps for lo <= k <= hi (lo, hi un-shifted)"""
    eng = E()
    lo, hi = I(lo), I(hi)
    memo = eng.path.__dict__.setdefault('psmemo', {})
    key = (ps.f.get_id(), tuple(a.get_id() for a in ps.args), simp(lo).get_id(), simp(hi).get_id())
    if key in memo:
        return True
    eng.path.__dict__.setdefault('pskeep', []).append((ps, lo, hi, simp(lo), simp(hi)))
    eng.fact(ps.at(0) == 0)
    i, k, e = bound_var(hint='pi'), bound_var(hint='pk'), bound_var(hint='pe')
    di = ps.d(i)
    rng = [i >= lo, i <= k, k <= hi]
    # increments must be non-negative for the order facts
    g = eng.fresh('gi')
    if eng.implied(z3.Implies(z3.And(g >= lo, g < hi), ps.d(g) >= 0), rlimit=3000000):
        eng.fact(z3.And(z3.Implies(i < k, ps.at(i) + di <= ps.at(k)),
                        z3.Implies(k == i + 1, ps.at(k) == ps.at(i) + di)),
                 [i, k], rng, [(ps.at(i), ps.at(k))], tag='ps-mono')
        eng.fact(z3.Implies(z3.And(hi > lo, I(0) <= lo), ps.at(hi) >= ps.at(lo)))
        b = ps.blk(e)
        eng.fact(z3.And(b >= lo, b < hi, ps.at(b) <= e, e < ps.at(b) + ps.d(b)),
                 [e], [lo <= hi, e >= ps.at(lo), e < ps.at(hi)], [(b,)], tag='ps-blk')
        memo[key] = True
        return True
    eng.fact(z3.Implies(k == i + 1, ps.at(k) == ps.at(i) + di), [i, k], rng, [(ps.at(i), ps.at(k))])
    return False


def window(inc_fn, n):
    """(ps, lo): sum_{i<m} inc(i) = ps.at(lo+m) - ps.at(lo) for 0<=m<=n"""
    ps = prefix(inc_fn)
    lo = dim(ps.off) if ps.off is not None else 0
    n = dim(n)
    hi = dim(I(lo) + I(n))
    ps.lo, ps.hi = lo, hi
    ps.mono = facts(ps, lo, hi)
    return ps


def total(inc_fn, n):
    t = simp(inc_fn(K))
    if not _has_k(t, {}):
        return simp(t * I(n))
    ps = window(inc_fn, n)
    return simp(ps.at(ps.hi) - ps.at(ps.lo))


def nonzero(ps):
    """A sum that is not 0 has an increment that is not 0"""
    b0 = ps.blk(ps.at(ps.lo))
    lo, hi = I(ps.lo), I(ps.hi)
    E().fact(z3.Implies(z3.And(lo <= hi, ps.at(lo) < ps.at(hi)), z3.And(b0 >= lo, b0 < hi, ps.d(b0) > 0)))
