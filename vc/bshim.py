"""Builtins accepting symbolic values, and the runtime of transformed code"""
import builtins as B
import collections
import sys
import numpy as np
from .core import *
from .values import *
from . import values as V
from .arr import Arr, norm_slice
from . import arr as A
from .containers import *
from .containers import Seq, ListSeq, sorted_set
from .loops import Loop


def native(x):
    return x


_gen = (type((i for i in ())), B.map, B.filter, B.zip, B.enumerate, B.reversed)


def iter_of(x):
    """The iterable of a loop, in a form the loop can use"""
    t = type(x)
    if hasattr(x, '_as_seq') or isinstance(x, (VList, Arr, Seq, str, tuple, np.ndarray)):
        return x
    if isinstance(x, (Sym,)):
        raise OutOfSubset('iteration over %s' % t.__name__)
    if isinstance(x, CSet):
        return x.concretise()
    if isinstance(x, VSet):
        note_read(x)
        if not x._concrete():
            if not x.sym and not B.set.__len__(x) and len(x.segs) == 1 and getattr(x, 'distinct', False):
                return x.segs[0]
            raise OutOfSubset('iteration over a symbolic set')
        return B.sorted(B.set.__iter__(x), key=_setorder)
    if isinstance(x, (B.set, B.frozenset)):
        return B.sorted(x, key=_setorder)
    if isinstance(x, B.dict):
        return B.list(x)
    f = t.__dict__.get('__iter__') or B.getattr(t, '__iter__', None)
    if f is not None and t.__module__.startswith('karabo_data'):
        r = f(x)
        return r
    return x


def _setorder(x):
    return (str(type(x)), repr(x) if not hasattr(x, '_order') else x._order())


def symbolic(x):
    return is_symseq(x)


def second(a, b):
    return b


class Text:
    """Text made from symbolic values: a token, resolved by text_parts"""
    table = []

    @classmethod
    def token(cls, what):
        cls.table.append(what)
        return '\x01%d\x02' % (B.len(cls.table) - 1)


def text_parts(s):
    """The symbolic values mentioned in a text"""
    import re
    return [Text.table[B.int(m)] for m in re.findall('\x01(\\d+)\x02', s)]


def join(sep, xs):
    """sep.join(xs)"""
    if isinstance(sep, B.str):
        if isinstance(xs, VSet) and not xs._concrete() or is_symseq(xs):
            return Text.token(('join', sep, xs))
        return sep.join(iter_of(xs))
    return sep.join(xs)


def get(f):
    try:
        return f()
    except NameError:
        return UNDEF


def unpack(x, n):
    x = B.tuple(iter_concrete(x))
    if B.len(x) != n:
        raise ValueError('wrong number of values to unpack')
    return x


def iter_concrete(x):
    x = iter_of(x)
    if is_symseq(x):
        raise OutOfSubset('symbolic collection in a concrete position')
    return x


def star(x):
    return iter_concrete(x)


def cfor(it, fn, site):
    it = iter_of(it)
    if is_symseq(it):
        lp = Loop(as_seq(it), site + '.comp')
        if lp.begin({}):
            try:
                fn(lp.item())
            except Exception:
                lp.leave('raise')
                raise
            lp.end({})
    else:
        for x in it:
            fn(x)


def gen_done(acc):
    return acc


def mkdict(*items):
    d = VDict()
    for k, v in items:
        d[k] = v
    return d


def no_signal():
    e = sys.exc_info()[1]
    if isinstance(e, Signal):
        raise e


def contains(coll, x):
    if isinstance(coll, (VList, VSet, VDict, Arr)):
        return coll.__contains__(x)
    if isinstance(coll, (B.list, B.tuple)):
        for y in coll:
            if y is x or B.bool(y == x):
                return True
        return False
    if isinstance(coll, (B.set, B.frozenset, B.dict)) and has_sym(x):
        for y in coll:
            if B.bool(y == x):
                return True
        return False
    if isinstance(coll, np.ndarray) and isinstance(x, Sym):
        return A.from_np(coll).__contains__(x)
    return x in coll


def check_store(obj, fn):
    eng = E_or_none()
    if eng is None or eng.path is None:
        return obj
    p = eng.path
    if fn == '__init__' or not p.frames:
        if p.frames:
            p.__dict__.setdefault('born', {})[id(obj)] = (obj, p.epoch)
        return obj
    b = p.__dict__.get('born', {}).get(id(obj))
    if b is None or b[1] < p.frames[-1].epoch:
        raise OutOfSubset('an attribute of an object is set in a generic iteration')
    return obj


def E_or_none():
    return current.eng


# ------------------------------------------------------------------ builtins

def b_len(x):
    if isinstance(x, (Arr, VList, VSet)):
        n = x.sym_len()
        return n
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    return B.len(x)


def b_range(*a):
    if all(not isinstance(x, Sym) for x in a):
        return B.range(*a)
    if B.len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif B.len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    if isinstance(st, Sym):
        raise OutOfSubset('range with a symbolic step')
    d = I(V.term(hi)) - I(V.term(lo))
    if st != 1:
        if st <= 0:
            raise OutOfSubset('range with a negative step')
        d = (d + (st - 1)) / st
    return RangeSeq(dim(lo), A._pos(dim(d)), st)


def b_zip(*its):
    its = [iter_of(x) for x in its]
    if any(is_symseq(x) for x in its):
        return ZipSeq([as_seq(x) for x in its])
    return VList(B.zip(*its))


def b_enumerate(x, start=0):
    x = iter_of(x)
    if is_symseq(x):
        return EnumSeq(as_seq(x), start)
    return VList(B.enumerate(x, start))


def b_reversed(x):
    if is_symseq(x):
        s = as_seq(x)
        return FnSeq(s.n, lambda k: s.at(dim(I(s.n) - 1 - I(k))))
    return VList(B.reversed(B.list(iter_of(x))))


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, B.tuple)

    def __call__(cls, x=()):
        x = iter_of(x)
        if is_symseq(x):
            return VList.from_seq(as_seq(x))
        return B.tuple(x)


class b_tuple(metaclass=_TupleMeta):
    pass


def b_map(f, *its):
    its = [iter_of(x) for x in its]
    r = VList()
    if B.len(its) == 1:
        cfor(its[0], lambda x: r.append(f(x)), 'map')
    else:
        cfor(b_zip(*its), lambda t: r.append(f(*t)), 'map')
    return r


def b_filter(f, it):
    if isinstance(it, CSet) and type(f).__name__ == 'builtin_function_or_method':
        return it.filter(f)
    r = VList()

    def one(x):
        if (f(x) if f is not None else x):
            r.append(x)
    cfor(iter_of(it), one, 'filter')
    return r


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, B.list)

    def __call__(cls, it=()):
        it = iter_of(it)
        if is_symseq(it):
            return VList.from_seq(as_seq(it))
        return VList(it)


class b_list(metaclass=_ListMeta):
    pass


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, B.set)

    def __call__(cls, it=()):
        return it.copy() if isinstance(it, VSet) else VSet(iter_of(it))

    def union(cls, *a):
        return VSet().union(*a)


class b_set(metaclass=_SetMeta):
    pass


class _FSetMeta(_SetMeta):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.frozenset, VSet))


class b_frozenset(metaclass=_FSetMeta):
    pass


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, B.dict)

    def __call__(cls, *a, **k):
        if a and not isinstance(a[0], B.dict):
            a = (B.list(iter_concrete(a[0])),)
        return VDict(*a, **k)

    def fromkeys(cls, it, v=None):
        d = VDict()
        for k in iter_concrete(it):
            d[k] = v
        return d


class b_dict(metaclass=_DictMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, B.int) or (isinstance(x, SInt) and x.dt is None)

    def __call__(cls, x=0, *a):
        if isinstance(x, SInt):
            return mk_int(x.t)
        if isinstance(x, SReal):
            return mk_int(V.trunc_real(x.t))
        if isinstance(x, SBool):
            return mk_int(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, Arr):
            return cls(x.item())
        return B.int(x, *a)


class b_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, B.float) or isinstance(x, SReal)

    def __call__(cls, x=0.0):
        if isinstance(x, (SReal, SInt)):
            return SReal(to_real(x.t), None)
        if isinstance(x, Arr):
            return cls(x.item())
        return B.float(x)


class b_float(metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.bool, SBool))

    def __call__(cls, x=False):
        if isinstance(x, SBool):
            return x
        return B.bool(x)


class b_bool(metaclass=_BoolMeta):
    pass


_TYPES = {b_int: B.int, b_float: B.float}


def b_isinstance(x, t):
    ts = t if isinstance(t, B.tuple) else (t,)
    for u in ts:
        if u is np.ndarray:
            if isinstance(x, (np.ndarray, Arr)):
                return True
        elif u in (np.integer, np.number) and isinstance(x, SInt):
            if x.dt is not None:
                return True
        elif u in (np.floating, np.number) and isinstance(x, SReal):
            if x.dt is not None:
                return True
        elif u is B.int or u is b_int:
            if isinstance(x, B.int) or (isinstance(x, SInt) and x.dt is None):
                return True
        elif getattr(x, '_isinstance', None) is not None and not isinstance(x, type):
            if x._isinstance(u):
                return True
            if B.isinstance(x, u):
                return True
        elif isinstance(u, type) and B.isinstance(x, u):
            return True
    return False


def isinstance(x, t):           # for this module's own use
    return B.isinstance(x, t)


def _minmax(which):
    def f(*a, **k):
        key = k.get('key')
        if B.len(a) == 1:
            it = iter_of(a[0])
            if is_symseq(it):
                if key is not None:
                    raise OutOfSubset('%s with a key' % which)
                s = as_seq(it)
                if not E().fork(I(s.n) > 0):
                    if 'default' in k:
                        return k['default']
                    raise ValueError('%s() of an empty sequence' % which)
                eng = E()
                q = bound_var(hint='m')
                e = elem_term(s, q)
                m = eng.fresh(which, e.sort())
                w = eng.fresh('arg' + which)
                eng.fact((m <= e) if which == 'min' else (m >= e), [q], [q >= 0, q < I(s.n)])
                eng.fact(z3.And(w >= 0, w < I(s.n), m == elem_term(s, w)))
                return mk_int(m) if z3.is_int(m) else SReal(m, None)
            items = B.list(it)
        else:
            items = B.list(a)
        if not has_sym(items):
            return getattr(B, which)(items, **k)
        if not items:
            raise ValueError('empty')
        if key is not None:
            raise OutOfSubset('%s with a key' % which)
        r = items[0]
        for x in items[1:]:
            if isinstance(x, (B.list, B.tuple)):
                raise OutOfSubset('min of tuples')
            c = V.compare_term('lt' if which == 'min' else 'gt', V.term(x), V.term(r))
            c = simp(c)
            if z3.is_true(c):
                r = x
            elif z3.is_false(c):
                pass
            elif all(isinstance(v, (B.int, SInt, np.integer)) for v in (x, r)) and \
                    getattr(x, 'dt', None) == getattr(r, 'dt', None):
                r = mk_int(z3.If(c, V.term(x), V.term(r)), getattr(x, 'dt', None))
            elif E().fork(c):
                r = x
        return r
    return f


b_min, b_max = _minmax('min'), _minmax('max')


def b_sum(it, start=0):
    it = iter_of(it)
    if is_symseq(it):
        from . import psum
        s = as_seq(it)
        t = psum.total(lambda k: V.cast_term(elem_term(s, k), DT_INT), s.n)
        return mk_int(t) + start
    r = start
    for x in it:
        r = r + x
    return r


def _truth(v):
    t = V.term(v)
    return t if z3.is_bool(t) else t != 0


def b_any(it):
    it = iter_of(it)
    if is_symseq(it):
        s = as_seq(it)
        q = bound_var(hint='a')
        e = elem_term(s, q)
        e = e if z3.is_bool(e) else e != 0
        return mk_bool(z3.Exists([q], z3.And(q >= 0, q < I(s.n), e)))
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    it = iter_of(it)
    if is_symseq(it):
        s = as_seq(it)
        q = bound_var(hint='a')
        e = elem_term(s, q)
        e = e if z3.is_bool(e) else e != 0
        return mk_bool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < I(s.n)), e)))
    for x in it:
        if not x:
            return False
    return True


_nodefault = object()


class _Iter:
    """Iterator over a collection, in the order of its items"""
    def __init__(self, x):
        self.x, self.pos = x, 0

    def __iter__(self):
        return self

    def _as_seq(self):
        s = as_seq(self.x)
        if self.pos:
            from .containers import SliceSeq
            return SliceSeq(s, self.pos, dim(I(s.n) - self.pos))
        return s

    def _is_symbolic(self):
        return is_symseq(self.x)

    def __next__(self):
        s = as_seq(self.x)
        if isinstance(s.n, B.int):
            if self.pos >= s.n:
                raise StopIteration
        elif not E().fork(I(s.n) > self.pos):
            raise StopIteration
        r = s.at(self.pos)
        self.pos += 1
        return r


def b_iter(x):
    x = iter_of(x)
    if isinstance(x, _Iter):
        return x
    if is_symseq(x) or isinstance(x, (VList, Arr)):
        return _Iter(x)
    return B.iter(x)


def b_next(it, default=_nodefault):
    if isinstance(it, VList):          # a generator, produced eagerly
        cur = it.__dict__.setdefault('_cursor', _Iter(it))
        it = cur
    try:
        return B.next(it)
    except StopIteration:
        if default is _nodefault:
            raise
        return default


def b_sorted(x, key=None, reverse=False):
    if isinstance(x, VSet) and not x._concrete():
        tup = x._tuples()
        if tup is not None:
            note_read(x)
            return _insertion(tup, key, reverse)
        if key is not None or reverse:
            raise OutOfSubset('sort of a symbolic set')
        note_read(x)
        return sorted_set(x)
    x = iter_of(x)
    if not is_symseq(x):
        items = B.list(x)
        if not has_sym(items):
            keys = [key(v) for v in items] if key is not None else items
            if not has_sym(keys) and not any(isinstance(k, Sym) for k in keys):
                order = B.sorted(B.range(B.len(items)), key=lambda i: _key(keys[i]), reverse=reverse)
                return VList([items[i] for i in order])
        return _insertion(items, key, reverse)
    return sym_sorted(x, key, reverse)


def _key(k):
    return k


def _insertion(items, key, reverse):
    keys = [key(v) if key is not None else v for v in items]
    out = []
    for it, k in B.zip(items, keys):
        pos = B.len(out)
        while pos > 0:
            pk = out[pos - 1][1]
            less = (pk < k) if reverse else (k < pk)
            if isinstance(less, SBool) and E().implied(z3.Not(less.t)):
                break
            if not less:
                break
            pos -= 1
        out.insert(pos, (it, k))
    return VList([it for it, k in out])


def sym_sorted(x, key=None, reverse=False):
    """Stable sort: a permutation"""
    eng = E()
    s = as_seq(x)
    if reverse:
        raise OutOfSubset('reverse sort of a symbolic list')
    if key is None:
        ks = s
    else:
        keys = VList()
        cfor(x, lambda v: keys.append(key(v)), 'sort')
        ks = keys.as_seq()
    n = I(s.n)
    perm = eng.fresh_fn('perm', [z3.IntSort()], z3.IntSort())
    inv = eng.fresh_fn('pinv', [z3.IntSort()], z3.IntSort())
    k, k2, i = bound_var(hint='k'), bound_var(hint='k2'), bound_var(hint='i')
    eng.fact(z3.And(perm(k) >= 0, perm(k) < n, inv(perm(k)) == k), [k], [k >= 0, k < n], [(perm(k),)], tag='perm')
    eng.fact(z3.And(inv(i) >= 0, inv(i) < n, perm(inv(i)) == i), [i], [i >= 0, i < n], [(inv(i),)], tag='perm')
    a, b = elem_term(ks, perm(k)), elem_term(ks, perm(k2))
    eng.fact(z3.And(a <= b, z3.Implies(a == b, perm(k) < perm(k2))), [k, k2], [k >= 0, k < k2, k2 < n],
             [(perm(k), perm(k2))], tag='perm-ord')
    r = SortedSeq(s, perm)
    r.inv = inv
    eng.path.log.setdefault('sorted', []).append(r)
    return VList.from_seq(r)


def b_abs(x):
    return abs(x)


def b_round(x, *a):
    if isinstance(x, Sym):
        raise OutOfSubset('round of a symbolic number')
    return B.round(x, *a)


def b_print(*a, **k):
    log = E().path.log.setdefault('print', []) if current.eng and current.eng.path else []
    log.append(a)


def b_str(x='', *a):
    if isinstance(x, SStr):
        return x
    if isinstance(x, Sym):
        return format(x)
    return B.str(x, *a)


class SStr(Sym):
    """Opaque text"""
    pass


class _DDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, VDict) and hasattr(x, 'default_factory')

    def __call__(cls, factory=None, *a, **k):
        d = VDict(*a, **k)
        d.default_factory = factory
        return d


class b_defaultdict(metaclass=_DDMeta):
    pass


BUILTINS = {
    'len': b_len, 'range': b_range, 'zip': b_zip, 'enumerate': b_enumerate, 'reversed': b_reversed,
    'tuple': b_tuple, 'map': b_map, 'filter': b_filter, 'list': b_list, 'set': b_set,
    'frozenset': b_frozenset, 'dict': b_dict, 'int': b_int, 'float': b_float, 'bool': b_bool,
    'isinstance': b_isinstance, 'min': b_min, 'max': b_max, 'sum': b_sum, 'any': b_any, 'all': b_all,
    'iter': b_iter, 'next': b_next, 'sorted': b_sorted, 'print': b_print, 'round': b_round,
}


class Runtime:
    pass


runtime = Runtime()
for _n in ('native', 'iter_of', 'symbolic', 'second', 'get', 'unpack', 'star', 'cfor', 'gen_done', 'mkdict',
           'no_signal', 'contains', 'check_store', 'join'):
    setattr(runtime, _n, globals()[_n])
runtime.Loop = lambda it, site: Loop(as_seq(it), site)
runtime.VList, runtime.VSet, runtime.VDict = VList, VSet, VDict

#: module name -> replacement
MODULES = {}


class _FakeXarray:
    """xarray.DataArray keeps data, dims and coords (trusted)"""
    class DataArray:
        def __init__(self, data, coords=None, dims=None, **kw):
            self.data, self.dims, self.coords = data, dims, coords


MODULES['xarray'] = _FakeXarray
#: (module, name) -> replacement
NAMES = {('collections', 'defaultdict'): b_defaultdict,
         ('collections', 'OrderedDict'): b_dict}


def imported(full, mod):
    return MODULES.get(full, mod)


def imported_from(module, nm, val, level=0):
    if level == 0:
        if (module, nm) in NAMES:
            return NAMES[(module, nm)]
        full = module + '.' + nm
        if full in MODULES:
            return MODULES[full]
        if module in MODULES:
            return getattr(MODULES[module], nm, val)
    return val


runtime.imported, runtime.imported_from = imported, imported_from


class While:
    """A while loop; with an invariant from the contract it is cut:
    the invariant is proved on entry, assumed for an arbitrary iteration and
    proved again at its end."""
    def __init__(self, site, env):
        eng = current.eng
        self.site, self.env = site, env
        self.spec = None
        if eng is not None and eng.path is not None:
            self.spec = eng.__dict__.get('while_specs', {}).get(site)
        self.has = self.spec is not None

    def begin(self, d):
        eng = E()
        self.spec.prove(eng, d, self.env, 'entry')
        self.state = self.spec.havoc(eng, d, self.env)

    def entry(self, n):
        return self.state[n]

    def assume(self):
        pass

    def leave(self, how):
        pass

    def end(self, d):
        self.spec.prove(E(), d, self.env, 'step', self.state)
        raise PathEnd()


runtime.While = While
