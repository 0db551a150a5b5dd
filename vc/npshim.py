"""numpy as seen by the transformed code: the real NumPy unless a symbolic
value or an array under construction is involved"""
import functools
import numpy as np
from .core import *
from .values import *
from .values import SArr
from . import values as V
from . import arr as A
from .arr import Arr, new, to_arr, from_np, elementwise, size_t, same_syntax
from . import psum
from .containers import VList, VSet, is_symseq, as_seq, elem_term, has_sym, ListSeq, ArrSeq, CatSeq, LoopSeq, sym_eq


def symbolic_arg(x):
    if isinstance(x, (Sym, SArr)):
        return True
    if isinstance(x, VList):
        return x.segs is not None or any(symbolic_arg(y) for y in list.__iter__(x))
    if isinstance(x, (list, tuple)):
        return any(symbolic_arg(y) for y in x)
    if isinstance(x, dict):
        return any(symbolic_arg(y) for y in x.values())
    if isinstance(x, slice):
        return any(isinstance(y, Sym) for y in (x.start, x.stop, x.step))
    return hasattr(x, '_as_arr') or hasattr(x, '_np_asarray') or is_symseq(x)


def native_val(x):
    """Give native containers to the real NumPy"""
    if isinstance(x, VList):
        return [native_val(y) for y in list.__iter__(x)]
    if isinstance(x, VSet):
        return set(set.__iter__(x))
    if isinstance(x, tuple):
        return tuple(native_val(y) for y in x)
    return x


FUNCS = {}


def fn(f):
    FUNCS[f.__name__[3:]] = f
    return f


class NP:
    """Replacement of the module numpy"""
    def __getattr__(self, n):
        from . import bshim
        real = getattr(np, n)
        if isinstance(real, type) or not callable(real):
            return _TYPES.get(n, real)
        f = FUNCS.get(n)
        always = n in ALWAYS

        @functools.wraps(real)
        def g(*a, **k):
            if not always and not any(symbolic_arg(x) for x in a) and not any(symbolic_arg(x) for x in k.values()):
                r = real(*[native_val(x) for x in a], **{q: native_val(x) for q, x in k.items()})
                if n == 'arange' and r.size > 16 and r.dtype.kind in 'iuf':
                    return A.from_np(r)     # a symbolic array, by its formula
                return r
            if f is None:
                raise OutOfSubset('numpy.' + n)
            return f(*a, **k)
        return g

    @property
    def r_(self):
        return _R()

    @property
    def index_exp(self):
        return np.index_exp

    @property
    def s_(self):
        return np.s_


class _R:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if not any(symbolic_arg(x) for x in k):
            return np.r_[tuple(native_val(x) for x in k)]
        if any(isinstance(x, (slice, str)) for x in k):
            raise OutOfSubset('r_ with slices')
        return np_concatenate([x if A.is_arrlike(x) else _atleast1d(x) for x in k])


def _atleast1d(x):
    if isinstance(x, (SInt, int, np.integer)):
        dt = x.dt if isinstance(x, SInt) else (x.dtype if isinstance(x, np.integer) else None)
        t = V.term(x)
        # a Python integer adopts the type of the arrays it is joined with
        r = new((1,), dt or np.dtype(int), lambda idx: t)
        return r
    raise OutOfSubset('atleast_1d')


class _NpMeta(type):
    """numpy scalar type accepting symbolic values"""
    def __call__(cls, x=0):
        if isinstance(x, (SInt, SReal, SBool)):
            return V.mk_scalar(V.convert_term(x.t, getattr(x, 'dt', None), cls.dtype), cls.dtype)
        if isinstance(x, Arr):
            return x.astype(cls.dtype)
        if isinstance(x, Sym):
            raise OutOfSubset('conversion of %s' % type(x).__name__)
        return cls.real(native_val(x))

    def __instancecheck__(cls, x):
        if isinstance(x, (SInt, SReal)):
            return x.dt == cls.dtype
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, 'real', c), cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


_TYPES = {n: _NpMeta(n, (), dict(dtype=np.dtype(n), real=getattr(np, n))) for n in (
    'uint64', 'int64', 'uint32', 'int32', 'uint16', 'int16', 'uint8', 'int8', 'intp', 'float64', 'float32')}


def dtype_of(d):
    if d is None:
        return None
    if isinstance(d, _NpMeta):
        return d.dtype
    from . import bshim
    m = {bshim.b_int: int, bshim.b_float: float, bshim.b_bool: bool}
    try:
        if d in m:
            d = m[d]
    except TypeError:
        pass
    return np.dtype(d)


ALWAYS = {'zeros', 'empty', 'full', 'ones', 'zeros_like', 'empty_like', 'full_like'}


def _shape(s):
    if isinstance(s, (int, np.integer, SInt)):
        s = (s,)
    s = tuple(s)
    for d in s:
        if isinstance(d, SInt) and not E().implied(d.t >= 0):
            if not E().fork(d.t >= 0):
                raise ValueError('negative dimensions are not allowed')
        elif isinstance(d, int) and d < 0:
            raise ValueError('negative dimensions are not allowed')
    return tuple(dim(d) for d in s)


def zero(dt):
    return V.cast_term(z3.IntVal(0), dt) if dt.kind != 'V' else z3.Const('zero!' + str(dt), z3.IntSort())


@fn
def np_zeros(shape, dtype=float, order=None):
    dt = dtype_of(dtype)
    z = zero(dt)
    return new(_shape(shape), dt, lambda idx: z)


@fn
def np_ones(shape, dtype=float, order=None):
    dt = dtype_of(dtype)
    z = V.cast_term(z3.IntVal(1), dt)
    return new(_shape(shape), dt, lambda idx: z)


def opaque_dtype(dt):
    return getattr(dt, '_opaque', None)


@fn
def np_empty(shape, dtype=float, order=None):
    dt = dtype_of(dtype)
    shp = _shape(shape)
    sort = {'f': z3.RealSort(), 'b': z3.BoolSort()}.get(dt.kind, z3.IntSort())
    f = E().fresh_fn('uninit', [z3.IntSort()] * len(shp), sort)
    return new(shp, dt, lambda idx: f(*[I(i) for i in idx]))


@fn
def np_full(shape, fill_value, dtype=None, order=None):
    dt = dtype_of(dtype)
    if dt is None:
        dt = np.dtype(fill_value.dtype if hasattr(fill_value, 'dtype') else type(fill_value))
    t = V.convert_term(V.term(fill_value), None, dt)
    return new(_shape(shape), dt, lambda idx: t)


def _like(f):
    def g(a, *x, dtype=None):
        a = to_arr(a) if not isinstance(a, (list,)) else np_array(a)
        return f(tuple(mk_int(d) for d in a._shape), *x, dtype=dtype_of(dtype) or a.dtype)
    return g


FUNCS['zeros_like'] = np_zeros_like = _like(np_zeros)
FUNCS['empty_like'] = _like(np_empty)
FUNCS['ones_like'] = _like(np_ones)
FUNCS['full_like'] = _like(np_full)


@fn
def np_array(x, dtype=None, copy=True):
    dt = dtype_of(dtype)
    r = _mkarray(x, dt)
    if isinstance(r, Arr) and r is x:
        return r.copy()
    return r


@fn
def np_asarray(x, dtype=None):
    if hasattr(x, '_np_asarray'):
        # an object of a stub
        return x._np_asarray(dtype)
    dt = dtype_of(dtype)
    return _mkarray(x, dt)


FUNCS['asanyarray'] = np_asarray


@fn
def np_ascontiguousarray(x, dtype=None):
    r = np_asarray(x, dtype)
    if isinstance(r, Arr) and r.ndim == 0:
        r = r.reshape((1,))
    return r.copy() if isinstance(r, Arr) and not r.contig else r


def _mkarray(x, dt):
    if hasattr(x, '_as_arr'):
        x = x._as_arr()
    if isinstance(x, (Arr, np.ndarray)):
        if dt is not None and x.dtype != dt:
            return x.astype(dt)
        return x
    if isinstance(x, Sym):
        d = dt or getattr(x, 'dt', None) or (np.dtype(bool) if isinstance(x, SBool) else np.dtype(float if isinstance(x, SReal) else int))
        t = V.convert_term(x.t, getattr(x, 'dt', None), d)
        return new((), d, lambda idx: t)
    if is_symseq(x):
        s = as_seq(x)
        if isinstance(s, ArrSeq) and (dt is None or dt == s.a.dtype):
            return s.a if not s.py else s.a
        frm = _elem_dt(s)
        d = dt or frm
        return new((s.n,), d, lambda idx: V.convert_term(elem_term(s, I(idx[0])), frm, d))
    if isinstance(x, (list, tuple)):
        items = [y if isinstance(y, (Arr, np.ndarray)) else _mkarray(y, None) if symbolic_arg(y) or isinstance(y, (list, tuple))
                 else y for y in x]
        if all(not symbolic_arg(y) for y in items):
            return np.array([native_val(y) for y in items], dtype=dt)
        return _stack0(items, dt)
    return np.array(native_val(x), dtype=dt)


def _elem_dt(s):
    """dtype NumPy gives to an array of the elements of a sequence"""
    from .containers import SortedSeq, SubSeq, SliceSeq, FnSeq, RangeSeq
    if isinstance(s, ArrSeq):
        if s.py:
            return {'i': np.dtype(int), 'u': np.dtype(int), 'f': np.dtype(float), 'b': np.dtype(bool)}[s.a.dtype.kind]
        return s.a.dtype
    if isinstance(s, (SortedSeq, SubSeq, SliceSeq)):
        return _elem_dt(s.seq)
    if isinstance(s, RangeSeq):
        return np.dtype(int)
    if isinstance(s, CatSeq):
        return np.result_type(*[_elem_dt(x) for x in s.seqs])
    if isinstance(s, ListSeq):
        vals = s.items
    elif isinstance(s, LoopSeq):
        ds = []
        for p in s.pieces:
            for k, v in p:
                ds.append(_val_dt(v) if k == 'one' else _elem_dt(v))
        return np.result_type(*ds)
    elif isinstance(s, FnSeq):
        vals = [s.at(E().fresh('gi'))]
    else:
        raise OutOfSubset('elements of %s' % type(s).__name__)
    return np.result_type(*[_val_dt(v) for v in vals])


def _val_dt(v):
    if isinstance(v, Sym):
        d = getattr(v, 'dt', None)
        if d is None:
            d = np.dtype(bool) if isinstance(v, SBool) else np.dtype(float) if isinstance(v, SReal) else np.dtype(int)
        return d
    return np.asarray(v).dtype


def _ditem(y):
    if isinstance(y, (Arr, np.ndarray)):
        return np.zeros(1, y.dtype)
    if isinstance(y, Sym):
        return np.zeros((), y.dtype)[()]
    return y


def _stack0(items, dt):
    if dt is None:
        dt = np.result_type(*[(y.dtype if hasattr(y, 'dtype') else np.asarray(y).dtype) for y in items])
    ops = [A.operand(y) for y in items]
    frm = [y.dtype if hasattr(y, 'dtype') else None for y in items]
    sh = ops[0][0]
    for s, _ in ops[1:]:
        if len(s) != len(sh):
            raise OutOfSubset('ragged array')
        for a, b in zip(s, sh):
            if not same_dim(a, b):
                if not E().fork(I(a) == I(b)):
                    raise ValueError('inhomogeneous shape')
    n = len(items)

    def f(idx):
        i, rest = idx[0], tuple(idx[1:])
        if isinstance(i, int):
            return V.convert_term(ops[i][1](rest), frm[i], dt)
        r = V.convert_term(ops[n - 1][1](rest), frm[n - 1], dt)
        for k in range(n - 2, -1, -1):
            r = ite(simp(i == k), V.convert_term(ops[k][1](rest), frm[k], dt), r)
        return r
    return new((n,) + tuple(sh), dt, f)


@fn
def np_stack(arrays, axis=0):
    items = [to_arr(a) for a in arrays]
    if len({a.ndim for a in items}) > 1:
        raise ValueError('all input arrays must have the same shape')
    r = _stack0(items, None)
    nd = r.ndim
    axis = axis % nd
    if axis == 0:
        return r
    perm = list(range(1, nd))
    perm.insert(axis, 0)
    return A.transpose(r, perm)


@fn
def np_concatenate(arrays, axis=0):
    if is_symseq(arrays):
        return _cat_seq(as_seq(arrays), axis)
    items = [to_arr(a) for a in arrays]
    if not items:
        raise ValueError('need at least one array to concatenate')
    nd = items[0].ndim
    axis = axis % nd
    dts = [a.dtype for a in items]
    dt = np.result_type(*dts)
    fs = [a.fn() for a in items]
    starts = [0]
    for a in items:
        if a.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for k in range(nd):
            if k != axis and not same_dim(a._shape[k], items[0]._shape[k]):
                if not E().fork(I(a._shape[k]) == I(items[0]._shape[k])):
                    raise ValueError('all the input array dimensions must match')
        starts.append(A.add_i(starts[-1], a._shape[axis]))
    shape = list(items[0]._shape)
    shape[axis] = starts[-1]

    def f(idx):
        i = idx[axis]
        r = None
        for k in range(len(items) - 1, -1, -1):
            t = V.convert_term(fs[k](idx[:axis] + (A.sub_i(i, starts[k]),) + idx[axis + 1:]), dts[k], dt)
            if r is None:
                r = t
            else:
                c = (i < starts[k + 1]) if isinstance(i, int) and isinstance(starts[k + 1], int) else simp(I(i) < I(starts[k + 1]))
                r = ite(c, t, r)
        return r
    return new(shape, dt, f)


def _cat_seq(s, axis):
    """Concatenate a symbolic number of arrays along axis 0: the arrays must
    be of one dimension"""
    eng = E()
    if not eng.fork(I(s.n) > 0):
        raise ValueError('need at least one array to concatenate')
    if isinstance(s, LoopSeq) and not s.flat and all(len(p) <= 1 and all(k == 'one' for k, v in p) for p in s.pieces):
        return _cat_loop(s, axis)
    gi = eng.fresh('gi')
    eng.fact(z3.And(gi >= 0, gi < I(s.n)))
    a = s.at(gi)
    a = to_arr(a)
    if axis not in (0, -a.ndim):
        raise OutOfSubset('concatenation of many arrays along another axis')
    trail = a._shape[1:]
    if any(not isinstance(d, int) and mentions(d, gi) for d in trail):
        raise OutOfSubset('shapes of many arrays')
    n0 = I(a._shape[0])
    ps = psum.window(lambda k: z3.substitute(n0, (gi, I(k))), s.n)
    lo = ps.lo
    total = dim(ps.at(ps.hi) - ps.at(lo))
    f = a.fn()
    nd = a.ndim
    T = [z3.Const('cat!%d' % i, z3.IntSort()) for i in range(nd)]
    body = f(tuple(T))

    def g(idx):
        e = I(idx[0]) + ps.at(lo)
        b = ps.blk(e)
        off = e - ps.at(b)
        return z3.substitute(body, (gi, b - I(lo)), (T[0], off), *[(t, I(i)) for t, i in zip(T[1:], idx[1:])])
    r = new((total,) + tuple(trail), a.dtype, g)
    r.cat = (ps, gi, body, T)
    return r


def _cat_loop(s, axis):
    """Concatenation of what a loop appended in some of its iterations: the
    others contribute nothing"""
    eng = E()
    lp = s.lp
    gi = eng.fresh('gi')
    S = lambda t: t if isinstance(t, int) else lp._at(t, gi)
    from .loops import vsubst
    alts = [(g, p[0][1]) for g, p in zip(s.guards, s.pieces) if p]
    arrs = [(lp._at(g, gi), to_arr(vsubst(v, S))) for g, v in alts]
    a0 = arrs[0][1]
    if axis not in (0, -a0.ndim):
        raise OutOfSubset('concatenation of many arrays along another axis')
    trail = a0._shape[1:]
    if any(not isinstance(d, int) and mentions(d, gi) for g, a in arrs for d in a._shape[1:]):
        raise OutOfSubset('shapes of many arrays')
    if any(a.dtype != a0.dtype for g, a in arrs):
        raise OutOfSubset('types of many arrays')
    ln = z3.IntVal(0)
    for g, a in reversed(arrs):
        ln = z3.If(g, I(a._shape[0]), ln)
    rng = z3.And(gi >= 0, gi < I(s.loopn))
    for g, a in arrs:
        if eng.implied(z3.Implies(rng, ln == I(a._shape[0]))):
            ln = I(a._shape[0])
            break
    if __import__('os').environ.get('VC_DEBUG'):
        print('CAT', z3.simplify(ln), [g for g, a in arrs], [a._shape for g, a in arrs])
    ps = psum.window(lambda k: z3.substitute(ln, (gi, I(k))), s.loopn)
    lo = ps.lo
    total = dim(ps.at(ps.hi) - ps.at(lo))
    nd = a0.ndim
    T = [z3.Const('cat!%d' % i, z3.IntSort()) for i in range(nd)]
    body = None
    for g, a in reversed(arrs):
        t = a.fn()(tuple(T))
        body = t if body is None else z3.If(g, t, body)

    def f(idx):
        e = I(idx[0]) + ps.at(lo)
        b = ps.blk(e)
        off = e - ps.at(b)
        return z3.substitute(body, (gi, b - I(lo)), (T[0], off), *[(t, I(i)) for t, i in zip(T[1:], idx[1:])])
    r = new((total,) + tuple(trail), a0.dtype, f)
    r.cat = (ps, gi, body, T)
    return r


@fn
def np_diff(a, n=1, axis=-1):
    a = to_arr(a)
    if a.ndim != 1 or n != 1:
        raise OutOfSubset('diff')
    f = a.fn()
    ln = A._pos(A.sub_i(a._shape[0], 1))
    dt = a.dtype
    if dt.kind == 'b':
        return new((ln,), dt, lambda idx: simp(z3.Xor(f((A.add_i(idx[0], 1),)), f((idx[0],)))))
    return a[1:] - a[:-1]


@fn
def np_cumsum(a, axis=None, dtype=None):
    a = to_arr(a)
    if a.ndim != 1:
        raise OutOfSubset('cumsum')
    dt = np.cumsum(np.ones(1, a.dtype), dtype=dtype_of(dtype)).dtype
    if dt.kind not in 'iu':
        raise OutOfSubset('cumsum of reals')
    f = a.fn()
    ps = psum.window(lambda k: V.cast_term(f((k,)), dt), a._shape[0])

    def g(idx):
        i = I(idx[0])
        return simp(ps.at(dim(I(ps.lo) + i + 1)) - ps.at(ps.lo))
    eng, tot = E(), psum_total(ps)
    if dt.kind == 'u' and not eng.implied(z3.And(tot >= 0, tot < 2 ** (8 * dt.itemsize))):
        j = eng.fresh('inc')
        if eng.implied(z3.Implies(z3.And(j >= I(ps.lo), j < I(ps.hi)), z3.And(ps.d(j) >= 0, ps.d(j) <= 1))):
            # a sum of that many zeros and ones; there is memory for all of them
            eng.fact(z3.And(tot <= I(a._shape[0]), tot >= 0, I(a._shape[0]) < 2 ** 60))
    wrap_all(tot, dt)
    return new(a._shape, dt, g)


def psum_total(ps):
    return ps.at(ps.hi) - ps.at(ps.lo)


def wrap_all(t, dt):
    """All partial sums are in range if the total is (increments >= 0)"""
    if dt.kind == 'u' and not E().implied(z3.And(t >= 0, t < 2 ** (8 * dt.itemsize))):
        raise OutOfSubset('possible overflow of a sum')
    if dt.kind == 'i':
        E().notes.add('signed 64-bit integer arithmetic treated as mathematical')


@fn
def np_sum(a, axis=None, dtype=None, **k):
    if is_symseq(a) and not isinstance(a, Arr):
        a = _mkarray(a, None)
    return to_arr(_mkarray(a, None)).sum(axis=axis, dtype=dtype_of(dtype))


@fn
def np_any(a, axis=None):
    return to_arr(_mkarray(a, None)).any(axis)


@fn
def np_all(a, axis=None):
    return to_arr(_mkarray(a, None)).all(axis)


@fn
def np_min(a, axis=None):
    return to_arr(_mkarray(a, None)).min(axis)


@fn
def np_max(a, axis=None):
    return to_arr(_mkarray(a, None)).max(axis)


FUNCS['amin'], FUNCS['amax'] = np_min, np_max


@fn
def np_nonzero(a):
    return A.nonzero(to_arr(a))


@fn
def np_flatnonzero(a):
    return A.nonzero(to_arr(a))[0]


@fn
def np_repeat(a, counts, axis=None):
    eng = E()
    a = to_arr(_mkarray(a, None))
    if a.ndim > 1:
        raise OutOfSubset('repeat of a multi-dimensional array')
    if a.ndim == 0:
        a = new((1,), a.dtype, lambda idx, f=a.fn(): f(()))
    if isinstance(counts, (int, np.integer, SInt)):
        c = I(V.term(counts))
        if not isinstance(counts, (int, np.integer)) and not eng.implied(c >= 0):
            if not eng.fork(c >= 0):
                raise ValueError('counts cannot be negative')
        f = a.fn()
        n = a._shape[0]
        if isinstance(n, int) and n == 1:
            return new((dim(c),), a.dtype, lambda idx: f((0,)))
        cnt = lambda k: c
    else:
        counts = to_arr(counts)
        if counts.dtype == np.dtype('u8'):
            raise TypeError('Cannot cast array data from uint64 to int64')
        if not same_dim(counts._shape[0], a._shape[0]):
            one = isinstance(a._shape[0], int) and a._shape[0] == 1 or isinstance(counts._shape[0], int) and counts._shape[0] == 1
            if one:
                raise OutOfSubset('broadcast in repeat')
            if not eng.fork(I(counts._shape[0]) == I(a._shape[0])):
                raise ValueError('operands could not be broadcast together')
        fc = counts.fn()
        cnt = lambda k: fc((k,))
        g = eng.fresh('gi')
        if not eng.implied(z3.Implies(z3.And(g >= 0, g < I(a._shape[0])), cnt(g) >= 0), rlimit=4000000):
            raise OutOfSubset('repeat with possibly negative counts')
    f = a.fn()
    ps = psum.window(cnt, a._shape[0])
    if not ps.mono:
        raise OutOfSubset('repeat counts')
    lo = ps.lo
    n = dim(ps.at(ps.hi) - ps.at(lo))

    def g(idx):
        e = I(idx[0]) + ps.at(lo)
        return f((dim(ps.blk(e) - I(lo)),))
    r = new((n,), a.dtype, g)
    return r


def progression(lo, st):
    """i -> lo + i * st, for st >= 1 (as lo + M(i), M(0) == 0 and
    M(i + 1) == M(i) + st)"""
    eng = E()
    memo = eng.path.memo
    key = ('progression', st.get_id())
    if key not in memo:
        M = eng.fresh_fn('steps', [z3.IntSort()], z3.IntSort())
        i, j = bound_var(hint='i'), bound_var(hint='j')
        eng.fact(M(z3.IntVal(0)) == 0)
        eng.fact(z3.And(M(i) >= i, z3.Implies(st == 1, M(i) == i)), [i], [i >= 0], [(M(i),)])
        eng.fact(M(i + 1) == M(i) + st, [i], [i >= 0], [(M(i + 1),)])
        eng.fact(M(i) < M(j), [i, j], [i >= 0, i < j], [(M(i), M(j))])
        memo[key] = (M, st)
    M = memo[key][0]
    g = lambda i: lo + M(I(i))
    g.M = M
    return g


def _sym_arange(lo, hi, st, dt):
    eng = E()
    lo, hi, st = [I(V.term(x)) for x in (lo, hi, st)]
    if dt is None or dt.itemsize != 8 or not eng.implied(z3.And(st >= 1, lo >= 0, hi < 2 ** 63)):
        raise OutOfSubset('arange with this step')
    g = progression(lo, st)
    n = eng.fresh('arange_n')
    i = bound_var(hint='i')
    eng.fact(z3.And(n >= 0, n <= z3.If(hi > lo, hi - lo, 0), z3.Implies(n == 0, lo >= hi)))
    eng.fact(z3.And(g(n) >= hi, z3.Implies(n > 0, g(n - 1) < hi)))
    eng.fact((i < n) == (g(i) < hi), [i], [i >= 0], [(g.M(i),)])
    return new((dim(n),), dt, lambda idx: g(I(idx[0])))


@fn
def np_arange(*a, dtype=None, step=None):
    if step is not None:
        a = (tuple(a) if len(a) > 1 else (0,) + tuple(a)) + (step,)
    if len(a) == 3 and isinstance(a[2], SInt) and not any(isinstance(x, (float, SReal)) for x in a):
        return _sym_arange(*a, dtype_of(dtype))
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    if isinstance(st, (Sym, float)) or st <= 0 or any(isinstance(x, (float, SReal)) for x in (lo, hi)):
        raise OutOfSubset('arange')
    dt = dtype_of(dtype)
    if dt is None:
        cand = [x.dt if isinstance(x, SInt) and x.dt is not None else getattr(x, 'dtype', np.dtype(int)) for x in (lo, hi)]
        cand = [c for c in cand if c is not None] or [np.dtype(int)]
        dt = np.result_type(*cand)
    d = I(V.term(hi)) - I(V.term(lo))
    if st != 1:
        d = (d + (st - 1)) / st
    L = V.term(lo)
    return new((A._pos(dim(d)),), dt, lambda idx: simp(V.cast_term(I(L) + st * I(idx[0]), dt)))


def member(x, a):
    """Is x an element of 1-D array a"""
    f = a.fn()
    q = bound_var(hint='m')
    n = a._shape[0]
    if isinstance(n, int) and n <= 16:
        return disj([simp(f((i,)) == x) for i in range(n)])
    return z3.Exists([q], z3.And(q >= 0, q < I(n), f((q,)) == x))


@fn
def np_isin(a, b, assume_unique=False, invert=False):
    a, b = to_arr(_mkarray(a, None)), to_arr(_mkarray(b, None))
    A._cmp_exact(a, b)
    if b.ndim != 1:
        b = A.reshape(b, (-1,))
    f = a.fn()
    eng = E()
    # witness: position in b
    w = eng.fresh_fn('isin_w', [f((z3.IntVal(0),) * a.ndim).sort()], z3.IntSort())
    fb = b.fn()
    q = bound_var(hint='m')
    n = b._shape[0]
    ismem = eng.fresh_fn('isin', [z3.IntSort()], z3.BoolSort())
    x = bound_var(hint='x')
    eng.fact(z3.And(ismem(fb((q,))), z3.BoolVal(True)), [q], [q >= 0, q < I(n)], A._auto_pats(fb((q,)), q))
    eng.fact(z3.And(w(x) >= 0, w(x) < I(n), fb((w(x),)) == x), [x], [ismem(x)], [(ismem(x),)])
    return new(a._shape, 'bool', lambda idx: z3.Not(ismem(f(idx))) if invert else ismem(f(idx)))


FUNCS['in1d'] = np_isin


@fn
def np_count_nonzero(a, axis=None):
    a = to_arr(_mkarray(a, None))
    if a.dtype.kind != 'b':
        a = elementwise('ne', a, 0)
    r = a.astype(np.intp).sum(axis)
    if axis is None:
        return mk_int(r.t) if isinstance(r, SInt) else int(r)
    return r


@fn
def np_where(cond, *xy):
    if not xy:
        return A.nonzero(to_arr(cond))
    x, y = xy
    sc, fc = A.operand(cond)
    sx, fx = A.operand(x)
    sy, fy = A.operand(y)
    dt = np.where(np.zeros(1, bool), _ditem(x), _ditem(y)).dtype
    shape = A.broadcast([sc, sx, sy])
    dx, dy = getattr(x, 'dtype', None), getattr(y, 'dtype', None)

    def f(idx):
        return ite(simp(V.cast_term(fc(A.bidx_for(sc, idx)), np.dtype(bool))),
                   V.convert_term(fx(A.bidx_for(sx, idx)), dx, dt), V.convert_term(fy(A.bidx_for(sy, idx)), dy, dt))
    return new(shape, dt, f)


@fn
def np_unique(a, return_index=False, return_inverse=False, return_counts=False):
    if return_index or return_inverse or return_counts:
        raise OutOfSubset('unique with extra results')
    eng = E()
    a = to_arr(_mkarray(a, None))
    if a.ndim != 1:
        raise OutOfSubset('unique')
    return from_elements(lambda x: None, [a], a.dtype, 'uniq')


def from_elements(_, arrays, dt, name, both=False):
    """Increasing array of the distinct elements of the arrays (of all of them
    if both)"""
    eng = E()
    m = eng.fresh(name + '_n')
    u = eng.fresh_fn(name, [z3.IntSort()], z3.IntSort())
    rk = eng.fresh_fn(name + '_rk', [z3.IntSort()], z3.IntSort())
    if dt.kind not in 'iu':
        raise OutOfSubset('unique of reals')
    k, k2 = bound_var(hint='k'), bound_var(hint='k2')
    eng.fact(m >= 0)
    eng.fact(u(k) < u(k2), [k, k2], [k >= 0, k < k2, k2 < m], [(u(k), u(k2))])
    ws = []
    for i, a in enumerate(arrays):
        w = eng.fresh_fn(name + '_w%d' % i, [z3.IntSort()], z3.IntSort())
        ws.append((a, w, a.fn()))
    if both:
        body = [z3.And(w(k) >= 0, w(k) < I(a._shape[0]), f((w(k),)) == u(k)) for a, w, f in ws]
        eng.fact(conj(body + [rk(u(k)) == k]), [k], [k >= 0, k < m], [(u(k),)])
        (a, wa, fa), (b, wb, fb) = ws
        i, j = bound_var(hint='i'), bound_var(hint='j')
        ea, eb = fa((i,)), fb((j,))
        eng.fact(z3.And(rk(ea) >= 0, rk(ea) < m, u(rk(ea)) == ea), [i, j],
                 [i >= 0, i < I(a._shape[0]), j >= 0, j < I(b._shape[0]), ea == eb],
                 [tuple(p[0] for p in (A._auto_pats(ea, i)[:1] + A._auto_pats(eb, j)[:1]))])
    else:
        body = disj([z3.And(w(k) >= 0, w(k) < I(a._shape[0]), f((w(k),)) == u(k)) for a, w, f in ws])
        eng.fact(z3.And(body, rk(u(k)) == k), [k], [k >= 0, k < m], [(u(k),)])
        tot = 0
        for a, w, f in ws:
            i = bound_var(hint='i')
            e = f((i,))
            eng.fact(z3.And(rk(e) >= 0, rk(e) < m, u(rk(e)) == e), [i], [i >= 0, i < I(a._shape[0])], A._auto_pats(e, i))
            tot = A.add_i(tot, a._shape[0])
        eng.fact(m <= I(tot))
        eng.fact(z3.Implies(I(tot) > 0, m > 0))
        if len(arrays) == 1:
            # as many as there were: all distinct
            a, w, f = ws[0]
            i, j = bound_var(hint='i'), bound_var(hint='j')
            eng.fact(f((i,)) != f((j,)), [i, j], [m == I(a._shape[0]), i >= 0, i < j, j < I(a._shape[0])],
                     [tuple(p[0] for p in (A._auto_pats(f((i,)), i)[:1] + A._auto_pats(f((j,)), j)[:1]))])
            # pigeonhole, the other way round
            d1, d2 = eng.fresh(name + '_d'), eng.fresh(name + '_e')
            eng.fact(z3.Implies(m < I(a._shape[0]), z3.And(d1 >= 0, d1 < d2, d2 < I(a._shape[0]), f((d1,)) == f((d2,)))))
    r = new((m,), dt, lambda idx: u(I(idx[0])))
    r.rank = rk
    return r


@fn
def np_intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise OutOfSubset('intersect1d with indices')
    a, b = to_arr(_mkarray(a, None)), to_arr(_mkarray(b, None))
    A._cmp_exact(a, b)
    return from_elements(None, [a, b], np.result_type(a.dtype, b.dtype), 'isect', both=True)


@fn
def np_union1d(a, b):
    a, b = to_arr(_mkarray(a, None)), to_arr(_mkarray(b, None))
    return from_elements(None, [a, b], np.result_type(a.dtype, b.dtype), 'un1d')


@fn
def np_divmod(a, b):
    return a // b, a % b


@fn
def np_abs(a):
    a = _mkarray(a, None)
    f = a.fn()
    return new(a._shape, a.dtype, lambda idx: z3.If(f(idx) >= 0, f(idx), -f(idx)))


FUNCS['absolute'] = np_abs


@fn
def np_format_float_positional(x, precision=None, unique=True, fractional=True, trim='k', sign=False, **kw):
    """The shortest text that reads back as the same number (unless limited)"""
    exact = precision is None and unique
    return V.number_text(x, 'positional' if exact else 'inexact') or '<real>'


@fn
def np_format_float_scientific(x, precision=None, unique=True, trim='k', sign=False, **kw):
    return V.number_text(x, 'scientific' if precision is None and unique else 'inexact') or '<real>'


@fn
def np_array2string(x, *a, **kw):
    return V.number_text(x, 'inexact') or '<real>'


@fn
def np_around(a, decimals=0):
    """Round half to even: |r - x| <= 1/2"""
    if decimals:
        raise OutOfSubset('around')
    if isinstance(a, Arr):
        f = a.fn()
        return new(a._shape, a.dtype, lambda idx: round_term(f(idx)))
    return SReal(round_term(V.term(a)))


FUNCS['round'] = FUNCS['rint'] = FUNCS['round_'] = np_around


def round_term(x):
    x = to_real(x)
    fl = z3.ToInt(x)
    fr = x - z3.ToReal(fl)
    half = z3.RealVal('1/2')
    up = z3.Or(fr > half, z3.And(fr == half, fl % 2 == 1))
    return z3.ToReal(z3.If(up, fl + 1, fl))


@fn
def np_floor(a):
    f = lambda x: z3.ToReal(z3.ToInt(to_real(x)))
    if isinstance(a, Arr):
        g = a.fn()
        return new(a._shape, a.dtype, lambda idx: f(g(idx)))
    return SReal(f(V.term(a)))


@fn
def np_ceil(a):
    f = lambda x: -z3.ToReal(z3.ToInt(-to_real(x)))
    if isinstance(a, Arr):
        g = a.fn()
        return new(a._shape, a.dtype, lambda idx: f(g(idx)))
    return SReal(f(V.term(a)))


@fn
def np_isnan(a):
    raise OutOfSubset('isnan')


@fn
def np_transpose(a, axes=None):
    return to_arr(a).transpose(*(axes or ()))


@fn
def np_swapaxes(a, x, y):
    return to_arr(a).swapaxes(x, y)


@fn
def np_moveaxis(a, src, dst):
    a = to_arr(a)
    order = [n for n in range(a.ndim) if n != src % a.ndim]
    order.insert(dst % a.ndim, src % a.ndim)
    return A.transpose(a, order)


@fn
def np_expand_dims(a, axis):
    a = to_arr(a)
    axis = axis % (a.ndim + 1)
    return a[(slice(None),) * axis + (None,)]


@fn
def np_reshape(a, shp):
    return to_arr(a).reshape(shp)


@fn
def np_ravel(a):
    return to_arr(a).ravel()


@fn
def np_squeeze(a, axis=None):
    a = to_arr(a)
    keep = [k for k in range(a.ndim) if not (isinstance(a._shape[k], int) and a._shape[k] == 1)]
    return a[tuple(slice(None) if k in keep else 0 for k in range(a.ndim))]


@fn
def np_split(a, sections, axis=0):
    a = to_arr(a)
    axis = axis % a.ndim
    n = a._shape[axis]
    if isinstance(sections, (int, np.integer)):
        if not isinstance(n, int):
            raise OutOfSubset('split')
        if n % sections:
            raise ValueError('array split does not result in an equal division')
        cuts = [n // sections * i for i in range(1, sections)]
    elif is_symseq(sections) or isinstance(sections, Arr) and not isinstance(sections._shape[0], int):
        from .containers import FnSeq
        if axis != 0:
            raise OutOfSubset('split')
        cut = to_arr(np_array(sections))
        m, f, eng = I(cut._shape[0]), cut.fn(), E()
        g = eng.fresh('gi')
        c = f((g,))
        if not eng.implied(z3.Implies(z3.And(g >= 0, g < m), z3.And(c >= 0, c <= I(n))), rlimit=3000000):
            raise OutOfSubset('split at symbolic positions')

        def part(k):
            k = I(k)
            lo = simp(z3.If(k == 0, z3.IntVal(0), f((k - 1,))))
            hi = simp(z3.If(k == m, I(n), f((k,))))
            return a[mk_int(lo):mk_int(hi)]
        return VList.from_seq(FnSeq(simp(m + 1), part))
    else:
        cuts = list(sections)
    pts = [0] + cuts + [n]
    pre = (slice(None),) * axis
    return VList([a[pre + (slice(mk_int(x), mk_int(y)),)] for x, y in zip(pts, pts[1:])])


@fn
def np_meshgrid(*xs, indexing='xy'):
    xs = [to_arr(_mkarray(x, None)) for x in xs]
    shape = [x._shape[0] for x in xs]
    perm = list(range(len(xs)))
    if indexing == 'xy' and len(xs) >= 2:
        shape[0], shape[1] = shape[1], shape[0]
        perm[0], perm[1] = 1, 0
    out = []
    for k, x in enumerate(xs):
        f = x.fn()
        out.append(new(shape, x.dtype, lambda idx, f=f, d=perm[k]: f((idx[d],))))
    return VList(out)


@fn
def np_array_equal(a, b):
    a, b = to_arr(_mkarray(a, None)), to_arr(_mkarray(b, None))
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not same_dim(x, y) and not E().fork(I(x) == I(y)):
            return False
    return elementwise('eq', a, b).all()


@fn
def np_broadcast_to(a, shape):
    a = to_arr(a)
    shape = _shape(shape)
    f, s = a.fn(), a._shape
    return new(shape, a.dtype, lambda idx: f(A.bidx_for(s, idx)))


@fn
def np_product(a, **k):
    r = 1
    for x in (a if isinstance(a, (tuple, list)) else list(a)):
        r = r * x
    return r


FUNCS['prod'] = np_product


@fn
def np_dot(a, b):
    a, b = to_arr(_mkarray(a, None)), to_arr(_mkarray(b, None))
    if a.ndim == 1 and b.ndim == 1:
        return elementwise('mul', a, b).sum()
    raise OutOfSubset('dot')


@fn
def np_full_like_(a, v):
    raise OutOfSubset('full_like')


for _n in ('add', 'subtract', 'multiply'):
    FUNCS[_n] = (lambda op: lambda a, b: elementwise(op, a, b) if A.is_arrlike(a) or A.is_arrlike(b) else
                 V.scalar_arith(op, a, b))({'add': 'add', 'subtract': 'sub', 'multiply': 'mul'}[_n])


@fn
def np_shape(a):
    return a.shape


@fn
def np_ndim(a):
    return a.ndim if hasattr(a, 'ndim') else np.ndim(native_val(a))


@fn
def np_searchsorted(a, v, side='left'):
    raise OutOfSubset('searchsorted')


NPM = NP()
