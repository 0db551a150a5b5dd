"""Pull arrays over mutable buffers"""
import itertools
import sys
from fractions import Fraction
import numpy as np
from .core import z3, E, I, simp, bound_var, conj, disj, OutOfSubset, Fact, forall
from .values import *
from .values import SArr, _foreign, ite
from . import values as V

sys.setrecursionlimit(40000)


class Buf:
    """Memory: content as a function of the index"""
    def __init__(self, shape, dtype, fn, frozen=None):
        self.shape, self.dtype, self.fn = tuple(shape), np.dtype(dtype), fn
        eng = E()
        self.uid = eng.new_uid()
        self.epoch = eng.epoch
        self.frozen = frozen
        self.version = 0
        eng.path.__dict__.setdefault('objects', {})[self.uid] = self

    def read(self, idx):
        return self.fn(idx)

    def note_read(self):
        p = E().path
        for fr in p.frames:
            if self.epoch < fr.epoch:
                fr.reads.add(self.uid)

    def write(self, cond, val):
        """cond(bidx) -> Bool term/bool; val(bidx) -> term"""
        if self.frozen:
            raise OutOfSubset('write to ' + self.frozen)
        eng = E()
        for fr in reversed(eng.path.frames):
            if self.epoch < fr.epoch:
                fr.effects.append(('write', self.uid, cond, val))
                return
            break
        old = self.fn

        def fn(idx, cond=cond, val=val, old=old):
            c = cond(idx)
            if isinstance(c, bool):
                return val(idx) if c else old(idx)
            c = simp(c)
            if z3.is_true(c):
                return val(idx)
            if z3.is_false(c):
                return old(idx)
            return ite(c, val(idx), old(idx))
        self.fn = fn
        self.version += 1


    def _loop_effects(self, lp, n, guards, per_path):
        """n iterations wrote: an element has the value of the last iteration
        that wrote it"""
        eng = E()
        nd = len(self.shape)
        B = [z3.Const('B!%d!%d' % (d, nd), z3.IntSort()) for d in range(nd)]
        b = tuple(B)
        alts = []
        for g, efs in zip(guards, per_path):
            for ef in efs:
                c = ef[2](b)
                c = z3.BoolVal(c) if isinstance(c, bool) else c
                alts.append((simp(z3.And(g, c)), ef[3](b)))
        j = lp.j
        W = lp._at(disj([c for c, v in alts]), j)
        own = eng.fresh_fn('own', [z3.IntSort()] * nd, z3.IntSort())
        qs = [bound_var(hint='b') for _ in range(nd)]
        k = bound_var(hint='k')
        sub = list(zip(B, qs))
        w = lambda kk: z3.substitute(W, (j, kk), *sub)
        o = own(*qs)
        N = I(n)
        eng.fact(z3.Or(o == -1, z3.And(o >= 0, o < N, w(o))), qs, (), [(o,)], tag='own')
        pats = [(o, p[0]) for p in _auto_pats(w(k), k)]
        eng.fact(o >= k, qs + [k], [k >= 0, k < N, w(k)], pats, tag='own-last')
        val = None
        for c, v in alts:       # of one iteration the last write counts
            v = lp._at(v, j)
            val = v if val is None else z3.If(lp._at(c, j), v, val)

        def cond(idx):
            return own(*[I(i) for i in idx]) >= 0

        def value(idx):
            oo = own(*[I(i) for i in idx])
            return z3.substitute(val, (j, oo), *[(x, I(i)) for x, i in zip(B, idx)])
        self.write(cond, value)


class Arr(SArr):
    def __init__(self, buf, shape, axes):
        """axes: per dimension of buf ('c', i) or ('a', k, start, step)"""
        self.buf, self._shape, self.axes = buf, tuple(shape), tuple(axes)

    # ---------------------------------------------------------- attributes
    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def shape(self):
        return tuple(mk_int(d) for d in self._shape)

    @shape.setter
    def shape(self, shp):
        r = reshape(self, shp)
        self.buf, self._shape, self.axes = r.buf, r._shape, r.axes

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return mk_int(size_t(self._shape))

    @property
    def T(self):
        return transpose(self, tuple(range(self.ndim))[::-1])

    @property
    def values(self):
        return self

    @property
    def contig(self):
        """Whether the memory is known to be in C order"""
        return getattr(self.buf, 'contig', True) and _plain(self.axes) and len(self._shape) == len(self.buf.shape) \
            and all(same_dim(a, b) for a, b in zip(self._shape, self.buf.shape))

    @property
    def flags(self):
        return _Flags(self)

    @property
    def data(self):
        return MemView(self)

    def __repr__(self):
        return 'Arr(%s, %s)' % (self._shape, self.dtype)

    # ------------------------------------------------------------- reading
    def fn(self):
        """Snapshot: index tuple -> term"""
        buf, axes = self.buf, self.axes
        buf.note_read()
        f = buf.fn
        if _plain(axes) and len(axes) == len(self._shape):
            return f

        def g(idx):
            return f(_bidx(axes, idx))
        return g

    def elem(self, *idx):
        return self.fn()(tuple(dim(i) if not isinstance(i, z3.ExprRef) else i for i in idx))

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        n = self._shape[0]
        if isinstance(n, int):
            return n
        raise OutOfSubset('len() of a symbolic array by native code')

    def sym_len(self):
        return mk_int(self._shape[0])

    def __iter__(self):
        n = self._shape[0]
        if not isinstance(n, int):
            raise OutOfSubset('native iteration over a symbolic array')
        for i in range(n):
            yield self[i]

    def __bool__(self):
        if all(d == 1 for d in self._shape):
            return E().fork(V.cast_term(self.elem(*([0] * self.ndim)), np.dtype(bool)))
        raise ValueError('truth value of an array is ambiguous')

    def __hash__(self):
        raise TypeError('unhashable')

    def __contains__(self, x):
        return elementwise('eq', self, x).any()

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    # ---------------------------------------------------------- operations
    def __invert__(self):
        if self.dtype.kind != 'b':
            raise OutOfSubset('bitwise not of integers')
        f = self.fn()
        return new(self._shape, 'bool', lambda idx: z3.Not(f(idx)))

    def __neg__(self):
        return elementwise('mul', self, -1)

    def _inplace(self, op, o):
        r = elementwise(op, self, o)
        if r.dtype != self.dtype and not np.can_cast(r.dtype, self.dtype, 'same_kind'):
            raise OutOfSubset('casting in an in-place operation')
        setitem(self, Ellipsis, r)
        return self

    def __iadd__(self, o):
        return self._inplace('add', o)

    def __isub__(self, o):
        return self._inplace('sub', o)

    def __imul__(self, o):
        return self._inplace('mul', o)

    def __itruediv__(self, o):
        return self._inplace('truediv', o)

    def __iand__(self, o):
        return self._inplace('and_', o)

    def __ior__(self, o):
        return self._inplace('or_', o)

    def astype(self, dt, copy=True):
        dt = np.dtype(dt)
        f, frm = self.fn(), self.dtype
        if frm == dt:
            return new(self._shape, dt, f)
        if dt.kind in 'iu' and frm.kind in 'iu':
            a, b = np.iinfo(frm), np.iinfo(dt)
            if not (int(a.min) >= int(b.min) and int(a.max) <= int(b.max)):
                # do all elements fit?
                gs = tuple(E().fresh('gc') for _ in self._shape)
                rng = [z3.And(g >= 0, g < I(d)) for g, d in zip(gs, self._shape)]
                t = f(gs)
                if E().implied(z3.Implies(conj(rng), z3.And(t >= int(b.min), t <= int(b.max)))):
                    return new(self._shape, dt, f)
        return new(self._shape, dt, lambda idx: V.convert_term(f(idx), frm, dt))

    def copy(self):
        return new(self._shape, self.dtype, self.fn())

    def tolist(self):
        from .containers import VList, ArrSeq
        if self.ndim != 1:
            raise OutOfSubset('tolist of a multi-dimensional array')
        return VList.from_seq(ArrSeq(self, py=True))

    def any(self, axis=None):
        return reduce_any(self, axis)

    def all(self, axis=None):
        r = reduce_any(~self if self.dtype.kind == 'b' else elementwise('eq', self, 0), axis)
        return ~r if isinstance(r, SArr) else mk_bool(z3.Not(V.term(r)), True)

    def sum(self, axis=None, dtype=None):
        return reduce_sum(self, axis, dtype)

    def min(self, axis=None):
        return reduce_ext(self, axis, 'min')

    def max(self, axis=None):
        return reduce_ext(self, axis, 'max')

    def nonzero(self):
        return nonzero(self)

    def reshape(self, *shp):
        if len(shp) == 1 and isinstance(shp[0], tuple):
            shp = shp[0]
        return reshape(self, shp)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return transpose(self, p)

    def transpose(self, *p):
        if len(p) == 1 and isinstance(p[0], tuple):
            p = p[0]
        return transpose(self, p or tuple(range(self.ndim))[::-1])

    def flatten(self):
        return reshape(self.copy(), (-1,))

    ravel = flatten

    def item(self):
        return mk_scalar(self.elem(*([0] * self.ndim)), self.dtype)

    def view(self):
        return Arr(self.buf, self._shape, self.axes)

    def _subst(self, sub):
        f = self.fn()
        b = Buf([sub(d) if isinstance(d, z3.ExprRef) else d for d in self._shape], self.dtype,
                lambda idx: sub(f(idx)), frozen='an array of another iteration')
        return full_view(b)


class _Flags:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        if k in ('C_CONTIGUOUS', 'C'):
            return self.a.contig
        raise OutOfSubset('array flag %s' % k)

    def __getattr__(self, k):
        if k in ('c_contiguous', 'contiguous'):
            return self.a.contig
        raise OutOfSubset('array flag %s' % k)


class MemView:
    """The memory of an array"""
    def __init__(self, a):
        self.a = a


def _plain(axes):
    return all(a[0] == 'a' and a[1] == i and isinstance(a[2], int) and a[2] == 0 and a[3] == 1
               for i, a in enumerate(axes))


def _bidx(axes, idx):
    out = []
    for a in axes:
        if a[0] == 'c':
            out.append(a[1])
        else:
            _, k, start, step = a
            out.append(_lin(start, step, idx[k]))
    return tuple(out)


def _lin(start, step, i):
    if isinstance(start, int) and isinstance(i, int):
        return start + step * i
    if isinstance(start, int) and start == 0 and step == 1:
        return i
    if isinstance(i, int) and i == 0:
        return start
    t = I(start) + (I(i) if step == 1 else step * I(i))
    t = simp(t)
    v = num_value(t)
    return t if v is None else v


def add_i(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return dim(I(a) + I(b))


def sub_i(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return dim(I(a) - I(b))


def full_view(buf):
    return Arr(buf, buf.shape, [('a', i, 0, 1) for i in range(len(buf.shape))])


def new(shape, dtype, fn):
    """A new array with given content"""
    return full_view(Buf([dim(d) for d in shape], dtype, _memo_fn(fn)))


def _memo_fn(fn):
    cache = {}

    def g(idx):
        k = tuple(i if isinstance(i, int) else ('t', i.get_id()) for i in idx)
        r = cache.get(k)
        if r is None:
            r = cache[k] = (fn(idx), idx)
        return r[0]
    return g


def size_t(shape):
    n = 1
    for d in shape:
        if isinstance(d, int) and isinstance(n, int):
            n = n * d
        else:
            n = I(n) * I(d)
    return dim(n)


def from_np(a):
    """Concrete NumPy array"""
    a = np.asarray(a)
    dt = a.dtype
    if dt.kind not in 'biuf':
        raise OutOfSubset('array of dtype %s' % dt)

    def fn(idx):
        if all(isinstance(i, int) for i in idx):
            return V.term(a[idx])
        if a.size == 0:
            return V.term(dt.type(0))
        if a.size > 8:
            if not affine:
                affine.append(_affine(a))
            if affine[0] is not None:
                c0, steps = affine[0]
                t = V.term(c0)
                for st, i in zip(steps, idx):
                    if st != 0:
                        t = t + V.term(st) * (I(i) if dt.kind in 'iu' else z3.ToReal(I(i)))
                return simp(t)
        if a.size > 512:
            raise OutOfSubset('symbolic index into a large concrete array')
        return pick(a, idx)
    affine = []
    return new(a.shape, dt, fn)


def _affine(a):
    """(c0, steps) if a[i, j, ..] == c0 + i * steps[0] + j * steps[1] ..,
    exactly; else None"""
    if a.dtype.kind not in 'iuf' or a.size == 0 or not np.all(np.isfinite(a)):
        return None
    o = a.astype(object)
    c0 = _exact(a[(0,) * a.ndim])
    steps = []
    want = np.full(a.shape, c0, dtype=object)
    for k, n in enumerate(a.shape):
        st = _exact(a[tuple(1 if x == k else 0 for x in range(a.ndim))]) - c0 if n > 1 else 0
        steps.append(st)
        shp = [1] * a.ndim
        shp[k] = n
        want = want + np.array([st * i for i in range(n)], dtype=object).reshape(shp)
    if not (want == o).all():
        return None
    conv = (lambda x: x) if a.dtype.kind in 'iu' else float
    if any(_exact(conv(s)) != s for s in steps + [c0]):
        return None
    return conv(c0), [conv(s) for s in steps]


def _exact(x):
    return int(x) if np.asarray(x).dtype.kind in 'iu' else Fraction(float(x))


def pick(a, idx):
    """ite chain over a small concrete array"""
    if a.ndim == 0:
        return V.term(a[()])
    i, rest = idx[0], idx[1:]
    if isinstance(i, int):
        return pick(a[i], rest)
    r = pick(a[-1], rest)
    for k in range(a.shape[0] - 2, -1, -1):
        r = ite(simp(i == k), pick(a[k], rest), r)
    return r


def to_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, np.ndarray):
        return from_np(x)
    if isinstance(x, Sym) and hasattr(x, '_as_arr'):
        return x._as_arr()
    raise OutOfSubset('not an array: {!r}'.format(type(x)))


def is_arrlike(x):
    return isinstance(x, (Arr, np.ndarray)) and getattr(x, 'ndim', 1) > 0


# ------------------------------------------------------------- element-wise

def broadcast(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        ds = [s[k - nd + len(s)] for s in shapes if k - nd + len(s) >= 0]
        r = 1
        for d in ds:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(r, int) and r == 1:
                r = d
            elif not same_dim(r, d):
                if E().fork(I(r) == I(d)):
                    continue
                if E().implied(z3.And(I(r) != 1, I(d) != 1)):
                    raise ValueError('operands could not be broadcast together')
                raise OutOfSubset('unclear broadcasting')
        out.append(r)
    return tuple(out)


def bidx_for(shape, idx):
    """Index into an operand of given shape for a broadcast index"""
    n = len(shape)
    tail = idx[len(idx) - n:] if n else ()
    return tuple(0 if (isinstance(d, int) and d == 1) else i for d, i in zip(shape, tail))


def operand(x):
    """(shape, fn, dtype-ish)"""
    if isinstance(x, (Arr, np.ndarray)) or hasattr(x, '_as_arr'):
        a = to_arr(x)
        return a._shape, a.fn()
    t = V.term(x)
    return (), (lambda idx: t)


def elementwise(opname, x, y):
    if isinstance(x, np.ndarray) and x.dtype.kind not in 'biuf' or isinstance(y, np.ndarray) and y.dtype.kind not in 'biuf':
        raise OutOfSubset('object array')
    sx, fx = operand(x)
    sy, fy = operand(y)
    shape = broadcast([sx, sy])
    if opname in V.ARITH:
        dt, _ = V.result_dtype(V.ARITH[opname], x, y)
        V._check_exact(x, y, dt)
        _arr_exact(x, y, dt)
        comb = lambda a, b: V.arith_term(opname, a, b, dt)
    elif opname in V.COMPARE:
        dt = np.dtype(bool)
        _cmp_exact(x, y)
        comb = lambda a, b: V.compare_term(opname, a, b)
    else:
        dt = np.dtype(bool)
        if V.result_dtype(V.BITS[opname], x, y)[0] != dt:
            raise OutOfSubset('bitwise operation on integers')
        comb = {'and_': z3.And, 'or_': z3.Or, 'xor': z3.Xor}[opname]
    r = new(shape, dt, lambda idx: simp1(comb(fx(bidx_for(sx, idx)), fy(bidx_for(sy, idx)))))
    if not shape:
        return mk_scalar(r.elem(), dt)
    return r


def simp1(t):
    """Cheap simplification"""
    return simp(t)


def _arr_exact(x, y, dt):
    if dt is None or dt.kind != 'f':
        return
    for v in (x, y):
        if isinstance(v, Arr) and v.dtype.kind in 'iu' and v.dtype.itemsize == 8:
            if not _small(v):
                raise OutOfSubset('integers converted to float')


def _cmp_exact(x, y):
    """uint64 compared with int64 goes through float64 in NumPy"""
    k = []
    for v in (x, y):
        c, t = V.kind_of(v)
        k.append((c, np.dtype(t) if c != 'py' else t))
    if all(c != 'py' for c, t in k) and k[0][1] != k[1][1]:
        if np.result_type(k[0][1], k[1][1]).kind == 'f' and all(t.kind in 'iu' for c, t in k):
            for v in (x, y):
                if isinstance(v, Arr) and not _small(v):
                    raise OutOfSubset('integers compared as floats')
                if isinstance(v, SInt) and not E().implied(z3.And(v.t <= 2 ** 53, v.t >= -2 ** 53)):
                    raise OutOfSubset('integers compared as floats')


def _small(v):
    eng = E()
    qs = [eng.fresh('gi') for _ in v._shape]
    t = v.fn()(tuple(qs))
    hy = [z3.And(q >= 0, q < I(d)) for q, d in zip(qs, v._shape)]
    return eng.implied(z3.Implies(conj(hy), z3.And(t <= 2 ** 53, t >= -2 ** 53)))


# ----------------------------------------------------------------- indexing

def concretise(x, options):
    """Fork until the symbolic integer equals one of the options"""
    if not isinstance(x, SInt):
        return int(x)
    for o in options[:-1]:
        if E().fork(x.t == o):
            return o
    if E().fork(x.t == options[-1]):
        return options[-1]
    raise OutOfSubset('symbolic step')


def norm_slice(s, n):
    """(start, length, step) of a slice of an axis of length n (dims)"""
    step = 1 if s.step is None else 1 if isinstance(s.step, SInt) and E().implied(s.step.t == 1) else \
        concretise(s.step, [1, -1]) if isinstance(s.step, SInt) else int(s.step)
    if step == 0:
        raise ValueError('slice step cannot be zero')
    if step == 1 and s.start is None and s.stop is None:
        return 0, n, 1
    st = None if s.start is None else dim(s.start)
    sp = None if s.stop is None else dim(s.stop)
    if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (st, sp)):
        a, b, c = slice(st, sp, step).indices(n)
        return a, len(range(a, b, c)), c
    if step > 0:
        lo = _clip(st, n, 0)
        hi = _clip(sp, n, n)
        ln = _pos(sub_i(hi, lo))
        if step != 1:
            ln = dim((I(ln) + (step - 1)) / step)
        return lo, ln, step
    if st is None and sp is None:
        last = sub_i(n, 1)
        return last, (n if step == -1 else dim((I(n) + (-step - 1)) / (-step))), step
    raise OutOfSubset('symbolic slice with negative step')


def _clip(x, n, default):
    if x is None:
        return default
    if isinstance(x, int) and x == 0:
        return 0
    eng = E()
    X, N = I(x), I(n)
    if isinstance(x, int) and x < 0:
        return _pos(add_i(n, x))
    if not isinstance(x, int) and not eng.implied(X >= 0):
        if eng.implied(X < 0):
            return _pos(add_i(n, x))
        y = z3.If(X < 0, z3.If(X + N < 0, z3.IntVal(0), X + N), X)
        return dim(z3.If(y > N, N, y))
    if same_syntax(x, n) or eng.implied(X <= N):
        return x
    if eng.implied(X >= N):
        return n
    return dim(z3.If(X > N, N, X))


def same_syntax(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def _pos(x):
    if isinstance(x, int):
        return max(x, 0)
    if E().implied(x >= 0):
        return x
    if E().implied(x <= 0):
        return 0
    return dim(z3.If(x >= 0, x, z3.IntVal(0)))


def is_intlike(k):
    return isinstance(k, (int, np.integer, SInt)) and not isinstance(k, (bool, np.bool_))


def norm_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    for i, k in enumerate(key):
        if isinstance(k, list):
            from .npshim import np_array
            key[i] = np_array(k) if k else np.zeros(0, np.intp)
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        used += k.ndim if (is_arrlike(k) and k.dtype.kind == 'b') else 1
    ell = [i for i, k in enumerate(key) if k is Ellipsis]
    if len(ell) > 1:
        raise IndexError('more than one ellipsis')
    if used > ndim:
        raise IndexError('too many indices')
    fill = [slice(None)] * (ndim - used)
    if ell:
        key[ell[0]:ell[0] + 1] = fill
    else:
        key += fill
    return key


def norm_index(i, n):
    """Non-negative position for an integer index; IndexError if outside"""
    i = dim(i)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise IndexError('index out of bounds')
        return i + n if i < 0 else i
    ok = z3.And(I(i) >= -I(n), I(i) < I(n))
    if not E().fork(ok):
        raise IndexError('index out of bounds')
    if isinstance(i, int):
        return i if i >= 0 else add_i(n, i)
    if E().implied(i >= 0):
        return i
    if E().implied(i < 0):
        return add_i(n, i)
    return dim(z3.If(i < 0, i + I(n), i))


def basic_view(a, key):
    """Apply ints, slices and None"""
    shape, amap, axis = [], {}, 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = a._shape[axis]
        if is_intlike(k):
            amap[axis] = ('c', norm_index(k, n))
        elif isinstance(k, slice):
            st, ln, step = norm_slice(k, n)
            amap[axis] = ('a', len(shape), st, step)
            shape.append(ln)
        else:
            raise OutOfSubset('index {!r}'.format(type(k)))
        axis += 1
    axes = []
    for ax in a.axes:
        if ax[0] == 'c':
            axes.append(ax)
            continue
        _, k, start, step = ax
        m = amap[k]
        if m[0] == 'c':
            axes.append(('c', _lin(start, step, m[1])))
        else:
            _, vk, s2, st2 = m
            axes.append(('a', vk, _lin(start, step, s2), step * st2))
    return Arr(a.buf, shape, axes)


def _stepped_slice(a, key):
    """Slices with a symbolic step: as positions (the result is not to be
    written to: it would be a view)"""
    from .npshim import _sym_arange
    out, ax = [], 0
    for k in key:
        if isinstance(k, slice) and isinstance(k.step, SInt) and not E().implied(I(V.term(k.step)) == 1):
            n = a._shape[ax]
            hi = _clip(None if k.stop is None else dim(k.stop), n, n)
            lo = 0 if k.start is None else dim(k.start)
            if not E().implied(I(lo) >= 0):
                raise OutOfSubset('symbolic step')
            k = _sym_arange(mk_int(I(lo)), mk_int(I(hi)), k.step, np.dtype('i8'))
        out.append(k)
        ax += k is not None
    return out


def getitem(a, key):
    key = norm_key(key, a.ndim)
    if any(isinstance(k, slice) and isinstance(k.step, SInt) for k in key):
        key = _stepped_slice(a, key)
        if any(is_arrlike(k) for k in key):
            r = adv_get(a, key)
            r.buf.frozen = 'a view with a symbolic step'
            return r
    if not any(is_arrlike(k) for k in key):
        v = basic_view(a, key)
        if not v._shape:
            return mk_scalar(v.elem(), v.dtype)
        return v
    return adv_get(a, key)


def adv_get(a, key):
    adv = [i for i, k in enumerate(key) if is_arrlike(k)]
    if len(adv) > 1:
        raise OutOfSubset('several index arrays')
    p = adv[0]
    k = to_arr(key[p])
    if k.dtype.kind == 'b':
        if k.ndim != 1:
            raise OutOfSubset('multi-dimensional mask')
        # position of the mask's axis
        ax = sum(1 for x in key[:p] if x is not None)
        if not same_dim(k._shape[0], a._shape[ax]):
            if not E().fork(I(k._shape[0]) == I(a._shape[ax])):
                raise IndexError('boolean index did not match')
        k = nonzero(k)[0]
    # the other indexes are basic; scalars would be broadcast with the array:
    # only allowed next to it
    if any(is_intlike(x) for x in key):
        raise OutOfSubset('integer and array index')
    full = [slice(None) if i == p else x for i, x in enumerate(key)]
    v = basic_view(a, full)
    # axis of v which the array indexes
    vax = sum(1 for x in full[:p] if not is_intlike(x))
    n = v._shape[vax]
    fk, f = k.fn(), v.fn()
    # all indexes must be within the bounds
    eng = E()
    qs = [bound_var(hint='ki') for _ in k._shape]
    e = fk(tuple(qs))
    rng = conj([z3.And(q >= 0, q < I(d)) for q, d in zip(qs, k._shape)])
    if k.dtype.kind == 'u':
        inb = e < I(n)
    else:
        inb = z3.And(e >= -I(n), e < I(n))
    okf = forall(qs, z3.Implies(rng, inb))
    gs = [eng.fresh('gi') for _ in k._shape]
    sub = list(zip(qs, gs))
    if not eng.implied(z3.substitute(z3.Implies(rng, inb), *sub)):
        if not eng.fork(okf):
            raise IndexError('index out of bounds')
    nonneg = eng.implied(z3.substitute(z3.Implies(rng, e >= 0), *sub))
    kd = len(k._shape)

    def fn(idx):
        ki = idx[vax:vax + kd]
        e = fk(ki)
        if not nonneg:
            e = z3.If(e < 0, e + I(n), e)
        return f(idx[:vax] + (dim(e),) + idx[vax + kd:])
    shape = v._shape[:vax] + k._shape + v._shape[vax + 1:]
    return new(shape, a.dtype, fn)


def region(a):
    """cond(bidx), inverse(bidx) -> idx of view a in its buffer"""
    axes, shape = a.axes, a._shape
    fixed = [(d, ax[1]) for d, ax in enumerate(axes) if ax[0] == 'c' and isinstance(ax[1], int)]

    def cond(b):
        cs = []
        for d, x in fixed:
            if isinstance(b[d], int) and b[d] != x:
                return False
        for d, ax in enumerate(axes):
            if ax[0] == 'c':
                c = _eqd(b[d], ax[1])
            else:
                _, k, start, step = ax
                n = shape[k]
                if _plain((('a', 0, start, step),)) and same_syntax(n, a.buf.shape[d]):
                    continue
                if step == 1:
                    c = _and2(_led(start, b[d]), _ltd(b[d], add_i(start, n)))
                elif step == -1:
                    c = _and2(_led(b[d], start), _ltd(sub_i(start, n), b[d]))
                elif isinstance(step, int) and step != 0:
                    off, st = _stepped(b[d], start, step)
                    if isinstance(off, int):
                        c = off >= 0 and off % st == 0
                    else:
                        c = z3.And(I(off) >= 0, I(off) % st == 0)
                    c = _and2(c, _ltd(_div_i(off, st), n))
                else:
                    raise OutOfSubset('write with a step')
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        if not cs:
            return True
        return conj(cs)

    def inv(b):
        idx = [0] * len(shape)
        for d, ax in enumerate(axes):
            if ax[0] == 'a':
                _, k, start, step = ax
                if step in (1, -1):
                    idx[k] = sub_i(b[d], start) if step == 1 else sub_i(start, b[d])
                else:
                    idx[k] = _div_i(*_stepped(b[d], start, step))
        return tuple(idx)
    return cond, inv


def _stepped(b, start, step):
    return (sub_i(b, start), step) if step > 0 else (sub_i(start, b), -step)


def _div_i(a, n):
    return a // n if isinstance(a, int) else dim(I(a) / n)


def _eqd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return simp(I(a) == I(b))


def _range(t):
    """(lo, hi) inclusive of an arbitrary index of a contract plus a number"""
    if isinstance(t, int):
        return t, t
    bounds = E().path.__dict__.get('bounds')
    if not bounds:
        return None
    r = bounds.get(t.get_id())
    if r is None:
        # remembered as long as there are ranges (the term is kept alive)
        r = bounds[t.get_id()] = (_range1(t, bounds), None, t)
    if r[1] is None:
        return r[0]
    return r[:2]


def _range1(t, bounds):
    off = 0
    if z3.is_add(t) and t.num_args() == 2:
        x, y = t.arg(0), t.arg(1)
        if z3.is_int_value(y):
            x, y = y, x
        if not z3.is_int_value(x):
            return None
        off, t = x.as_long(), y
    r = bounds.get(t.get_id())
    return None if r is None or r[1] is None else (r[0] + off, r[1] + off)


def _by_range(a, b, strict):
    """a <= b (a < b if strict), if the ranges decide it"""
    x, y = _range(a), _range(b)
    if x is None or y is None:
        return None
    if x[1] < y[0] + (not strict):
        return True
    if x[0] >= y[1] + (not strict):
        return False
    return None


def _led(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    r = _by_range(a, b, False)
    if r is not None:
        return r
    return I(a) <= I(b)


def _ltd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    r = _by_range(a, b, True)
    if r is not None:
        return r
    return I(a) < I(b)


def _and2(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def setitem(a, key, value):
    key = norm_key(key, a.ndim)
    adv = [k for k in key if is_arrlike(k)]
    if adv:
        k = to_arr(adv[0])
        if len(adv) == 1 and k.dtype.kind == 'b' and k.ndim == a.ndim and len(key) == 1:
            sv, fv = operand(value)
            if sv:
                raise OutOfSubset('array assigned to a mask')
            fk = k.fn()
            cond0, inv = region(a)
            t = V.convert_term(fv(()), None, a.dtype) if not isinstance(value, Sym) else V.cast_term(fv(()), a.dtype)
            a.buf.write(lambda b: _and3(cond0(b), lambda: fk(inv(b))), lambda b: t)
            return
        raise OutOfSubset('assignment to an index array')
    v = basic_view(a, key)
    sv, fv = operand(value)
    vdt = value.dtype if isinstance(value, (Arr, np.ndarray)) else None
    # broadcast the value to the region
    if len(sv) > len(v._shape):
        lead = sv[:len(sv) - len(v._shape)]
        if any(not (isinstance(d, int) and d == 1) for d in lead):
            raise ValueError('could not broadcast input array')
    for d, n in zip(sv[::-1], v._shape[::-1]):
        if isinstance(d, int) and d == 1:
            continue
        if not same_dim(d, n):
            if not E().fork(I(d) == I(n)):
                raise ValueError('could not broadcast input array')
    cond, inv = region(v)
    dt = a.dtype

    def val(b):
        idx = inv(b)
        full = (0,) * max(0, len(sv) - len(idx)) + idx
        t = fv(bidx_for(sv, full))
        if vdt is not None and vdt != dt:
            return V.convert_term(t, vdt, dt)
        return V.convert_term(t, None, dt) if dt.kind in 'iu' and z3.is_real(t) else V.cast_term(t, dt)
    v.buf.write(cond, val)


def _and3(c, f):
    if c is False:
        return False
    t = f()
    return t if c is True else z3.And(c, t)


# ---------------------------------------------------------------- reshaping

def transpose(a, perm):
    perm = [p % a.ndim for p in perm]
    inv = {old: k for k, old in enumerate(perm)}
    axes = [ax if ax[0] == 'c' else ('a', inv[ax[1]], ax[2], ax[3]) for ax in a.axes]
    return Arr(a.buf, [a._shape[p] for p in perm], axes)


def reshape(a, shp):
    if is_intlike(shp):
        shp = (shp,)
    shp = [dim(d) for d in shp]
    total = size_t(a._shape)
    if any(isinstance(d, int) and d == -1 for d in shp):
        i = [k for k, d in enumerate(shp) if isinstance(d, int) and d == -1][0]
        rest = size_t([d for k, d in enumerate(shp) if k != i])
        if isinstance(total, int) and isinstance(rest, int):
            if rest == 0 or total % rest:
                raise ValueError('cannot reshape')
            shp[i] = total // rest
        elif isinstance(rest, int) and rest > 0:
            if rest != 1 and not E().fork(I(total) % rest == 0):
                raise ValueError('cannot reshape array')
            shp[i] = dim(I(total) / rest)
        else:
            raise OutOfSubset('reshape with symbolic sizes')
    elif not same_dim(size_t(shp), total):
        if not E().fork(I(size_t(shp)) == I(total)):
            raise ValueError('cannot reshape array')
    if len(shp) == a.ndim and all(same_syntax(x, y) for x, y in zip(shp, a._shape)):
        return a.view()
    f, old = a.fn(), a._shape
    # split off the common trailing dimensions
    k = 0
    while k < min(len(old), len(shp)) and same_syntax(old[len(old) - 1 - k], shp[len(shp) - 1 - k]):
        k += 1
    ho, hs = old[:len(old) - k], shp[:len(shp) - k]

    def fn(idx):
        head, tail = idx[:len(idx) - k] if k else idx, idx[len(idx) - k:] if k else ()
        if not ho:
            return f(tail)
        if not hs:
            return f(tuple(0 for _ in ho) + tail)
        flat = 0
        for i, d in zip(head, hs):
            flat = add_i(_mul(flat, d), i)
        return f(_unflatten(flat, ho) + tail)
    return full_view(Buf(shp, a.dtype, _memo_fn(fn), frozen='a reshaped array'))


def _mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 0:
        return 0
    return dim(I(a) * I(b))


def _unflatten(flat, shape):
    out = []
    rest = flat
    for pos in range(len(shape) - 1, 0, -1):
        d = shape[pos]
        if isinstance(d, int) and d == 1:
            out.append(0)
        elif isinstance(rest, int) and isinstance(d, int):
            out.append(rest % d)
            rest //= d
        elif isinstance(d, int):
            out.append(dim(rest % d))
            rest = dim(rest / d)
        else:
            raise OutOfSubset('reshape of symbolic dimensions')
    out.append(rest)
    return tuple(out[::-1])


# --------------------------------------------------------------- reductions

def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    return tuple(sorted(x % a.ndim for x in axis))


def _split(a, axis):
    red = _axes(a, axis)
    keep = [k for k in range(a.ndim) if k not in red]
    return red, keep


def _full_index(a, red, keep, ridx, kidx):
    idx = [None] * a.ndim
    for k, i in zip(red, ridx):
        idx[k] = i
    for k, i in zip(keep, kidx):
        idx[k] = i
    return tuple(idx)


def _small_range(a, red, limit=16):
    n = 1
    for k in red:
        if not isinstance(a._shape[k], int):
            return None
        n *= a._shape[k]
    if n > limit:
        return None
    import itertools
    return list(itertools.product(*[range(a._shape[k]) for k in red]))


def reduce_any(a, axis=None):
    if a.dtype.kind != 'b':
        a = elementwise('ne', a, 0)
    red, keep = _split(a, axis)
    f = a.fn()
    cs = _small_range(a, red)

    def at(kidx):
        if cs is not None:
            return disj([simp(f(_full_index(a, red, keep, r, kidx))) for r in cs])
        qs = [bound_var(hint='x') for _ in red]
        rng = [z3.And(q >= 0, q < I(a._shape[k])) for q, k in zip(qs, red)]
        return z3.Exists(qs, conj(rng + [f(_full_index(a, red, keep, tuple(qs), kidx))]))
    if not keep:
        return mk_bool(at(()), True)
    return new([a._shape[k] for k in keep], 'bool', at)


def reduce_ext(a, axis, which):
    red, keep = _split(a, axis)
    f = a.fn()
    cs = _small_range(a, red)
    eng = E()
    better = (lambda x, y: x <= y) if which == 'min' else (lambda x, y: x >= y)
    total = size_t([a._shape[k] for k in red])
    if isinstance(total, int):
        if total == 0:
            raise ValueError('zero-size array to reduction operation')
    elif not eng.fork(I(total) != 0):
        raise ValueError('zero-size array to reduction operation')
    sort = z3.RealSort() if a.dtype.kind == 'f' else z3.IntSort()
    if cs is None and isinstance(total, int) and total <= 4096 and all(isinstance(a._shape[k], int) for k in keep) \
            and size_t([a._shape[k] for k in keep]) <= 16:
        # a concrete number of elements: bounded by each, equal to one
        vals = {}
        for kidx in itertools.product(*[range(a._shape[k]) for k in keep]):
            v = vals[kidx] = eng.fresh(which, sort)
            elems = [f(_full_index(a, red, keep, r, kidx)) for r in itertools.product(*[range(a._shape[k]) for k in red])]
            elems = list({e.get_id(): e for e in elems}.values())
            for e in elems:
                eng.fact(better(v, e))
            eng.fact(disj([v == e for e in elems]))
        if not keep:
            return mk_scalar(vals[()], a.dtype)

        def at(kidx):
            return _pick_dict(vals, kidx)
        return new([a._shape[k] for k in keep], a.dtype, at)
    if cs is not None:
        def at(kidx):
            vals = [f(_full_index(a, red, keep, r, kidx)) for r in cs]
            m = vals[0]
            for v in vals[1:]:
                m = ite(simp(better(m, v)), m, v)
            return m
    else:
        if keep and len(keep) > 1:
            raise OutOfSubset('reduction keeping several axes')
        ks = [z3.IntSort()] * len(keep)
        fn = eng.fresh_fn(which, ks, sort)
        wit = [eng.fresh_fn('arg' + which, ks, z3.IntSort()) for _ in red]
        kq = [bound_var(hint='k') for _ in keep]
        krng = [z3.And(q >= 0, q < I(a._shape[k])) for q, k in zip(kq, keep)]
        m = fn(*kq)
        eng.path.log.setdefault('extrema', []).append(Extremum(a, red, keep, f, fn, better))
        if isinstance(total, int) and total > 100000:
            # large: the contract asks for the instances it needs
            return _ext_result(a, keep, fn)
        rq = [bound_var(hint='r') for _ in red]
        rrng = [z3.And(q >= 0, q < I(a._shape[k])) for q, k in zip(rq, red)]
        e = f(_full_index(a, red, keep, tuple(rq), tuple(kq)))
        eng.fact(better(m, e), kq + rq, krng + rrng)
        w = tuple(x(*kq) for x in wit)
        eng.fact(z3.And(m == f(_full_index(a, red, keep, w, tuple(kq))),
                        *[z3.And(x >= 0, x < I(a._shape[k])) for x, k in zip(w, red)]), kq, krng)

        return _ext_result(a, keep, fn)
    if not keep:
        return mk_scalar(at(()), a.dtype)
    return new([a._shape[k] for k in keep], a.dtype, at)


def _pick_dict(vals, kidx):
    if kidx in vals:
        return vals[kidx]
    r = None
    for k, v in vals.items():
        r = v if r is None else ite(conj([I(x) == y for x, y in zip(kidx, k)]), v, r)
    return r


def _ext_result(a, keep, fn):
    if not keep:
        return mk_scalar(fn(), a.dtype)
    return new([a._shape[k] for k in keep], a.dtype, lambda kidx: fn(*[I(i) for i in kidx]))


class Extremum:
    """min or max of an array over some axes"""
    def __init__(self, a, red, keep, f, fn, better):
        self.shape, self.red, self.keep, self.f, self.fn, self.better = a._shape, red, keep, f, fn, better
        self.a = a

    def bounds(self, ridx, kidx):
        """Learn that it bounds the element with this index (of reduced and
        kept axes)"""
        E().fact(z3.Implies(conj([z3.And(I(i) >= 0, I(i) < I(self.shape[k])) for i, k in
                                  list(zip(ridx, self.red)) + list(zip(kidx, self.keep))]),
                            self.better(self.fn(*[I(i) for i in kidx]),
                                        self.f(_full_index(self.a, self.red, self.keep, tuple(ridx), tuple(kidx))))))


def reduce_sum(a, axis=None, dtype=None):
    from . import psum
    red, keep = _split(a, axis)
    f = a.fn()
    if dtype is None:
        dtype = np.zeros(1, a.dtype).sum().dtype
    dt = np.dtype(dtype)
    cs = _small_range(a, red, 64)

    def conv(t):
        return V.cast_term(t, dt)
    if cs is not None:
        def at(kidx):
            r = conv(z3.IntVal(0))
            for c in cs:
                r = r + conv(f(_full_index(a, red, keep, c, kidx)))
            return V.wrap_int(simp(r), dt) if dt.kind in 'iu' else r
    elif len(red) == 1 and not keep:
        if dt.kind not in 'iu':
            raise OutOfSubset('symbolic sum of reals')

        def at(kidx):
            t = psum.total(lambda k: conv(f((k,))), a._shape[0])
            return V.wrap_int(t, dt)
    else:
        raise OutOfSubset('symbolic sum over several axes')
    if not keep:
        return mk_scalar(at(()), dt)
    return new([a._shape[k] for k in keep], dt, at)


def nonzero(a):
    """Positions of the non-zero elements of a 1-D array, in order"""
    if a.ndim != 1:
        raise OutOfSubset('nonzero of a multi-dimensional array')
    eng = E()
    f = a.fn()
    n = a._shape[0]
    dt = a.dtype

    def hit(i):
        return V.cast_term(f((i,)), np.dtype(bool))
    r = positions(hit, n, 'nz')
    return (new((r.count,), np.intp, lambda idx: r.ix(idx[0])),)


class Positions:
    pass


def positions(hit, n, name='nz'):
    """The increasing enumeration of {i < n : hit(i)}"""
    eng = E()
    key = None
    m = eng.fresh(name + '_n')
    ix = eng.fresh_fn(name + '_ix', [z3.IntSort()], z3.IntSort())
    rk = eng.fresh_fn(name + '_rk', [z3.IntSort()], z3.IntSort())
    N = I(n)
    eng.fact(z3.And(m >= 0, m <= N))
    k, k2, i = bound_var(hint='k'), bound_var(hint='k2'), bound_var(hint='i')
    eng.fact(z3.And(ix(k) >= 0, ix(k) < N, hit(ix(k)), rk(ix(k)) == k), [k], [k >= 0, k < m], [(ix(k),)], tag='nz-in')
    eng.fact(ix(k) < ix(k2), [k, k2], [k >= 0, k < k2, k2 < m], [(ix(k), ix(k2))], tag='nz-ord')
    h = hit(i)
    eng.fact(z3.And(rk(i) >= 0, rk(i) < m, ix(rk(i)) == i), [i], [i >= 0, i < N, h], _auto_pats(h, i) + [(rk(i),)], tag='nz-all')
    r = Positions()
    r.count, r.ix, r.rk, r.hit, r.n = m, ix, rk, hit, n
    eng.__dict__.setdefault('rank_of', {})[ix(k).decl().name()] = rk(k).decl()
    r.uid = eng.name('poslog')
    eng.path.log.setdefault('positions', []).append(r)
    hook = eng.path.log.get('on_positions')
    if hook is not None:
        hook(r)
    return r


def _auto_pats(t, v):
    """Patterns: uninterpreted applications in t with v as an argument"""
    out, seen, todo = [], set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen or z3.is_quantifier(u):
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(v) for c in u.children()):
                out.append((u,))
            todo.extend(u.children())
    return out[:3]
