"""Symbolic scalars and arrays.

Integers are mathematical integers with the ranges of their NumPy types:
unsigned 64-bit arithmetic wraps; signed arithmetic is assumed not to overflow
(noted). Floating point numbers are real numbers (noted). Arrays are "pull"
arrays: a shape, and a function from indexes to terms, over buffers which can
be written through basic-slicing views, as in NumPy.
"""
import numpy as np
from fractions import Fraction
import operator
from .core import (current, z3, E, I, simp, bound_var, conj, disj, OutOfSubset, Fact)

U8MAX = 2 ** 64
DT_INT = np.dtype('i8')


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base of symbolic values"""
    __array_ufunc__ = None

    def __array__(self, *a, **k):
        raise OutOfSubset('symbolic value passed to NumPy')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def num_value(t):
    """Concrete value of a term, or None"""
    if isinstance(t, (int, bool)):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def dim(x):
    """Normal form of an array dimension / index: int or z3 term"""
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, SInt):
        x = x.t
    if isinstance(x, z3.ExprRef):
        x = simp(x)
        v = num_value(x)
        return x if v is None else int(v)
    raise OutOfSubset('not an index: {!r}'.format(type(x)))


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = I(a), I(b)
    if a.eq(b) or z3.is_true(simp(a == b)):
        return True
    return E().implied(a == b)


def d_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return E().implied(I(a) < I(b))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def mk_int(t, dt=None):
    """An integer value of a NumPy type, or a Python int (dt None)"""
    if isinstance(t, (int, np.integer)):
        return int(t) if dt is None else dt.type(int(t))
    t = simp(t)
    v = num_value(t)
    if v is not None:
        return int(v) if dt is None else dt.type(int(v))
    return SInt(t, dt)


def mk_bool(t, isnp=False):
    if isinstance(t, (bool, np.bool_)):
        return bool(t)
    t = simp(t)
    v = num_value(t)
    if v is not None:
        return np.bool_(v) if isnp else bool(v)
    return SBool(t)


def mk_scalar(t, dt):
    """Value of NumPy type dt for a term"""
    if dt.kind == 'b':
        return mk_bool(t, True)
    if dt.kind in 'iu':
        return mk_int(t, dt)
    if dt.kind == 'f':
        return SReal(t, dt)
    if dt.kind == 'V':
        return SAny(t, dt)
    raise OutOfSubset('dtype %s' % dt)


def real_val(x):
    f = Fraction(float(x))
    return z3.RealVal('{}/{}'.format(f.numerator, f.denominator))


def to_real(t):
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def wrap_int(t, dt):
    """The value of type dt congruent to t"""
    if dt is None:
        return t
    v = num_value(simp(t))
    if v is not None:
        info = np.iinfo(dt)
        n = int(info.max) - int(info.min) + 1
        return z3.IntVal((v - int(info.min)) % n + int(info.min))
    if dt.kind == 'i':
        if dt.itemsize == 8:
            E().notes.add('signed 64-bit integer arithmetic treated as mathematical')
            return t
        lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
        if E().implied(z3.And(t >= lo, t <= hi)):
            return t
        raise OutOfSubset('possible overflow of %s' % dt)
    m = 2 ** (8 * dt.itemsize)
    if E().implied(z3.And(t >= 0, t < m)):
        return t
    return t % m


def kind_of(x):
    """(category, sample) of an operand for NumPy's type promotion"""
    if isinstance(x, SArr):
        return 'arr', x.dtype
    if isinstance(x, np.ndarray):
        return 'arr', x.dtype
    if isinstance(x, SInt):
        return ('py', int) if x.dt is None else ('np', x.dt)
    if isinstance(x, SBool):
        return 'np', np.dtype(bool)
    if isinstance(x, SReal):
        return ('py', float) if x.dt is None else ('np', x.dt)
    if isinstance(x, bool):
        return 'py', bool
    if isinstance(x, int):
        return 'py', int
    if isinstance(x, float):
        return 'py', float
    if isinstance(x, np.generic):
        return 'np', x.dtype
    raise OutOfSubset('operand {!r}'.format(type(x)))


_PY = {int: 1, float: 1.0, bool: True}


def result_dtype(op, a, b):
    """dtype of a op b in this NumPy, found by trying it (None: Python)"""
    (ka, ta), (kb, tb) = kind_of(a), kind_of(b)
    if ka == 'py' and kb == 'py':
        r = op(_PY[ta], _PY[tb])
        return None, type(r)

    def sample(k, t, x):
        if k == 'arr':
            return np.ones(1, t)
        if k == 'np':
            return t.type(1)
        v = _PY[t]
        if t is int:
            if isinstance(x, int):
                return x if x != 0 else 1
            if not E().implied(x.t >= 0):
                v = -1
        return v
    with np.errstate(all='ignore'):
        r = op(sample(ka, ta, a), sample(kb, tb, b))
    return r.dtype, None


def term(x):
    """(z3 term) of a scalar"""
    if isinstance(x, (SInt, SReal, SBool, SAny)):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float('inf'), float('-inf')):
            return nan_term()
        return real_val(x)
    if isinstance(x, z3.ExprRef):
        return x
    raise OutOfSubset('no term for {!r}'.format(type(x)))


def nan_term():
    return z3.Real('NaN')


def cast_term(t, dt):
    """Convert a term (Int/Real/Bool) to the sort and range of dtype dt (None
    keeps integers as they are)"""
    if dt is None:
        return t
    if dt.kind == 'b':
        if z3.is_bool(t):
            return t
        return simp(t != 0)
    if dt.kind in 'iu':
        if z3.is_bool(t):
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(t):
            return t
        raise OutOfSubset('real to integer')
    if dt.kind == 'f':
        if z3.is_bool(t):
            return z3.If(t, z3.RealVal(1), z3.RealVal(0))
        return to_real(t)
    if dt.kind == 'V':
        return t
    raise OutOfSubset('cast to %s' % dt)


def trunc_real(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def convert_term(t, frm, to):
    """astype for one element"""
    if frm is not None and frm == to:
        return t
    if to.kind in 'iu' and z3.is_int(t) and frm is not None and frm.kind in 'iu':
        a, b = np.iinfo(frm), np.iinfo(to)
        if int(a.min) >= int(b.min) and int(a.max) <= int(b.max):
            return t
        if E().implied(z3.And(t >= int(b.min), t <= int(b.max))):
            return t
        n = int(b.max) - int(b.min) + 1
        return (t - int(b.min)) % n + int(b.min)
    if to.kind in 'iu' and z3.is_real(t):
        return trunc_real(t)
    return cast_term(t, to)


ARITH = {
    'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
    'truediv': operator.truediv, 'floordiv': operator.floordiv,
    'mod': operator.mod,
}
COMPARE = {
    'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
    'eq': operator.eq, 'ne': operator.ne,
}
BITS = {'and_': operator.and_, 'or_': operator.or_, 'xor': operator.xor}


def floordiv_t(a, b):
    if z3.is_int(a) and z3.is_int(b):
        v = num_value(simp(b))
        if v is not None and v > 0:
            return a / b          # Euclidean = floor for a positive divisor
        if E().implied(b > 0):
            return a / b
        raise OutOfSubset('division by a possibly non-positive number')
    q = to_real(a) / to_real(b)
    return to_real(z3.ToInt(q))


def arith_term(opname, a, b, dt):
    """Element-wise arithmetic in type dt (None: Python int/float)"""
    if dt is not None and dt.kind == 'b':
        raise OutOfSubset('boolean arithmetic')
    isreal = (dt is not None and dt.kind == 'f') or (dt is None and (z3.is_real(a) or z3.is_real(b) or opname == 'truediv'))
    if isreal:
        a, b = cast_term(a, np.dtype('f8')), cast_term(b, np.dtype('f8'))
    else:
        a, b = cast_term(a, np.dtype('i8')), cast_term(b, np.dtype('i8'))
    if opname == 'add':
        r = a + b
    elif opname == 'sub':
        r = a - b
    elif opname == 'mul':
        r = a * b
    elif opname == 'truediv':
        v = simp(b)
        if z3.is_rational_value(v):
            if v.numerator_as_long() == 0:
                raise OutOfSubset('division by zero')
        elif not E().implied(b != 0):
            raise OutOfSubset('division by a possible zero')
        r = a / b
    elif opname == 'floordiv':
        r = floordiv_t(a, b)
    elif opname == 'mod':
        if z3.is_int(a):
            r = a - b * floordiv_t(a, b)
        else:
            r = a - b * floordiv_t(a, b)
    else:
        raise OutOfSubset(opname)
    if not isreal:
        r = wrap_int(r, dt)
    return r


def compare_term(opname, a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        if opname == 'eq':
            return a == b
        if opname == 'ne':
            return a != b
    if z3.is_bool(a):
        a = cast_term(a, DT_INT)
    if z3.is_bool(b):
        b = cast_term(b, DT_INT)
    if z3.is_real(a) or z3.is_real(b):
        a, b = to_real(a), to_real(b)
    if opname in ('eq', 'ne') and a.sort() != b.sort():
        raise OutOfSubset('comparison of different sorts')
    return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
            'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[opname]()


def scalar_arith(opname, x, y):
    dt, py = result_dtype(ARITH[opname], x, y)
    _check_exact(x, y, dt)
    t = arith_term(opname, term(x), term(y), dt)
    if py is not None:
        return mk_int(t) if py is int else SReal(t, None)
    return mk_scalar(t, dt)


def _check_exact(x, y, dt):
    """Integers silently becoming floats must be exactly representable"""
    if dt is None or dt.kind != 'f':
        return
    for v in (x, y):
        if isinstance(v, SInt) and v.dt is not None and v.dt.itemsize == 8:
            if not E().implied(z3.And(v.t <= 2 ** 53, v.t >= -2 ** 53)):
                raise OutOfSubset('integer converted to float')


def _foreign(y):
    return not isinstance(y, (Sym, int, float, np.generic, np.ndarray))


def _binop(opname, swap=False):
    def f(self, y):
        if _foreign(y):
            return NotImplemented
        if isinstance(y, (SArr, np.ndarray)) or isinstance(self, SArr):
            from . import arr
            return arr.elementwise(opname, y, self) if swap else arr.elementwise(opname, self, y)
        return scalar_arith(opname, y, self) if swap else scalar_arith(opname, self, y)
    return f


def _cmpop(opname):
    def f(self, y):
        if _foreign(y):
            if opname == 'eq':
                return False
            if opname == 'ne':
                return True
            return NotImplemented
        if isinstance(y, (SArr, np.ndarray)) or isinstance(self, SArr):
            from . import arr
            return arr.elementwise(opname, self, y)
        return mk_bool(compare_term(opname, term(self), term(y)))
    return f


class SNum(Sym):
    for _o in ARITH:
        locals()['__%s__' % _o] = _binop(_o)
        locals()['__r%s__' % _o] = _binop(_o, True)
    for _o in COMPARE:
        locals()['__%s__' % _o] = _cmpop(_o)
    del _o

    def __pos__(self):
        return self

    def __divmod__(self, o):
        return self // o, self % o

    def _bitop(self, name, o, swap):
        if _foreign(o):
            return NotImplemented
        if isinstance(o, (SArr, np.ndarray)) or isinstance(self, SArr):
            from . import arr
            return arr.elementwise(name, o, self) if swap else arr.elementwise(name, self, o)
        a, b = term(self), term(o)
        if z3.is_bool(a) and z3.is_bool(b):
            return mk_bool({'and_': z3.And, 'or_': z3.Or, 'xor': z3.Xor}[name](a, b))
        raise OutOfSubset('bitwise operation on integers')

    def __and__(self, o):
        return self._bitop('and_', o, False)

    def __rand__(self, o):
        return self._bitop('and_', o, True)

    def __or__(self, o):
        return self._bitop('or_', o, False)

    def __ror__(self, o):
        return self._bitop('or_', o, True)

    def __xor__(self, o):
        return self._bitop('xor', o, False)

    def __rxor__(self, o):
        return self._bitop('xor', o, True)


class SScalar(SNum):
    @property
    def shape(self):
        if self.dt is None:
            raise AttributeError('shape')       # a Python number
        return ()

    @property
    def ndim(self):
        return len(self.shape)

    __iter__ = None

    def __getitem__(self, key):
        if self.dt is None:
            raise TypeError('object is not subscriptable')
        if key != () or not isinstance(key, tuple):
            raise IndexError('invalid index to scalar variable.')
        return self


class SInt(SScalar):
    def __init__(self, t, dt=None):
        self.t, self.dt = t, dt

    def __bool__(self):
        return E().fork(self.t != 0)

    def __index__(self):
        v = num_value(simp(self.t))
        if v is None:
            raise OutOfSubset('symbolic integer needed as a concrete one')
        return v

    def __hash__(self):
        v = num_value(simp(self.t))
        if v is None:
            raise OutOfSubset('hash of a symbolic integer')
        return hash(v)

    def __neg__(self):
        return 0 - self if self.dt is None else mk_int(wrap_int(-self.t, self.dt), self.dt)

    def __abs__(self):
        return mk_int(z3.If(self.t >= 0, self.t, -self.t), self.dt)

    def __repr__(self):
        return 'SInt(%s%s)' % (str(self.t)[:60], '' if self.dt is None else ':' + str(self.dt))

    def __format__(self, spec):
        return number_text(self, spec) or '<int>'

    __str__ = lambda self: format(self)

    @property
    def dtype(self):
        return self.dt if self.dt is not None else _no_attr('dtype')

    def item(self):
        return SInt(self.t)

    def astype(self, dt):
        return mk_scalar(convert_term(self.t, self.dt, np.dtype(dt)), np.dtype(dt))

    def _subst(self, sub):
        return mk_int(sub(self.t), self.dt)


def _no_attr(n):
    raise AttributeError(n)


class SReal(SScalar):
    def __init__(self, t, dt=np.dtype('f8')):
        self.t, self.dt = to_real(t), dt

    def __bool__(self):
        return E().fork(self.t != 0)

    def __neg__(self):
        return SReal(-self.t, self.dt)

    def __abs__(self):
        return SReal(z3.If(self.t >= 0, self.t, -self.t), self.dt)

    def __hash__(self):
        raise OutOfSubset('hash of a symbolic number')

    def item(self):
        return SReal(self.t, None)

    def __float__(self):
        raise OutOfSubset('symbolic number needed as a concrete one')

    def __repr__(self):
        return 'SReal(%s)' % str(self.t)[:60]

    def __format__(self, spec):
        return number_text(self, spec) or '<real>'

    __str__ = lambda self: format(self)

    @property
    def dtype(self):
        return self.dt if self.dt is not None else _no_attr('dtype')

    def astype(self, dt):
        return mk_scalar(convert_term(self.t, self.dt, np.dtype(dt)), np.dtype(dt))

    def _subst(self, sub):
        return SReal(sub(self.t), self.dt)


class SBool(SNum):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E().fork(self.t)

    def __invert__(self):
        return mk_bool(z3.Not(self.t))

    def __hash__(self):
        raise OutOfSubset('hash of a symbolic truth value')

    def any(self):
        return self

    all = any

    def __repr__(self):
        return 'SBool(%s)' % str(self.t)[:60]

    def _subst(self, sub):
        return mk_bool(sub(self.t))


def number_text(x, spec):
    """Text of a symbolic number, where a contract has asked for it"""
    eng = current.eng
    if eng is None or eng.path is None or not eng.path.log.get('text'):
        return None
    from .bshim import Text
    return Text.token(('num', spec, x))


class SAny(Sym):
    """An element of a dataset about which nothing is known but its identity"""
    def __init__(self, t, dt=None):
        self.t, self.dt = t, dt

    def __eq__(self, o):
        if isinstance(o, SAny) and o.t.sort() == self.t.sort():
            return mk_bool(self.t == o.t)
        return NotImplemented

    def __hash__(self):
        raise OutOfSubset('hash of an opaque value')

    def __repr__(self):
        return 'SAny(%s)' % str(self.t)[:60]

    def _subst(self, sub):
        return SAny(sub(self.t), self.dt)


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Dead(Sym):
    """A value that has no closed form; using it is outside the subset."""
    def __init__(self, why):
        self.__dict__['_why'] = why

    def _no(self, *a, **k):
        raise OutOfSubset(self._why)

    def __getattr__(self, n):
        raise OutOfSubset(self.__dict__['_why'])

    for _n in ('bool', 'len', 'iter', 'getitem', 'setitem', 'add', 'radd', 'sub', 'mul', 'eq', 'ne', 'lt', 'gt',
               'le', 'ge', 'call', 'hash', 'contains', 'index', 'int', 'float', 'and', 'or', 'invert'):
        locals()['__%s__' % _n] = _no
    del _n


class SArr(SNum):
    """Array. Defined here for isinstance; see arr.py"""
    pass
