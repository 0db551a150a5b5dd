"""Geometry contracts: shared parts.

Lengths are real numbers. Constants are floats computed by the code in 64-bit
arithmetic, so results are compared to a relative tolerance of 1e-12 of the
quantities they are made of (see near)."""
from fractions import Fraction
from ..api import *

TOL = Fraction(1, 10 ** 12)
LAYOUT = {  # modules, tiles, tile size, data shape, pixel size
    'AGIPD': (16, 8, (64, 128), (16, 512, 128), 2e-4),
    'LPD': (16, 16, (32, 128), (16, 256, 256), 5e-4),
    'DSSC': (16, 2, (128, 256), (16, 128, 512), 236e-6),
}
CLASSNAME = {'AGIPD': 'AGIPD_1MGeometry', 'LPD': 'LPD_1MGeometry', 'DSSC': 'DSSC_1MGeometry'}


def R(x):
    """A real-valued term"""
    if isinstance(x, (int, float, np.number, Fraction)):
        f = Fraction(x) if not isinstance(x, np.number) else Fraction(float(x))
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    t = V.term(x)
    return z3.ToReal(t) if t.sort() == ISORT else t


def absr(t):
    return z3.If(t >= 0, t, -t)


def near(got, want, *scale):
    """got = want up to rounding of constants: within 1e-12 of the sum of the
    magnitudes of the given quantities (and one pixel)"""
    s = R(Fraction(1, 10 ** 4))
    for x in scale:
        s = s + absr(R(x))
    d = R(got) - R(want)
    return z3.And(d <= R(TOL) * s, -d <= R(TOL) * s)


def vec(v):
    """Components of a vector of three numbers"""
    if isinstance(v, Arr):
        return [at(v, I(i)) for i in range(3)]
    return list(v)


def is_vec3(v):
    v = np_array(v) if isinstance(v, (list, tuple)) else v
    return isinstance(v, (Arr, np.ndarray)) and tuple(V.conc(x) if isinstance(x, Sym) else x for x in v.shape) == (3,)


class Group:
    """A group of an HDF5 file of which only some datasets are read"""
    def __init__(self, data, path=''):
        self.data, self.path = data, path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __getitem__(self, name):
        p = (self.path + '/' + str(name)).strip('/')
        if p in self.data:
            return Dataset(self.data[p])
        if any(k.startswith(p + '/') for k in self.data):
            return Group(self.data, p)
        raise KeyError("Unable to open object (object '%s' doesn't exist)" % p)

    def __contains__(self, name):
        p = (self.path + '/' + str(name)).strip('/')
        return any((k + '/').startswith(p + '/') for k in self.data)


class Dataset:
    def __init__(self, arr):
        self.arr = arr
        self.shape, self.dtype, self.ndim = arr.shape, arr.dtype, 1

    def __getitem__(self, key):
        if key == ():
            key = slice(None)
        r = self.arr[key]
        return r.copy() if isinstance(r, Arr) else r

    def _as_arr(self):
        return self.arr.copy()

    def __len__(self):
        return len(self.arr)
