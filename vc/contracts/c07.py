"""C07: virtual datasets refer to exactly the entries, in train order."""
from ..api import *
from .. import bshim
from ._model import *

WR = load('writer')
RM = load('read_machinery')


class Layout:
    """h5py.VirtualLayout: what the dataset will show (trusted)"""
    def __init__(self, shape, dtype, maxshape=None, filename=None):
        self.buf = NPM.full(tuple(shape), -1, dtype=dtype)
        self.shape, self.dtype = self.buf.shape, np.dtype(dtype)

    def __setitem__(self, key, src):
        src = src if isinstance(src, Arr) else src[...]
        self.buf[key] = src


class Source:
    def __init__(self, ds, *a, **k):
        if a or k:
            raise OutOfSubset('VirtualSource by name')
        self.ds = ds

    def __getitem__(self, key):
        return self.ds[key]


class H5PY:
    VirtualLayout, VirtualSource = Layout, Source


class SymChunk:
    """A chunk _find_data_chunks (C03) may return"""
    def __init__(self, eng, i, trail):
        self.n = eng.fresh('chunk%d_n' % i)
        F = lambda nm, k: eng.fresh_fn('chunk%d_%s' % (i, nm), [ISORT] * k, ISORT)
        self.tid, self.count, self.data = F('tid', 1), F('count', 1), F('data', 2)
        self.first, self.len = eng.fresh('chunk%d_first' % i), eng.fresh('chunk%d_len' % i)
        p = bound_var(hint='p')
        fact(z3.And(self.n >= 0, self.first >= 0, self.len < 2 ** 60))
        fact(z3.And(self.count(p) >= 0, self.count(p) < 2 ** 60, self.tid(p) > 0, self.tid(p) < 2 ** 64), [p],
             [p >= 0, p < self.n], [(self.count(p),), (self.tid(p),)])
        increasing(self.tid, self.n)
        self.w = psum.window(self.count, self.n)
        self.D = self.w.at(self.n)
        fact(self.first + self.D <= self.len)
        self.ds = SymDS(new((dim(self.len),) + trail, 'i4', lambda idx: self.data(I(idx[0]), I(idx[1]))))
        self.chunk = RM.DataChunk(
            object(), 'SRC', 'a.b', first=mk_int(self.first, u8),
            train_ids=new((dim(self.n),), u8, lambda idx: self.tid(I(idx[0]))),
            counts=new((dim(self.n),), u8, lambda idx: self.count(I(idx[0]))))


@contract('C07', 'writer.VirtualFileWriter._assemble_data', 'read_machinery.DataChunk',
          assumes=('_find_data_chunks: its contract (C03)', 'representative numbers of chunks (one to three)',
                   'h5py.VirtualLayout and VirtualSource (see vc/contracts/c07.py)'))
def assemble(eng):
    N = 1 if eng.choose('one chunk') else 2 if eng.choose('two chunks') else 3
    trail = (dim(eng.fresh('width')),)
    fact(trail[0] >= 0)
    cs = [SymChunk(eng, i, trail) for i in range(N)]
    lt = {}
    p, q = bound_var(hint='p'), bound_var(hint='q')
    for i in range(N):
        for j in range(i):
            b = lt[j, i] = eng.fresh('before_%d_%d' % (j, i), BSORT)
            lt[i, j] = z3.Not(b)
            a, c = cs[j], cs[i]
            fact(z3.If(b, a.tid(p) < c.tid(q), c.tid(q) < a.tid(p)), [p, q],
                 [p >= 0, p < a.n, q >= 0, q < c.n], [(a.tid(p), c.tid(q))])

    class Data:
        def _find_data_chunks(self, s, k):
            prove('asks for the key', (s, k) == ('SRC', 'a.b'))
            return VList([c.chunk for c in cs])

    vfw = object.__new__(WR.VirtualFileWriter)
    vfw.data, vfw.indexes, vfw.data_sources = Data(), VDict(), VSet()
    dataset = property(lambda self: next(c.ds for c in cs if c.chunk is self))
    with patched(WR, h5py=H5PY), patched(RM.DataChunk, dataset=dataset), no_exception('_assemble_data'):
        layout, labels = vfw._assemble_data('SRC', 'a.b')
    total = sum([c.D for c in cs], z3.IntVal(0))
    if layout is None:
        prove('nothing only if there is no data', total == 0)
        return
    prove('nothing if there is no data', total > 0)
    buf = layout.buf
    prove('type and size', z3.And(z3.BoolVal(buf.dtype == np.dtype('i4') and buf.ndim == 2),
                                  I(buf._shape[0]) == total, I(buf._shape[1]) == I(trail[0]), n_of(labels) == total))
    for i, c in enumerate(cs):
        with scope():
            p, j = skolem('p', 0, c.n), skolem('j', 0, I(trail[0]))
            e = skolem('e', 0, c.count(p))
            base = sum([z3.If(z3.And(cs[l].D > 0, lt[l, i]), cs[l].D, z3.IntVal(0)) for l in range(N) if l != i],
                       z3.IntVal(0))
            x = c.w.at(p) + e
            have('entry %d is in its chunk' % i, z3.And(x >= 0, x < c.D, c.w.blk(x) == p))
            r = base + x
            have('entry %d has a row' % i, z3.And(r >= 0, r < total))
            prove('its value', at(buf, r, j) == c.data(c.first + x, j))
            prove('its train', at(labels, r) == c.tid(p))
    # as many rows as there are entries: nothing else
