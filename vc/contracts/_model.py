"""Symbolic well-formed data, as the properties quantify over them: any
number of files of a source, train IDs strictly increasing in each file, index
entries contiguous and within the dataset, disjoint train ranges."""
from ..api import *


# the real classes, whatever a contract puts in their place
DataCollection = load('reader').DataCollection
FileAccess = load('reader').FileAccess


class SymDS:
    """h5py.Dataset: reading selects like NumPy on an array of its content
    (trusted: h5py), writing is not possible."""
    of = None

    def __init__(self, a, name='dataset'):
        self.a, self.name = a, name

    @property
    def shape(self):
        return self.a.shape

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    def sym_len(self):
        return self.a.sym_len()

    def __getitem__(self, key):
        r = self.a[key]
        return r.copy() if isinstance(r, Arr) else r

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        if dest_sel is not None:
            raise OutOfSubset('read_direct with dest_sel')
        src = self.a if source_sel is None else self.a[source_sel]
        if len(src._shape) != len(dest._shape):
            raise OutOfSubset('read_direct between different shapes')
        for x, y in zip(src._shape, dest._shape):
            if not same_dim(x, y):
                if not E().fork(I(x) == I(y)):
                    raise TypeError("Can't broadcast")
        dest[...] = src

    def _subst(self, sub):
        r = SymDS(self.a._subst(sub), self.name)
        if self.of is not None:
            r.of = (self.of[0], sub(self.of[1]), self.of[2])
        return r


class H5:
    """h5py.File: datasets by path"""
    def __init__(self, f):
        self.f = f

    def __getitem__(self, path):
        return self.f.lookup(path)

    def _subst(self, sub):
        return H5(self.f._subst(sub))


class SymFile:
    """File k of the source"""
    def __init__(self, m, k):
        self.m, self.k = m, k

    @property
    def train_ids(self):
        m, k = self.m, self.k
        return new((dim(m.ntr(k)),), u8, lambda idx: m.tid(k, I(idx[0])))

    @property
    def instrument_sources(self):
        return m_set(self.m.source) if self.m.instrument else m_set()

    @property
    def control_sources(self):
        return m_set() if self.m.instrument else m_set(self.m.source)

    @property
    def all_sources(self):
        return m_set(self.m.source)

    def get_index(self, source, group):
        """Contract of FileAccess.get_index"""
        m, k = self.m, self.k
        if source != m.source or group not in m.groups:
            raise KeyError((source, group))
        n = dim(m.ntr(k))
        first, count = m.groups[group]
        return (new((n,), u8, lambda idx: first(k, I(idx[0]))),
                new((n,), u8, lambda idx: count(k, I(idx[0]))))

    def get_keys(self, source):
        """Contract of FileAccess.get_keys"""
        if source != self.m.source:
            raise KeyError(source)
        return VSet(self.m.keys)

    @property
    def file(self):
        return H5(self)

    def lookup(self, path):
        return self.m.dataset(self.k, path)

    def _subst(self, sub):
        return SymFile(self.m, sub(self.k))

    def _ident(self):
        return self.k

    def __eq__(self, o):
        if isinstance(o, SymFile):
            return mk_bool(self.k == o.k)
        return NotImplemented

    __hash__ = None


def m_set(*x):
    return VSet(x)


class Files:
    """All files of one source. trail: trailing dimensions of the dataset"""
    def __init__(self, source='SRC', key='image.data', instrument=True, trail=(), dtype='f4', minfiles=1,
                 order=True, unit_counts=False, datasets=()):
        eng = E()
        self.source, self.key, self.instrument = source, key, instrument
        self.group = key.partition('.')[0] if instrument else ''
        self.trail, self.dtype = tuple(trail), np.dtype(dtype)
        F = lambda nm, n, s=ISORT: eng.fresh_fn(nm, [ISORT] * n, s)
        self.NF = eng.fresh('NF')
        self.ntr, self.tid = F('ntr', 1), F('tid', 2)
        k, l, p, q = [bound_var(hint=h) for h in 'klpq']
        fact(self.NF >= minfiles)
        inf = lambda k: [k >= 0, k < self.NF]
        ntr, tid = self.ntr, self.tid
        fact(ntr(k) >= 0, [k], inf(k), [(ntr(k),)])
        inp = lambda k, p: inf(k) + [p >= 0, p < ntr(k)]
        fact(z3.And(tid(k, p) > 0, tid(k, p) < 2 ** 64), [k, p], inp(k, p), [(tid(k, p),)])
        fact(tid(k, p) < tid(k, q), [k, p, q], inf(k) + [p >= 0, p < q, q < ntr(k)], [(tid(k, p), tid(k, q))])
        self.keys, self.groups, self.lens = {}, {}, {}
        self.unit_counts = unit_counts
        self.add_key(key, self.trail, self.dtype)
        self.first, self.count = self.groups[self.group]
        self.len, self.data = self.lens[self.group], self.keys[key][2]
        # disjoint train ranges
        fact(z3.Or(tid(k, p) < tid(l, q), tid(l, q) < tid(k, p)), [k, p, l, q],
             inp(k, p) + inp(l, q) + [k != l], [(tid(k, p), tid(l, q))])
        self.lt = F('before', 2, BSORT)
        # ranges: either all of k before all of l or after
        fact(z3.If(self.lt(k, l), tid(k, p) < tid(l, q), tid(l, q) < tid(k, p)), [k, p, l, q],
             inp(k, p) + inp(l, q) + [k != l], [(tid(k, p), tid(l, q))])
        # position of a train ID in a file
        self.pos = F('pos', 2)
        fact(self.pos(k, tid(k, p)) == p, [k, p], inp(k, p), [(tid(k, p),)])
        self.extra = {}

    def group_of(self, key):
        return key.partition('.')[0] if self.instrument else ''

    def add_key(self, key, trail=(), dtype='f4'):
        """One more dataset, of the same or another index group"""
        eng = E()
        F = lambda nm, n, s=ISORT: eng.fresh_fn(nm, [ISORT] * n, s)
        g = self.group_of(key)
        if g not in self.groups:
            first, count, length = F('first', 2), F('count', 2), F('dslen', 1)
            self.groups[g], self.lens[g] = (first, count), length
            k, p = bound_var(hint='k'), bound_var(hint='p')
            ntr = self.ntr
            inf = [k >= 0, k < self.NF]
            inp = inf + [p >= 0, p < ntr(k)]
            fact(z3.And(length(k) >= 0, length(k) < 2 ** 62), [k], inf, [(ntr(k),), (length(k),)])
            fact(z3.And(first(k, p) >= 0, count(k, p) >= 0, first(k, p) + count(k, p) <= length(k)),
                 [k, p], inp, [(first(k, p),), (count(k, p),)])
            fact(z3.Implies(z3.And(p + 1 < ntr(k)), first(k, p + 1) == first(k, p) + count(k, p)),
                 [k, p], inp, [(first(k, p), count(k, p))])
            fact(first(k, I(0)) == 0, [k], inf + [ntr(k) > 0], [(first(k, I(0)),)])
            if self.unit_counts:
                fact(count(k, p) <= 1, [k, p], inp, [(count(k, p),)])
        dtype = np.dtype(dtype)
        sort = {'f': RSORT, 'b': BSORT}.get(dtype.kind, ISORT)
        trail = tuple(trail)
        self.keys[key] = (g, dtype, F('data', 2 + len(trail), sort), trail)

    def sums(self):
        """Lemma: first(k, p) is the number of entries before train p of file k"""
        c, k0 = self.count, E().fresh('filek')
        ps = psum.prefix(lambda p: c(k0, p))
        f = ps.f
        k, p = bound_var(hint='k'), bound_var(hint='p')
        fact(f(k, I(0)) == 0, [k], (), [(f(k, I(0)),)])
        fact(f(k, p + 1) == f(k, p) + c(k, p), [k, p], [k >= 0, k < self.NF, p >= 0, p < self.ntr(k)],
             [(f(k, p), c(k, p)), (f(k, p + 1),)])
        ok = lambda p, k: z3.Implies(
            z3.And(k >= 0, k < self.NF, p <= self.ntr(k)),
            z3.And(f(k, p) <= self.len(k), f(k, p) >= 0,
                   z3.Implies(p < self.ntr(k), z3.And(f(k, p) == self.first(k, p),
                                                      f(k, p) + c(k, p) <= self.len(k)))))
        self.use_sums = induct('entries before a train', 0, None, ok, 1, pats=lambda p, k: [(f(k, p),), (self.first(k, p),)])
        self.S = f
        return f

    def window(self, k, lo, hi):
        """Sums of the counts of file k over positions lo..hi"""
        ps = psum.prefix(lambda p: self.count(I(k), p))
        ps.lo, ps.hi = dim(lo), dim(hi)
        ps.mono = psum.facts(ps, lo, hi)
        return ps

    def seq(self):
        return FnSeq(self.NF, lambda k: SymFile(self, I(k)))

    def files(self):
        return VList.from_seq(self.seq())

    def arr(self, k, key=None):
        g, dt, d, trail = self.keys[key or self.key]
        return new((dim(self.lens[g](k)),) + trail, dt, lambda idx: d(k, *[I(i) for i in idx]))

    def dataset_obj(self, k, key):
        r = SymDS(self.arr(k, key), key)
        r.of = (self, k, key)
        return r

    def dataset(self, k, path):
        pre = '/{}/{}/'.format('INSTRUMENT' if self.instrument else 'CONTROL', self.source)
        for key in self.keys:
            if path == pre + key.replace('.', '/'):
                return self.dataset_obj(k, key)
        if path in self.extra:
            return self.extra[path](k)
        raise KeyError(path)


class Trains:
    """The selected train IDs of a collection: increasing"""
    def __init__(self, hint='sel'):
        eng = E()
        self.n = eng.fresh(hint + '_n')
        self.f = eng.fresh_fn(hint, [ISORT], ISORT)
        self.inv = eng.fresh_fn(hint + '_pos', [ISORT], ISORT)
        fact(self.n >= 0)
        increasing(self.f, self.n)
        q = bound_var()
        fact(z3.And(self.f(q) > 0, self.f(q) < 2 ** 64, self.inv(self.f(q)) == q), [q], [q >= 0, q < self.n], [(self.f(q),)])
        a = arr_of(self.f, self.n, u8)
        self.arr = a
        self.list = VList.from_seq(FnSeq(self.n, lambda k: mk_int(self.f(I(k)), u8)))

    def has(self, t):
        return z3.And(self.inv(t) >= 0, self.inv(t) < self.n, self.f(self.inv(t)) == t)


def collection(files, trains, select=None):
    """A DataCollection holding symbolic files of one source (or of each of a
    list of sources). select: {source: keys or None}"""
    rd = load('reader')
    dc = object.__new__(DataCollection)
    fs = files if isinstance(files, (list, tuple)) else [files]
    dc.files = fs[0].files()
    for f in fs[1:]:
        dc.files.extend(f.files())
    dc.ctx_closes = False
    sel = select if select is not None else {f.source: set(f.keys) for f in fs}
    dc.selection = VDict({s: None if ks is None else VSet(ks) for s, ks in sel.items()})
    dc.control_sources = m_set(*[f.source for f in fs if not f.instrument])
    dc.instrument_sources = m_set(*[f.source for f in fs if f.instrument])
    dc._source_index = VDict({f.source: f.files() for f in fs})
    dc.train_ids = trains.list
    return dc


def regions_stub(cond):
    """Contract of contiguous_regions, proved by the contract of that name"""
    eng = E()
    cond = A.to_arr(cond)
    f, N = cond.fn(), I(cond._shape[0])
    m = eng.fresh('reg_n')
    lo, hi = eng.fresh_fn('reg_lo', [ISORT], ISORT), eng.fresh_fn('reg_hi', [ISORT], ISORT)
    of = eng.fresh_fn('reg_of', [ISORT], ISORT)
    k, l, i = bound_var(hint='k'), bound_var(hint='l'), bound_var(hint='i')
    fact(z3.And(m >= 0, m <= N))
    fact(z3.And(lo(k) >= 0, lo(k) < hi(k), hi(k) <= N), [k], [k >= 0, k < m], [(lo(k),), (hi(k),)])
    fact(hi(k) < lo(l), [k, l], [k >= 0, k < l, l < m], [(lo(k), lo(l))])
    fi = f((i,))
    fact(fi, [k, i], [k >= 0, k < m, i >= lo(k), i < hi(k)], [(lo(k), p[0]) for p in A._auto_pats(fi, i)])
    fact(z3.And(of(i) >= 0, of(i) < m, lo(of(i)) <= i, i < hi(of(i))), [i], [i >= 0, i < N, fi], [(of(i),)])
    r = new((m, 2), np.intp, lambda idx: lo(I(idx[0])) if (isinstance(idx[1], int) and idx[1] == 0)
            else hi(I(idx[0])) if isinstance(idx[1], int) else z3.If(idx[1] == 0, lo(I(idx[0])), hi(I(idx[0]))))
    r.reg = (m, lo, hi, of)
    eng.__dict__.setdefault('regions', {})[eng.path.space] = r.reg
    return r


class Chunks:
    """Contract of DataCollection._find_data_chunks, proved by find_data_chunks:
    chunk c holds n(c) trains of file k(c) from position lo(c), all selected,
    and every selected train of every file is in exactly one chunk."""
    def __init__(self, fs, tr):
        eng = E()
        self.fs, self.tr = fs, tr
        F = lambda nm, a: eng.fresh_fn(nm, [ISORT] * a, ISORT)
        self.C = eng.fresh('nchunks')
        self.k, self.lo, self.n = F('ch_file', 1), F('ch_from', 1), F('ch_n', 1)
        self.of = F('ch_of', 2)
        k, lo, n, of, C = self.k, self.lo, self.n, self.of, self.C
        fact(C >= 1)
        c, i, q, p = [bound_var(hint=h) for h in 'ciqp']
        inc = [c >= 0, c < C]
        fact(z3.And(k(c) >= 0, k(c) < fs.NF, lo(c) >= 0, n(c) >= 0, lo(c) + n(c) <= fs.ntr(k(c))),
             [c], inc, [(k(c),), (n(c),), (lo(c),)])
        fact(tr.has(fs.tid(k(c), p)), [c, p], inc + [p >= lo(c), p < lo(c) + n(c)], [(n(c), fs.tid(k(c), p))])
        # one chunk per train
        fact(of(k(c), p) == c, [c, p], inc + [p >= lo(c), p < lo(c) + n(c)], [(n(c), fs.tid(k(c), p)), (n(c), of(k(c), p))])
        o = of(q, p)
        fact(z3.And(o >= 0, o < C, k(o) == q, lo(o) <= p, p < lo(o) + n(o)), [q, p],
             [q >= 0, q < fs.NF, p >= 0, p < fs.ntr(q), tr.has(fs.tid(q, p))], [(o,)])
        self.rd = load('reader')

    def at(self, c):
        fs, c = self.fs, I(c)
        k, lo, n = self.k(c), self.lo(c), self.n(c)
        return self.rd.DataChunk(
            SymFile(fs, k), fs.source, fs.key,
            first=mk_int(z3.If(n > 0, fs.first(k, lo), 0), u8),
            train_ids=new((dim(n),), u8, lambda idx: fs.tid(k, lo + I(idx[0]))),
            counts=new((dim(n),), u8, lambda idx: fs.count(k, lo + I(idx[0]))))

    def list(self):
        return VList.from_seq(FnSeq(self.C, self.at))

    def stub(self):
        def _find_data_chunks(dc, source, key):
            fs = self.fs
            if source != fs.source or key != fs.key:
                raise OutOfSubset('other key')
            return self.list()
        return _find_data_chunks



def seq_index(s, b, off):
    """Index in a sequence built by a loop of element off of iteration b"""
    if s.flat:
        return b
    return s.ps.at(I(s.ps.lo) + b) - s.ps.at(s.ps.lo) + off


def seq_parts(s):
    """The loops and lists a sequence is put together from"""
    from ..containers import CatSeq
    if isinstance(s, CatSeq):
        return [x for q in s.seqs for x in seq_parts(q)]
    return [s]


def touch(s, k):
    """Make iteration k of the loop which built s known to the solver"""
    if isinstance(s, LoopSeq) and not s.flat:
        lo = I(s.ps.lo)
        mention(s.ps.at(lo + k), s.ps.at(lo + k + 1), s.ps.at(s.ps.hi), s.ps.at(lo))
