"""C03"""
from ..api import *
from .. import bshim
from ._model import *


@contract('C03 C05 C07 C13', 'read_machinery.contiguous_regions')
def contiguous_regions(eng):
    rm = load('read_machinery')
    n = sint('n', 0)
    c = sarr('cond', n, 'bool')
    f, N = c.elem_fn, T(n)

    lem = []

    def lemma(ps):
        # between changes the condition is constant, and its value alternates
        m, ix = ps.count, ps.ix
        start = lambda k: z3.If(k == 0, z3.IntVal(0), ix(k - 1) + 1)
        end = lambda k: z3.If(k == m, N - 1, ix(k))
        P = lambda b, k: z3.Implies(z3.And(k >= 0, k <= m, start(k) <= b, b <= end(k)),
                                    f(b) == z3.Xor(f(0), k % 2 == 1))
        use = induct('alternation', 0, N, P, 1, lambda b, k: [k, k - 1], lambda b, k: [(f(b), ix(k))])
        use(N - 1, m)
        use(0, 0)
        # the stretch an index is in
        w = eng.fresh_fn('stretch', [ISORT], ISORT)
        b = bound_var()
        fact(w(I(0)) == 0)
        fact(w(b + 1) == z3.If(z3.And(w(b) < m, ix(w(b)) == b), w(b) + 1, w(b)), [b], [b >= 0], [(w(b + 1),)])
        Q = lambda b: z3.And(w(b) >= 0, w(b) <= m, start(w(b)) <= b, b <= end(w(b)))
        use2 = induct('stretches cover', 0, N, Q, pats=lambda b: [(w(b),)])
        lem.append((use, use2, m, w))
    eng.path.log['on_positions'] = lemma
    with no_exception('contiguous_regions'):
        r = rm.contiguous_regions(c)
    m = n_of(r)
    prove('two-columns', I(r._shape[1]) == 2)
    with scope():
        k = skolem('k', 0, m)
        lo, hi = at(r, k, 0), at(r, k, 1)
        prove('bounds', z3.And(lo >= 0, lo < hi, hi <= N))
        prove('order', z3.Implies(k + 1 < m, hi < at(r, k + 1, 0)))
        i = skolem('i')
        for use, use2, mm, w in lem:
            use(i, mm)
            use(i, 0)
            use2(i)
            use(i, w(i))
        prove('inside', z3.Implies(z3.And(i >= lo, i < hi), f(i)))
        prove('between', z3.Implies(z3.And(k + 1 < m, i >= hi, i < at(r, k + 1, 0)), z3.Not(f(i))))
    with scope():
        i = skolem('i')
        for use, use2, mm, w in lem:
            use(i, mm)
            use(i, 0)
            use2(i)
            use(i, w(i))
        prove('before', z3.Implies(z3.And(m > 0, i < at(r, 0, 0)), z3.Not(f(i))))
        prove('after', z3.Implies(z3.And(m > 0, i >= at(r, m - 1, 1), i < N), z3.Not(f(i))))
        prove('empty', z3.Implies(z3.And(m == 0, i < N), z3.Not(f(i))))
        for use, use2, mm, w in lem:
            g = (w(i) - z3.If(f(0), z3.IntVal(0), z3.IntVal(1))) / 2
            prove('covering', z3.Implies(z3.And(i < N, f(i)),
                                         z3.And(g >= 0, g < m, at(r, g, 0) <= i, i < at(r, g, 1))))


@contract('C03 C07', 'reader.DataCollection._find_data_chunks')
def find_data_chunks(eng):
    rd = load('reader')
    fs, tr = Files(), Trains()
    dc = collection(fs, tr)
    with patched(rd, contiguous_regions=regions_stub), no_exception('_find_data_chunks'):
        chunks = dc._find_data_chunks(fs.source, fs.key)
    s = as_seq(chunks)
    if not isinstance(s, LoopSeq):
        raise OutOfSubset('chunks are not produced by one loop')
    C = I(s.n)
    prove('at-least-one', C >= 1)

    def chunk(hint):
        c = skolem(hint, 0, C)
        ch = s.at(c)
        return c, ch, ch.file.k, I(ch.train_ids._shape[0])
    t = lambda i: at(ch.train_ids, i)
    with scope():
        c, ch, k, n = chunk('c')
        prove('file', z3.And(k >= 0, k < fs.NF))
        prove('source-and-key', bool(ch.source == fs.source and ch.key == fs.key))
        prove('same-length', z3.And(n >= 0, I(ch.counts._shape[0]) == n))
    with scope():
        c, ch, k, n = chunk('c')
        i = skolem('i', 0, n)
        f0 = fs.pos(k, t(0))
        prove('first-train', z3.And(f0 >= 0, f0 + n <= fs.ntr(k), t(0) == fs.tid(k, f0)))
        prove('trains', t(i) == fs.tid(k, f0 + i))
        prove('selected', tr.has(t(i)))
        prove('counts', at(ch.counts, i) == fs.count(k, f0 + i))
        prove('first', T(ch.first) == fs.first(k, f0))
        c2, ch2, k2, n2 = chunk('d')
        i2 = skolem('i2', 0, n2)
        prove('once', z3.Implies(t(i) == at(ch2.train_ids, i2), z3.And(c == c2, i == i2)))
    # every selected train of every file
    for reg in eng.__dict__.get('regions', {}).values():
        if len(reg[3].ctx) != 1:
            raise OutOfSubset('regions')
        with scope():
            kk = skolem('k', 0, fs.NF)
            p = skolem('p', 0, fs.ntr(kk))
            suppose(tr.has(fs.tid(kk, p)))
            lo, hi, of = [FreshFn(f.decl, [kk]) for f in reg[1:]]
            w = seq_index(s, kk, of(p))
            have('complete-index', z3.And(w >= 0, w < C))
            chw = s.at(w)
            prove('complete', z3.And(chw.file.k == kk, lo(of(p)) <= p, p < hi(of(p)),
                                     at(chw.train_ids, p - lo(of(p))) == fs.tid(kk, p),
                                     I(chw.train_ids._shape[0]) == hi(of(p)) - lo(of(p))))


class Rows:
    """The row of an array in which an entry belongs: files' entries of the
    selected trains, in the order of the sorted chunks"""
    def __init__(self, fs, ch, srt):
        self.fs, self.ch, self.srt = fs, ch, srt
        S = fs.S
        self.cnt = lambda c: S(ch.k(c), ch.lo(c) + ch.n(c)) - S(ch.k(c), ch.lo(c))
        self.base = psum.window(lambda s: self.cnt(srt.perm(s)), ch.C)
        self.D = self.base.at(ch.C)

    def entry(self, hint):
        """An arbitrary entry of a selected train"""
        fs, ch = self.fs, self.ch
        k = skolem(hint + 'k', 0, fs.NF)
        p = skolem(hint + 'p', 0, fs.ntr(k))
        e = skolem(hint + 'e', 0, fs.count(k, p))
        suppose(ch.tr.has(fs.tid(k, p)))
        return k, p, e

    def row(self, k, p, e):
        fs, ch = self.fs, self.ch
        c = ch.of(k, p)
        w = fs.window(k, ch.lo(c), ch.lo(c) + ch.n(c))
        return self.base.at(self.srt.inv(c)) + fs.S(k, p) - fs.S(k, ch.lo(c)) + e

    def entry_of(self, r):
        """(k, p, e) of row r"""
        fs, ch = self.fs, self.ch
        s = self.base.blk(r)
        c = self.srt.perm(s)
        k, lo = ch.k(c), ch.lo(c)
        w = fs.window(k, lo, lo + ch.n(c))
        x = r - self.base.at(s) + fs.S(k, lo)
        p = w.blk(x)
        return k, p, x - fs.S(k, p), c, s


def array_contract(eng, kind):
    rd = load('reader')
    trail = (eng.fresh('dimA'), eng.fresh('dimB')) if kind != 'flat' else ()
    for d in trail:
        fact(d >= 0)
    fs, tr = Files(trail=trail), Trains()
    dc = collection(fs, tr)
    fs.sums()
    ch = Chunks(fs, tr)
    if kind in ('all', 'flat'):
        roi, pick, shape = rd.by_index[...], lambda idx: idx, trail
    elif kind == 'slice':
        a, b = sint('roi_a'), sint('roi_b')
        roi = rd.by_index[a:b]
        st, ln, _ = A.norm_slice(slice(a, b), trail[0])
        pick = lambda idx: (I(st) + idx[0], idx[1])
        shape = (ln, trail[1])
    else:
        i, b = sint('roi_i', 0, mk_int(trail[0])), sint('roi_b', 0)
        roi = rd.by_index[i, :b]
        st, ln, _ = A.norm_slice(slice(None, b), trail[1])
        pick = lambda idx: (I(T(i)), I(st) + idx[0])
        shape = (ln,)
    with patched(rd.DataCollection, _find_data_chunks=ch.stub()), no_exception('get_array'):
        res = dc.get_array(fs.source, fs.key, roi=roi)
    arr, tids = res.data, res.coords['trainId']
    D = n_of(arr)
    srt = eng.path.log['sorted'][0]
    R = Rows(fs, ch, srt)
    psum.nonzero(R.base)
    prove('label-per-row', n_of(tids) == D)
    prove('dims', bool(list(res.dims)[0] == 'trainId' and len(list(res.dims)) == len(arr._shape)))
    prove('item-type', bool(arr.dtype == fs.dtype))
    prove('item-shape', z3.And(z3.BoolVal(len(shape) == len(arr._shape) - 1),
                               *[I(x) == I(y) for x, y in zip(shape, arr._shape[1:])]))
    prove('number-of-rows', D == R.D)
    # every entry of a selected train has its row, ...
    def located(hint):
        k, p, e = R.entry(hint)
        r = R.row(k, p, e)
        have('row-exists', z3.And(r >= 0, r < D))
        have('row-in-chunk', R.base.blk(r) == srt.inv(ch.of(k, p)))
        w = fs.window(k, ch.lo(ch.of(k, p)), ch.lo(ch.of(k, p)) + ch.n(ch.of(k, p)))
        have('row-in-train', w.blk(r - R.base.at(srt.inv(ch.of(k, p))) + fs.S(k, ch.lo(ch.of(k, p)))) == p)
        return k, p, e, r
    with scope():
        k, p, e, r = located('a')
        prove('label', at(tids, r) == fs.tid(k, p))
        idx = [skolem('x', 0, d) for d in arr._shape[1:]]
        prove('content', at(arr, r, *idx) == fs.data(k, fs.first(k, p) + e, *pick(idx)))
    with scope():
        # ... in increasing train order, and in stored order within a train
        k, p, e, r = located('a')
        k2, p2, e2 = R.entry('b')
        r2 = R.row(k2, p2, e2)
        t1, t2 = fs.tid(k, p), fs.tid(k2, p2)
        prove('order', z3.Implies(t1 < t2, r < r2))
        prove('order-in-train', z3.Implies(z3.And(t1 == t2, e < e2), r < r2))
    with scope():
        # and every row is that of such an entry
        rr = skolem('row', 0, D)
        k3, p3, e3, c3, s3 = R.entry_of(rr)
        prove('row-of-entry', z3.And(k3 >= 0, k3 < fs.NF, p3 >= 0, p3 < fs.ntr(k3), e3 >= 0, e3 < fs.count(k3, p3),
                                     tr.has(fs.tid(k3, p3))))
        prove('row-of-entry-is-it', R.row(k3, p3, e3) == rr)


@contract('C03', 'reader.DataCollection.get_array', 'read_machinery.DataChunk', 'reader.DataCollection._expand_trainids')
def get_array_flat(eng):
    array_contract(eng, 'flat')


@contract('C03', 'reader.DataCollection.get_array', 'read_machinery.DataChunk', 'reader.DataCollection._expand_trainids')
def get_array_2d(eng):
    array_contract(eng, 'all')


@contract('C03', 'reader.DataCollection.get_array', 'read_machinery.DataChunk', 'reader.DataCollection._expand_trainids')
def get_array_roi_slice(eng):
    array_contract(eng, 'slice')


@contract('C03', 'reader.DataCollection.get_array', 'read_machinery.DataChunk', 'reader.DataCollection._expand_trainids')
def get_array_roi_int(eng):
    array_contract(eng, 'int')


class ShrinkingWhile:
    """Invariant of a loop that only shrinks chunk sizes: integers stay
    positive, tuples keep everything but their first item"""
    def prove(self, eng, d, env, when, state=None):
        dec = []
        for nm, v in d.items():
            if isinstance(v, (int, SInt)):
                prove('chunk size positive (%s)' % when, I(T(v)) >= 1)
                if state is not None:
                    dec.append(I(T(v)) < I(T(state[nm])))
            elif isinstance(v, tuple):
                prove('chunk shape (%s)' % when, z3.And(I(T(v[0])) >= 1, *(
                    [I(T(a)) == I(T(b)) for a, b in zip(v[1:], state[nm][1:])] if state is not None else [])))
            else:
                raise OutOfSubset('loop state %s' % nm)
        if state is not None:
            prove('chunk size loop ends', z3.Or(*dec))

    def havoc(self, eng, d, env):
        out = {}
        for nm, v in d.items():
            x = eng.fresh('w_' + nm)
            fact(x >= 1)
            out[nm] = mk_int(x) if not isinstance(v, tuple) else (mk_int(x),) + v[1:]
        return out


class FakeDask:
    """dask.array: from_array(ds)[slice] is lazily ds[slice], concatenate joins
    (trusted); chunk sizes must be positive"""
    class _Lazy:
        def __init__(self, ds):
            self.ds = ds

        def __getitem__(self, key):
            return self.ds[key]

    @staticmethod
    def from_array(ds, chunks=None, **kw):
        if isinstance(chunks, tuple):
            prove('dask chunks', z3.And(z3.BoolVal(len(chunks) == len(ds.shape)), I(T(chunks[0])) >= 1))
        return FakeDask._Lazy(ds)

    @staticmethod
    def concatenate(arrs, axis=0):
        return NPM.concatenate(arrs, axis=axis)


@contract('C03', 'reader.DataCollection.get_dask_array', 'read_machinery.DataChunk',
          assumes=['dask: from_array(ds, chunks)[s] equals ds[s] and concatenate joins arrays'])
def get_dask_array(eng):
    rd = load('reader')
    trail = (eng.fresh('dimA'),)
    for d in trail:
        fact(d >= 0)
    fs, tr = Files(trail=trail), Trains()
    dc = collection(fs, tr)
    fs.sums()
    ch = Chunks(fs, tr)
    eng.while_specs = {'DataCollection.get_dask_array': ShrinkingWhile(), 'get_dask_array': ShrinkingWhile()}
    bshim.MODULES['dask.array'] = FakeDask
    with patched(rd.DataCollection, _find_data_chunks=ch.stub()), no_exception('get_dask_array'):
        arr = dc.get_dask_array(fs.source, fs.key)
    arr = A.to_arr(arr)
    D = n_of(arr)
    R = Rows(fs, ch, eng.path.log['sorted'][0])
    prove('item-type', bool(arr.dtype == fs.dtype))
    prove('item-shape', z3.And(z3.BoolVal(len(arr._shape) == 2), I(arr._shape[1]) == trail[0]))
    prove('number-of-rows', D == R.D)
    with scope():
        k, p, e = R.entry('a')
        r = R.row(k, p, e)
        have('row-exists', z3.And(r >= 0, r < D))
        have('row-in-chunk', R.base.blk(r) == R.srt.inv(ch.of(k, p)))
        x = skolem('x', 0, trail[0])
        prove('content', at(arr, r, x) == fs.data(k, fs.first(k, p) + e, x))
