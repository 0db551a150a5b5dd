"""C05: series, counts and data frames.

pandas is trusted: a Series keeps its values and labels, concat joins them,
loc[labels] keeps the rows with these labels, in order; concat(axis=1) aligns
columns by their labels."""
from ..api import *
from .. import bshim
from ..containers import CSet
from ._model import *


class Index:
    def __init__(self, arr, name=None):
        if isinstance(arr, Index):
            arr, name = arr.arr, name or arr.name
        self.arr, self.name = arr, name

    def sym_len(self):
        return self.arr.sym_len()

    @property
    def size(self):
        return self.sym_len()

    @property
    def values(self):
        return self.arr

    @property
    def is_unique(self):
        n, f = n_of(self.arr), self.arr.fn()
        a, b = bound_var(hint='a'), bound_var(hint='b')
        return mk_bool(z3.Not(z3.Exists([a, b], z3.And(a >= 0, a < b, b < n, f((a,)) == f((b,))))))

    def __getitem__(self, i):
        return self.arr[i]

    def keys(self):
        return [self.arr]

    def intersection(self, other):
        return Labels(self, other)


class MultiIndex(Index):
    def __init__(self, arrs, names):
        self.arrs, self.names = list(arrs), names
        self.arr = self.arrs[0]

    @classmethod
    def from_arrays(cls, arrs, names=None):
        arrs = [A.to_arr(a) for a in arrs]
        if not E().fork(n_of(arrs[0]) == n_of(arrs[1])):
            raise ValueError('all arrays must be same length')
        return cls(arrs, names)

    def keys(self):
        return self.arrs

    def __getitem__(self, i):
        return tuple(a[i] for a in self.arrs)

    @property
    def levels(self):
        return [Index(a) for a in self.arrs]

    def get_level_values(self, i):
        return Index(self.arrs[self.names.index(i) if isinstance(i, str) else i])

    def intersection(self, other):
        raise OutOfSubset('intersection of a MultiIndex')


class Labels:
    """Train IDs of an index which are also in another collection"""
    def __init__(self, index, other):
        self.index, self.other = index, as_seq(other)

    def _np_asarray(self, dtype):
        return self

    def has(self, t):
        q = bound_var(hint='l')
        return z3.Exists([q], z3.And(q >= 0, q < I(self.other.n), elem_term(self.other, q) == t))


class Loc:
    def __init__(self, ser):
        self.ser = ser

    def __getitem__(self, labels):
        return Selected(self.ser, labels)


class Selected:
    """The rows of a series with one of the labels"""
    def __init__(self, ser, labels):
        self.ser, self.labels, self.name = ser, labels, ser.name


class Series:
    def __init__(self, data, index=None, name=None):
        self.data = A.to_arr(data)
        if self.data.ndim != 1:
            raise ValueError('Data must be 1-dimensional')
        self.index, self.name = index if isinstance(index, Index) else Index(A.to_arr(index)), name
        if not E().fork(n_of(self.data) == n_of(self.index.arr)):
            raise ValueError('Length of values does not match length of index')

    def sym_len(self):
        return self.data.sym_len()

    @property
    def size(self):
        return self.sym_len()

    @property
    def empty(self):
        return self.sym_len() == 0

    @property
    def loc(self):
        return Loc(self)


def pd_concat(items, axis=0, **kw):
    if kw:
        raise OutOfSubset('concat with options')
    items = list(items)
    if axis in (1, "columns"):
        if not items:
            raise ValueError("No objects to concatenate")
        return Frame(items)
    if not items:
        raise ValueError('No objects to concatenate')
    kinds = {type(s.index) for s in items}
    if len(kinds) > 1:
        raise OutOfSubset('concat of series with different kinds of index')
    cat = lambda l: NPM.concatenate(l) if len(l) > 1 else l[0]
    keys = [cat([s.index.keys()[i] for s in items]) for i in range(len(items[0].index.keys()))]
    ix = MultiIndex(keys, items[0].index.names) if MultiIndex in kinds else Index(keys[0], items[0].index.name)
    r = object.__new__(Series)
    r.data, r.index, r.name = cat([s.data for s in items]), ix, items[0].name
    return r


class Frame:
    def __init__(self, columns):
        self.columns = columns


class PD:
    Series, Index, MultiIndex, concat = Series, Index, MultiIndex, staticmethod(pd_concat)


def setup(eng, kind, nfiles):
    bshim.MODULES['pandas'] = PD
    if kind == 'control':
        fs = Files('CTRL', 'a.value', False, unit_counts=True)
    elif kind == 'single':
        fs = Files('SRC', 'data.v', unit_counts=True)
    else:
        fs = Files('SRC', 'image.v', trail=(1,))
        fs.add_key('image.pulseId', (1,), 'u8')
        # several entries for some train
        k = 0 if nfiles == 1 or eng.choose('several entries in the first file') else nfiles - 1
        p = eng.fresh('several')
    fs.K = [eng.fresh('file%d' % i) for i in range(nfiles)]
    for i, c in enumerate(fs.K):
        fact(z3.And(c >= 0, c < fs.NF, *[c != d for d in fs.K[:i]]))
    if kind == 'multi':
        fact(z3.And(p >= 0, p < fs.ntr(fs.K[k]), fs.count(fs.K[k], p) > 1))
    fs.sums()
    tr = Trains()
    dc = collection(fs, tr)
    fl = VList([SymFile(fs, k) for k in fs.K])
    dc.files, dc._source_index = fl, VDict({fs.source: fl})
    return fs, tr, dc


def series(kind, nfiles):
    eng = E()
    rd = load('reader')
    fs, tr, dc = setup(eng, kind, nfiles)
    for k in range(nfiles):
        fs.window(fs.K[k], 0, fs.ntr(fs.K[k]))
        fs.use_sums(fs.ntr(fs.K[k]), fs.K[k])
    with no_exception('get_series'):
        res = dc.get_series(fs.source, fs.key)
    prove('series: of selected rows', isinstance(res, Selected))
    prove('series: name', res.name == ('CTRL/a' if kind == 'control' else fs.source + '/' + fs.key))
    ser = res.ser
    idx = ser.index
    D = n_of(ser.data)
    t = lambda r: at(idx.arr, r)
    # with pulse numbers if some train has several entries
    multi = isinstance(idx, MultiIndex)
    tot = z3.IntVal(0)
    for k in range(nfiles):
        tot = tot + fs.S(fs.K[k], fs.ntr(fs.K[k]))
    prove('series: kind of index', z3.Or(tot == 0, z3.BoolVal(multi == (kind == 'multi'))))
    prove('series: names of the index', idx.names == ['trainId', 'pulseId'] if multi else idx.name == 'trainId')
    prove('series: number of rows', D == tot)
    with scope():
        r = skolem('row', 0, D)
        prove('series: exactly the selected trains', res.labels.has(t(r)) == tr.has(t(r))
              if isinstance(res.labels, Labels) else False)
    # the place of each file's entries
    before = lambda k: sum([z3.If(z3.And(fs.S(fs.K[l], fs.ntr(fs.K[l])) > 0, first_before(fs, l, k)),
                                  fs.S(fs.K[l], fs.ntr(fs.K[l])), z3.IntVal(0)) for l in range(nfiles) if l != k],
                           z3.IntVal(0))
    for k in range(nfiles):
        with scope():
            p = skolem('p', 0, fs.ntr(fs.K[k]))
            e = skolem('e', 0, fs.count(fs.K[k], p))
            w = fs.window(fs.K[k], 0, fs.ntr(fs.K[k]))
            fs.use_sums(p, fs.K[k])
            x = fs.S(fs.K[k], p) + e
            have('entry %d is in its file' % k, z3.And(x >= 0, x < fs.S(fs.K[k], fs.ntr(fs.K[k]))))
            have('entry %d is that of its train' % k, w.blk(x) == p)
            r = before(k) + x
            prove('series: every entry has a row', z3.And(r >= 0, r < D))
            prove('series: its train', t(r) == fs.tid(fs.K[k], p))
            prove('series: its value', at(ser.data, r) == fs.data(fs.K[k], fs.first(fs.K[k], p) + e, *([0] if fs.trail else [])))
            if multi:
                prove('series: its pulse', at(idx.arrs[1], r) == fs.keys['image.pulseId'][2](fs.K[k], fs.first(fs.K[k], p) + e, 0))
    return


def first_before(fs, l, k):
    """Are the trains of file l before those of file k?"""
    return fs.lt(fs.K[l], fs.K[k])


def nfiles(eng):
    return 1 if eng.choose('one file') else 2 if eng.choose('two files') else 3


FN = ('reader.DataCollection._expand_trainids', 'reader.DataCollection._check_field')
ASSUME = ('pandas (see vc/contracts/c05.py)', 'representative numbers of files of the source (one to three)')


@contract('C05', 'reader.DataCollection.get_series', *FN, assumes=ASSUME)
def series_control(eng):
    series('control', nfiles(eng))


@contract('C05', 'reader.DataCollection.get_series', *FN, assumes=ASSUME)
def series_single(eng):
    series('single', nfiles(eng))


@contract('C05', 'reader.DataCollection.get_series', *FN, assumes=ASSUME)
def series_pulses(eng):
    series('multi', nfiles(eng))


def counts(kind, nfiles):
    eng = E()
    fs, tr, dc = setup(eng, kind, nfiles)
    with no_exception('get_data_counts'):
        res = dc.get_data_counts(fs.source, fs.key)
    prove('counts: of selected rows', isinstance(res, Selected) and isinstance(res.labels, Labels))
    ser = res.ser
    t = lambda r: at(ser.index.arr, r)
    D = n_of(ser.data)
    n = lambda k: fs.ntr(fs.K[k])
    prove('counts: one row for each train', D == sum([n(k) for k in range(nfiles)], z3.IntVal(0)))
    with scope():
        r = skolem('row', 0, D)
        prove('counts: exactly the selected trains', res.labels.has(t(r)) == tr.has(t(r)))
    for k in range(nfiles):
        with scope():
            p = skolem('p', 0, n(k))
            r = p + sum([z3.If(z3.And(n(l) > 0, fs.lt(fs.K[l], fs.K[k])), n(l), z3.IntVal(0))
                         for l in range(nfiles) if l != k], z3.IntVal(0))
            prove('counts: every train has a row', z3.And(r >= 0, r < D))
            prove('counts: its train', t(r) == fs.tid(fs.K[k], p))
            prove('counts: its number of entries', at(ser.data, r) == fs.count(fs.K[k], p))


@contract('C05', 'reader.DataCollection.get_data_counts', 'reader.DataCollection._check_field', assumes=ASSUME)
def data_counts(eng):
    kind = 'control' if eng.choose('control') else 'multi' if eng.choose('multi') else 'single'
    counts(kind, nfiles(eng))


KEYS = {'CTRL': ('x.timestamp', 'x.value', 'y.value'), 'INA': ('data.v', 'data.timestamp')}


@contract('C05', 'reader.DataCollection.get_dataframe', 'reader.DataCollection.keys_for_source',
          assumes=('pandas (see vc/contracts/c05.py)', 'select: its contract (C02)', 'get_series: its contract',
                   'representative sources and keys, any selection of them'))
def dataframe(eng):
    bshim.MODULES['pandas'] = PD
    sel, want = {}, set()
    for s, ks in KEYS.items():
        if not eng.choose('has ' + s):
            continue
        sel[s] = None if eng.choose('all of ' + s) else {k for k in ks if eng.choose('%s.%s' % (s, k))}
        want |= {(s, k) for k in (ks if sel[s] is None else sel[s])}

    class File:
        def get_keys(self, s):
            return VSet(KEYS[s])

    def make():
        dc = object.__new__(DataCollection)
        dc.control_sources, dc.instrument_sources = [VSet(s for s in sel if s.startswith(x)) for x in 'CI']
        dc.selection = VDict({s: None if k is None else VSet(k) for s, k in sel.items()})
        dc._source_index = VDict({s: VList([File()]) for s in sel})
        dc.files = VList([File()])
        return dc

    def get_series(self, s, k):
        prove('frame: series of the selection', self is inner and (s, k) in want)
        return ('series', s, k)

    def select(self, fields, *a, **kw):
        prove('frame: the selection asked for', self is dc and fields is asked and not a and not kw)
        return inner

    dc, asked = make(), None
    inner = dc
    if eng.choose('fields'):
        asked, inner = object(), make()
    ts = bool(eng.choose('timestamps'))
    if not ts:
        want = {(s, k) for s, k in want if not k.endswith('.timestamp')}
    with patched(DataCollection, get_series=get_series, select=select):
        try:
            df = dc.get_dataframe(asked, timestamps=ts)
        except ValueError:
            prove('frame: only fails if there is no column', not want)
            return
    prove('frame: a column for each field', isinstance(df, Frame) and len(df.columns) == len(want)
          and set(df.columns) == {('series',) + w for w in want})
