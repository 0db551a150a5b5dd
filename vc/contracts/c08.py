"""C08: what a file records"""
from ..api import *
from ._model import *


class Entry:
    """Entry k of the list of data sources, as h5py gives it (bytes), or a
    part of its text. Splitting at a separator gives the parts named after it
    (trusted: str.partition)."""
    CUTS = {('decode',): {'/': ('category', 'name')},
            ('name',): {':': ('device', 'chan_grp')},
            ('chan_grp',): {'/': ('chan', 'group')}}

    def __init__(self, m, k, part='bytes'):
        self.m, self.k, self.part = m, k, part

    def _subst(self, sub):
        return Entry(self.m, sub(self.k), self.part)

    def __bool__(self):
        if self.part not in ('bytes', 'decode'):
            raise OutOfSubset('truth of a part of a name')
        return bool(mk_bool(z3.Not(self.m.blank(self.k))))

    def decode(self, *a):
        if self.part != 'bytes':
            raise AttributeError('decode')
        return Entry(self.m, self.k, 'decode')

    def partition(self, sep):
        cut = self.CUTS.get((self.part,), {}).get(sep)
        if cut is None:
            raise OutOfSubset('partition of %s at %r' % (self.part, sep))
        return Entry(self.m, self.k, cut[0]), sep, Entry(self.m, self.k, cut[1])

    def __add__(self, o):
        return Joined(self.m, self.k, [self]) + o

    def __eq__(self, o):
        if self.part == 'category' and isinstance(o, str):
            if o in ('INSTRUMENT', 'CONTROL'):
                return mk_bool(self.m.cat(self.k) == (1 if o == 'INSTRUMENT' else 2))
            return False
        if self.part == 'name' and isinstance(o, (Entry, Joined)):
            return mk_bool(self._ident() == o._ident())
        raise OutOfSubset('comparison of %s' % self.part)

    def _ident(self):
        if self.part != 'name':
            raise OutOfSubset('a set of %s' % self.part)
        return self.m.name(self.k)

    __hash__ = None


class Joined:
    def __init__(self, m, k, parts):
        self.m, self.k, self.parts = m, k, parts

    def __add__(self, o):
        return Joined(self.m, self.k, self.parts + [o])

    def _subst(self, sub):
        return Joined(self.m, sub(self.k), [p._subst(sub) if isinstance(p, Entry) else p for p in self.parts])

    def _ident(self):
        p = self.parts
        if len(p) == 3 and p[1] == ':' and isinstance(p[0], Entry) and isinstance(p[2], Entry) and \
                p[0].part == 'device' and p[2].part == 'chan':
            return self.m.channel(self.k)
        raise OutOfSubset('another name')

    def __eq__(self, o):
        return mk_bool(self._ident() == o._ident())

    __hash__ = None


class SourceList:
    """The list of data sources: blank, control, instrument or other entries"""
    def __init__(self, eng):
        F = lambda nm, r=ISORT: eng.fresh_fn('src_' + nm, [ISORT], r)
        self.n = eng.fresh('nsources')
        self.blank, self.cat, self.name, self.channel = F('blank', BSORT), F('category'), F('name'), F('channel')
        fact(self.n >= 0)

    def __getitem__(self, key):
        if key != slice(None):
            raise OutOfSubset('part of the source list')
        return VList.from_seq(FnSeq(self.n, lambda k: Entry(self, I(k))))


def bare_file(**kw):
    f = object.__new__(FileAccess)
    f._keys_cache, f._index_cache = VDict(), VDict()
    f.filename = '/abs/FILE'
    for k, v in kw.items():
        setattr(f, k, v)
    return f


class Paths:
    """An open file: objects by path"""
    def __init__(self, **d):
        self.d = {k.strip('/'): v for k, v in d.items()}

    def __getitem__(self, p):
        p = p.strip('/')
        if p not in self.d:
            raise KeyError(p)
        return self.d[p]

    def get(self, p, default=None):
        return self.d.get(p.strip('/'), default)

    def __contains__(self, p):
        return p.strip('/') in self.d


class Bytes0:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        if i != 0:
            raise IndexError(i)
        return self.s.encode()


@contract('C08', 'reader.FileAccess._read_data_sources', 'reader.FileAccess.format_version', assumes=('str.partition, bytes.decode',))
def read_data_sources(eng):
    sl = SourceList(eng)
    v = None if eng.choose('version 0.5') else '1.0' if eng.choose('1.0') else '1.1'
    d = {'METADATA/dataSourceId' if v is None else 'METADATA/dataSources/dataSourceId': sl}
    if v is not None:
        d['METADATA/dataFormatVersion'] = Bytes0(v)
    f = bare_file(_file=Paths(**d))
    n, blank, cat = sl.n, sl.blank, sl.cat
    unknown = lambda k: z3.And(z3.Not(blank(k)), cat(k) != 1, cat(k) != 2)
    try:
        control, instrument = f._read_data_sources()
    except ValueError:
        k = z3.Int('ex_k')
        prove('error-only-for-unknown-category', z3.Exists([k], z3.And(k >= 0, k < n, unknown(k))))
        return
    prove('format-version', f.format_version == (v or '0.5'))
    for nm, got, c, ident in (('control', control, 2, sl.name), ('instrument', instrument, 1, sl.channel)):
        seqs = set_seqs(got)
        if not all(isinstance(s, LoopSeq) for s in seqs):
            raise OutOfSubset('sets not made by a loop')
        with scope(nm + ' complete'):
            k = skolem('k', 0, n)
            suppose(z3.And(z3.Not(blank(k)), cat(k) == c))
            for s in seqs:
                touch(s, k)
            alts = []
            for s in seqs:
                w = seq_index(s, k, 0)
                alts.append(z3.And(w >= 0, w < I(s.n), elem_term(s, w) == ident(k)))
            prove(nm + '-complete', z3.Or(*alts))
        for s in seqs:
            with scope(nm + ' only'):
                w = skolem('w', 0, I(s.n))
                x = s.at(w)
                prove(nm + '-only', z3.And(x.k >= 0, x.k < n, z3.Not(blank(x.k)), cat(x.k) == c, x._ident() == ident(x.k)))
    with scope('unknown'):
        k = skolem('k', 0, n)
        prove('unknown-category-raises', z3.Not(unknown(k)))


@contract('C08', 'reader.FileAccess._read_index', 'reader.FileAccess.get_index', assumes=('h5py.Dataset',))
def read_index(eng):
    nt, m = sint('ntrains', 0), sint('nindex', 0)
    fact(T(m) >= T(nt))
    f = bare_file(train_ids=sarr('tids', nt, 'u8'))
    first = sarr('first', m, 'u8')
    other = sarr('first_other', m, 'u8')
    g = {'first': SymDS(first)}
    with_count = eng.choose('count')
    if with_count:
        count = sarr('count', m, 'u8')
        g['count'] = SymDS(count)
    else:
        last = sarr('last', m, 'u8')
        status = sarr('status', m, 'u8' if eng.choose('u8') else 'u4' if eng.choose('u4') else 'u1', lo=0, hi=2)
        g['last'], g['status'] = SymDS(last), SymDS(status)
    f._file = Paths(**{'INDEX/SRC/grp': Paths(**g), 'INDEX/SRC/other': Paths(first=SymDS(other), count=SymDS(other)),
                       'INDEX/SRC2/grp': Paths(first=SymDS(other), count=SymDS(other))})
    with no_exception('get_index'):
        f.get_index('SRC', 'other')
        firsts, counts = f.get_index('SRC', 'grp')
    prove('one-entry-per-train', z3.And(n_of(firsts) == T(nt), n_of(counts) == T(nt)))
    with scope():
        i = skolem('i', 0, T(nt))
        prove('first', at(firsts, i) == first.elem_fn(i))
        if with_count:
            prove('count', at(counts, i) == count.elem_fn(i))
        else:
            f_, l, s = first.elem_fn(i), last.elem_fn(i), status.elem_fn(i)
            prove('no-entries', z3.Implies(s == 0, at(counts, i) == 0))
            prove('count-from-last', z3.Implies(z3.And(s == 1, l >= f_, l - f_ + 1 < 2 ** 64), at(counts, i) == l - f_ + 1))
            prove('empty-from-last', z3.Implies(z3.And(s == 1, l == f_ - 1), at(counts, i) == 0))
    with no_exception('get_index again'):
        f2, c2 = f.get_index('SRC', 'grp')
        f3, c3 = f.get_index('SRC2', 'grp')
    with scope():
        i = skolem('i', 0, T(nt))
        prove('same-again', z3.And(n_of(f2) == T(nt), n_of(c2) == T(nt), at(f2, i) == at(firsts, i), at(c2, i) == at(counts, i)))
        prove('other-source', at(f3, i) == other.elem_fn(i))


@contract('C08 C10', 'reader.FileAccess.__init__')
def file_access(eng):
    rd = load('reader')
    kind = 'cache' if eng.choose('cache') else 'file'
    n = sint('n', 0)
    ids = sarr('ids', n, 'u8')
    t, N = ids.elem_fn, T(n)
    opened = []

    class OpenFile:
        def __getitem__(self, p):
            if p.strip('/') != 'INDEX/trainId':
                raise KeyError(p)
            return SymDS(ids)

    class H5py:
        Dataset = SymDS

        @staticmethod
        def File(path, mode='r', *a, **k):
            opened.append((path, mode))
            return OpenFile()
    cs, ins = VSet(['C1']), VSet(['I1'])
    info = dict(train_ids=ids, control_sources=cs, instrument_sources=ins) if kind == 'cache' else None
    with patched(rd, h5py=H5py), patched(FileAccess, _read_data_sources=lambda s: (cs, ins)), no_exception('FileAccess'):
        if info is not None:
            f = FileAccess('dir/f.h5', _cache_info=info)
        else:
            f = FileAccess('dir/f.h5') if eng.choose('no argument') else FileAccess('dir/f.h5', None)
    prove('sources', bool(f.control_sources is cs and f.instrument_sources is ins))
    prove('absolute', bool(f.filename.startswith('/') and f.filename.endswith('/dir/f.h5')))
    if kind == 'cache':
        prove('from-cache', bool(f.train_ids is ids and not opened))
        return
    prove('read-only', all(md == 'r' and p == f.filename for p, md in opened))
    m = n_of(f.train_ids)
    # in order: each train ID recorded, zeros left out
    pos = eng.path.log.get('positions', [])
    with scope():
        i = skolem('i', 0, N)
        suppose(t(i) != 0)
        for r in pos:
            mention(r.ix(r.rk(i)))
        j = z3.Int('ex_j')
        prove('all-train-ids', z3.Exists([j], z3.And(j >= 0, j < m, at(f.train_ids, j) == t(i))))
    with scope():
        j = skolem('j', 0, m)
        i = z3.Int('ex_i')
        prove('no-padding', at(f.train_ids, j) != 0)
        prove('only-recorded', z3.Exists([i], z3.And(i >= 0, i < N, at(f.train_ids, j) == t(i))))
    # padded at the end only: exactly the entries before
    with scope():
        w = skolem('w', 0, N + 1)
        q = bound_var()
        suppose(forall([q], z3.Implies(z3.And(q >= 0, q < N), (t(q) != 0) == (q < w)), patterns=[t(q)]))
        for r in pos:
            induct('ids before padding', 0, r.count, lambda k: r.ix(k) == k, pats=lambda k: [(r.ix(k),)])
            mention(r.rk(w - 1), r.rk(m), r.ix(m - 1), r.rk(m - 1), t(m), t(w - 1), t(m - 1))
        prove('padding-ignored', m == w)
        j = skolem('j', 0, m)
        prove('padding-ignored-values', at(f.train_ids, j) == t(j))


class Tree:
    """A group: visititems calls for each object in it"""
    def __init__(self, items):
        self.items = items

    def visititems(self, f):
        for name, obj in self.items:
            r = f(name, obj)
            if r is not None:
                return r


class GhostDataset:
    pass


@contract('C08', 'reader.FileAccess.get_keys', 'reader.FileAccess.all_sources', assumes=('h5py.Group.visititems',
          'a representative set of objects'))
def get_keys(eng):
    rd = load('reader')
    D, G = GhostDataset(), object()
    objs = [('a', G), ('a/value', D), ('a/timestamp', D), ('b', D), ('c', G), ('c/d', G), ('c/d/e', D)]
    there = [o for o in objs if eng.choose('has ' + o[0])]
    f = bare_file(control_sources=VSet(['X/Y', 'Z']), instrument_sources=VSet(['X/Y:out', 'D:out']))
    f._file = Paths(**{'CONTROL/X/Y': Tree(there), 'CONTROL/Z': Tree([('z', D)]), 'INSTRUMENT/X/Y:out': Tree(there[:1]),
                       'INSTRUMENT/D:out': Tree(objs)})

    class H5py:
        Dataset = GhostDataset
    want = {n.replace('/', '.') for n, o in there if o is D}
    with patched(rd, h5py=H5py):
        with no_exception('get_keys'):
            f.get_keys('Z')
            got = f.get_keys('X/Y')
            again = f.get_keys('X/Y')
            ins = f.get_keys('D:out')
        prove('keys', set(got) == want)
        prove('keys-again', set(again) == want)
        prove('keys-instrument', set(ins) == {n.replace('/', '.') for n, o in objs if o is D})
        prove('all-sources', set(f.all_sources) == {'X/Y', 'Z', 'X/Y:out', 'D:out'})
        try:
            f.get_keys('X/Y:none')
        except rd.SourceNameError:
            pass
        else:
            prove('unknown-source-raises', False)


class NamedFile:
    """File of a collection with given sources and any train IDs"""
    def __init__(self, name, control, instrument):
        self.name = name
        self.control_sources, self.instrument_sources = VSet(control), VSet(instrument)
        self.n = sint('ntrains', 0)
        self.train_ids = sarr('tids', self.n, 'u8')

    @property
    def all_sources(self):
        return self.control_sources | self.instrument_sources


@contract('C08 C01 C02', 'reader.DataCollection.__init__', assumes=('three files with up to two sources each stand for any number',
                                                      '_check_source_conflicts (C09)'))
def collection_init(eng):
    rd = load('reader')
    fs = [NamedFile('f0', ['C1', 'C2'], ['I1:x']), NamedFile('f1', ['C1'], []), NamedFile('f2', [], ['I1:x', 'I2:x'])]
    if eng.choose('two files'):
        fs = fs[:2]
    seln = None
    if eng.choose('selection'):
        seln = VDict({'C1': None, 'I1:x': VSet(['a.b'])} if eng.choose('one of each') else {'C2': VSet(['k.value'])})
    given = Trains().list if eng.choose('train IDs given') else None
    with patched(DataCollection, _check_source_conflicts=lambda s: None), no_exception('DataCollection'):
        dc = DataCollection(VList(fs) if eng.choose('list') else tuple(fs), seln, given, ctx_closes=True)
    C = {s for f in fs for s in f.control_sources}
    S = {s for f in fs for s in f.instrument_sources}
    keep = (C | S) if seln is None else set(seln)
    prove('control-sources', set(dc.control_sources) == C & keep)
    prove('instrument-sources', set(dc.instrument_sources) == S & keep)
    prove('selection', bool(dc.selection is seln) if seln is not None else dict(dc.selection) == dict.fromkeys(C | S))
    prove('files', list(dc.files) == fs)
    for s in (C | S):
        prove('files-of-source', list(dc._source_index[s]) == [f for f in fs if s in f.control_sources or s in f.instrument_sources])
    if given is not None:
        prove('train-ids-given', bool(dc.train_ids is given))
        return
    t = as_seq(dc.train_ids)
    n = I(t.n)
    g = lambda k: elem_term(t, I(k))
    with scope('order'):
        a, b = skolem('a', 0, n), skolem('b', 0, n)
        prove('train-ids-increasing', z3.Implies(a < b, g(a) < g(b)))
    with scope('only'):
        a = skolem('a', 0, n)
        i = z3.Int('ex_i')
        prove('train-ids-only', z3.Exists([i], z3.Or(*[z3.And(i >= 0, i < T(f.n), f.train_ids.elem_fn(i) == g(a)) for f in fs])))
    for f in fs:
        with scope('all'):
            i = skolem('i', 0, T(f.n))
            k = z3.Int('ex_k')
            prove('train-ids-all', z3.Exists([k], z3.And(k >= 0, k < n, g(k) == f.train_ids.elem_fn(i))))


class AnyPath:
    """Path k of a list of files"""
    def __init__(self, k):
        self.k = k

    def _subst(self, sub):
        return AnyPath(sub(self.k))

    def _ident(self):
        return self.k

    def __eq__(self, o):
        return mk_bool(self.k == o.k)

    __hash__ = None


class OpenedFile(AnyPath):
    def __init__(self, k, info=None):
        self.k, self.info = k, info

    def _subst(self, sub):
        return OpenedFile(sub(self.k), None if self.info is None else sub(self.info))


class Info:
    def __init__(self, k):
        self.k = k

    def _subst(self, sub):
        return Info(sub(self.k))


@contract('C08 C10', 'reader.DataCollection.from_paths', 'reader.DataCollection.from_path', 'reader.H5File',
          assumes=('FileAccess gives a file or raises',))
def from_paths(eng):
    rd = load('reader')
    N = eng.fresh('npaths')
    fact(N >= 0)
    opens, cached = eng.fresh_fn('opens', [ISORT], BSORT), eng.fresh_fn('cached', [ISORT], BSORT)

    def opened(path, _cache_info=None):
        if not bool(mk_bool(opens(path.k))):
            raise (OSError if bool(mk_bool(z3.Function('oserr', ISORT, BSORT)(path.k))) else KeyError)('not a data file')
        return OpenedFile(path.k, _cache_info.k if _cache_info is not None else z3.IntVal(-1))
    said = VList()

    def ghost_print(*a, file=None, **k):
        for x in a:
            if isinstance(x, AnyPath):
                said.append(x)

    class Map:
        def get(self, path):
            if bool(mk_bool(cached(path.k))):
                return Info(path.k)
            return None
    fmap = Map() if eng.choose('files map') else None
    single = eng.choose('one path')
    if single:
        fact(N == 1)

    class Coll(DataCollection):
        def __init__(self, files, selection=None, train_ids=None, ctx_closes=False):
            self.files, self.selection, self.train_ids, self.ctx_closes = files, selection, train_ids, ctx_closes
    paths = VList.from_seq(FnSeq(N, lambda k: AnyPath(I(k))))
    with patched(rd, FileAccess=opened, print=ghost_print, DataCollection=Coll):
        try:
            if single:
                dc = rd.H5File(AnyPath(z3.IntVal(0)))
            else:
                dc = Coll.from_paths(paths, fmap) if fmap is not None else Coll.from_paths(paths)
        except OutOfSubset:
            raise
        except Exception as e:
            check_genuine(e, __import__('traceback').extract_tb(e.__traceback__))
            with scope('nothing usable'):
                k = skolem('k', 0, N)
                for s in [x for p in eng.path.log.get('built', []) for x in p]:
                    touch(s, k)
                prove('fails-only-if-nothing-usable', z3.Not(opens(k)))
            return
    prove('closes', bool(dc.ctx_closes and dc.selection is None and dc.train_ids is None))
    if single:
        prove('the-file', bool(len(dc.files) == 1))
        prove('opens-it', z3.And(opens(I(0)), dc.files[0].k == 0))
        return
    fl = as_seq(dc.files)
    prove('something-usable', I(fl.n) > 0)
    if not isinstance(fl, LoopSeq):
        raise OutOfSubset('files not listed by one loop')
    with scope('kept'):
        k = skolem('k', 0, N)
        suppose(opens(k))
        touch(fl, k)
        w = seq_index(fl, k, 0)
        have('kept', z3.And(w >= 0, w < I(fl.n)))
        f = fl.at(w)
        prove('kept-as-is', f.k == k)
        prove('with-cache-entry', f.info == (z3.If(cached(k), k, -1) if fmap is not None else -1))
    with scope('only'):
        w = skolem('w', 0, I(fl.n))
        f = fl.at(w)
        prove('only-usable', z3.And(f.k >= 0, f.k < N, opens(f.k)))
        w2 = skolem('w2', 0, I(fl.n))
        g = fl.at(w2)
        prove('in-order', z3.Implies(w < w2, f.k < g.k))
    sp = as_seq(said)
    with scope('named'):
        k = skolem('k', 0, N)
        suppose(z3.Not(opens(k)))
        for s in seq_parts(sp):
            touch(s, k)
        q = z3.Int('ex_q')
        if isinstance(sp, LoopSeq):
            w = seq_index(sp, k, 0)
            have('skipped-named', z3.And(w >= 0, w < I(sp.n)))
            prove('skipped-named-which', sp.at(w).k == k)
        else:
            prove('skipped-named', False)
