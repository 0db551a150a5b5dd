"""C06 (and part of C07): written files.

The entries of a key are given by their number for each selected train: the
contract of get_array (C03) puts them one train after the other, labelled with
the train's ID."""
from ..api import *
from .. import bshim
from ._model import *

WR = load('writer')


class Entries:
    """c(p) entries for train p of the collection, with labels"""
    def __init__(self, tr, name, unit=False):
        eng = E()
        self.tr = tr
        self.c = eng.fresh_fn('entries_' + name, [ISORT], ISORT)
        p = bound_var(hint='p')
        fact(z3.And(self.c(p) >= 0, self.c(p) < 2 ** 31, *([self.c(p) <= 1] if unit else [])), [p], (), [(self.c(p),)])
        self.w = psum.window(self.c, tr.n)
        self.off = self.w.at
        self.D = self.off(tr.n)
        fact(self.D < 2 ** 62)
        self.train = self.w.blk
        self.label = eng.fresh_fn('label_' + name, [ISORT], ISORT)
        e, g = bound_var(hint='e'), bound_var(hint='g')
        fact(self.label(e) == tr.f(self.train(e)), [e], [e >= 0, e < self.D], [(self.label(e),)])
        # the train of an entry does not decrease
        fact(self.train(e) <= self.train(g), [e, g], [e >= 0, e <= g, g < self.D], [(self.train(e), self.train(g))]) \
            if False else None
        self.labels = new((dim(self.D),), u8, lambda idx: self.label(I(idx[0])))

    def counted(self):
        """Lemma: how many of the first e labels are those of train p"""
        tr, c, off = self.tr, self.c, self.off
        t, p = E().fresh('t'), None
        ps = psum.prefix(lambda e: z3.If(t == self.label(e), z3.IntVal(1), z3.IntVal(0)))
        if len(ps.args) != 1:
            raise OutOfSubset('engine: number of labels')
        f = ps.f
        tt, e = bound_var(hint='t'), bound_var(hint='e')
        fact(f(tt, I(0)) == 0, [tt], (), [(f(tt, I(0)),)])
        fact(f(tt, e + 1) == f(tt, e) + z3.If(tt == self.label(e), z3.IntVal(1), z3.IntVal(0)), [tt, e],
             [e >= 0, e < self.D], [(f(tt, e), self.label(e)), (f(tt, e + 1),)])
        upto = lambda e, p: z3.If(e <= off(p), z3.IntVal(0), z3.If(e >= off(p) + c(p), c(p), e - off(p)))

        def P(e, p):
            return z3.Implies(z3.And(p >= 0, p < tr.n, e <= self.D), f(tr.f(p), e) == upto(e, p))
        # which train entry e belongs to
        g = E().fresh('known_e')
        use = induct('entries of a train', 0, None, lambda e, p: P(e, p), 1,
                     pats=lambda e, p: [(f(tr.f(p), e),)])
        # and so the sums of the counts
        p0 = E().fresh('p')
        cnt = psum.total(lambda e: z3.If(tr.f(p0) == self.label(e), z3.IntVal(1), z3.IntVal(0)), self.D)
        # as the number itself, or converted to unsigned
        for form in (cnt, cnt % 2 ** 64):
            ps2 = psum.prefix(lambda p: z3.substitute(form, (p0, p)))
            q = bound_var(hint='p')
            fact(ps2.at(0) == 0)
            fact(ps2.at(q + 1) == ps2.at(q) + ps2.d(q), [q], [q >= 0, q < tr.n], [(ps2.at(q), tr.f(q)), (ps2.at(q + 1),)])
            induct('sums of the counts', 0, tr.n + 1, lambda p: z3.And(ps2.at(p) == off(p), off(p) <= self.D, off(p) >= 0),
                   pats=lambda p: [(ps2.at(p),)])
        return use


def fw_of(tr):
    fw = object.__new__(WR.FileWriter)

    class Data:
        train_ids = tr.list
    fw.data = Data()
    fw.indexes, fw.data_sources = VDict(), VSet()
    return fw


def check_index(name, ent, firsts, counts):
    """The index gives each train exactly its entries"""
    tr = ent.tr
    prove(name + ': one entry per train', z3.And(n_of(firsts) == tr.n, n_of(counts) == tr.n))
    prove(name + ': types', firsts.dtype == u8 and counts.dtype == u8)
    p_ = E().fresh('anything')
    ps = None
    with scope():
        p = skolem('p', 0, tr.n)
        prove(name + ': count', at(counts, p) == ent.c(p))
    ok = lambda p: z3.Implies(p < tr.n, at(firsts, p) == ent.off(p))
    with scope():
        p = skolem('p', 0, tr.n)
        prove(name + ': first', at(firsts, p) == ent.off(p))


@contract('C06 C07', 'writer.FileWriter._generate_index')
def generate_index(eng):
    tr = Trains()
    ent = Entries(tr, 'e')
    fw = fw_of(tr)
    ent.counted()
    with no_exception('_generate_index'):
        firsts, counts = fw._generate_index(ent.labels)
    check_index('index', ent, firsts, counts)


@contract('C06 C07', 'writer.FileWriter._make_control_index')
def control_index(eng):
    tr = Trains()
    ent = Entries(tr, 'e', unit=True)
    fw = fw_of(tr)
    with no_exception('_make_control_index'):
        fw._make_control_index('DEV/CTRL', ent.labels)
    prove('control: one index', list(fw.indexes) == ['DEV/CTRL'])
    firsts, counts = fw.indexes['DEV/CTRL']
    prove('control: source listed', set(set.__iter__(fw.data_sources)) == {'CONTROL/DEV/CTRL'})
    with scope():
        p = skolem('p', 0, tr.n)
        # the entry of a train, if there is one
        e = ent.off(p)
        have('control: entry in range', z3.Implies(ent.c(p) == 1, z3.And(e >= 0, e < ent.D, ent.train(e) == p)))
        mention(ent.label(e))
        have('control: count', at(counts, p) == ent.c(p))
    induct('control: first', 0, tr.n, lambda p: at(firsts, p) == ent.off(p))
    check_index('control', ent, firsts, counts)
    before = [at(firsts, 0)]
    with no_exception('_make_control_index again'):
        fw._make_control_index('DEV/CTRL', ent.labels)
    prove('control: still one index', list(fw.indexes) == ['DEV/CTRL'] and fw.indexes['DEV/CTRL'][0] is firsts)


class OutFile:
    """h5py.File open for writing: datasets by path (trusted)"""
    def __init__(self, path, mode):
        self.path, self.mode, self.sets, self.attrs = path, mode, {}, {}

    def _put(self, path, value):
        path = path.strip('/')
        if path in self.sets:
            raise ValueError('Unable to create dataset (name already exists)')
        self.sets[path] = value

    def __setitem__(self, path, value):
        self._put(path, value)

    def create_dataset(self, path, shape=None, dtype=None, data=None, maxshape=None, **kw):
        if data is None:
            data = OutDS(shape)
        self._put(path, data)
        return data

    def create_virtual_dataset(self, path, layout, fillvalue=None):
        self._put(path, layout)

    def require_group(self, path):
        return self

    create_group = require_group

    def close(self):
        pass


class OutDS:
    def __init__(self, shape):
        self.shape, self.data = shape, None

    def __setitem__(self, key, value):
        if key != slice(None):
            raise OutOfSubset('part of a dataset')
        self.data = list(value)


class H5PY:
    File = OutFile
    VirtualLayout = VirtualSource = object

    @staticmethod
    def special_dtype(**kw):
        return ('special', kw)

    @staticmethod
    def string_dtype(*a, **kw):
        return ('special', kw)


class Labelled:
    def __init__(self, values, labels):
        self.values = self.data = values
        self.coords = {'trainId': self.__class__.Values(labels)}

    class Values:
        def __init__(self, a):
            self.values = self.data = a


KEYS = {'D/CTRL': ('x.value', 'y.value'), 'D/INA:out': ('image.data', 'image.x', 'data.v'), 'D/INB:out': ('data.v',)}


def text(x):
    return x.decode() if isinstance(x, bytes) else x


def group_of(s, k):
    return '' if 'CTRL' in s else k.partition('.')[0]


class Source:
    """What FileWriter uses of a collection"""
    def __init__(self, eng, empty):
        self.tr = Trains()
        self.train_ids = self.tr.list
        self.sel, self.ents, self.arrays = {}, {}, {}
        for s, ks in KEYS.items():
            ks = [k for k in ks if eng.choose('%s.%s' % (s, k))]
            if ks:
                self.sel[s] = ks
            for k in ks:
                g = group_of(s, k)
                if (s, g) not in self.ents:
                    none = empty and eng.choose('%s %s has no data' % (s, g))
                    self.ents[s, g] = None if none else Entries(self.tr, '%s_%s' % (s[2:5], g), unit=not g)
                    if empty and not none:
                        fact(self.ents[s, g].D > 0)
                f = eng.fresh_fn('val_%s_%s' % (s[2:5], k.replace('.', '_')), [ISORT, ISORT], ISORT)
                ent = self.ents[s, g]
                if ent is not None:
                    self.arrays[s, k] = new((dim(ent.D), 3), 'i4', lambda idx, f=f: f(I(idx[0]), I(idx[1])))
        self.control_sources = VSet(s for s in self.sel if 'CTRL' in s)
        self.instrument_sources = VSet(s for s in self.sel if 'CTRL' not in s)
        self.all_sources = self.control_sources | self.instrument_sources

    def keys_for_source(self, s):
        return VSet(self.sel[s])

    def get_array(self, s, k):
        """Contract of get_array (C03)"""
        return Labelled(self.arrays[s, k], self.ents[s, group_of(s, k)].labels)

    def ent_of(self, labels):
        for e in self.ents.values():
            if e is not None and e.labels is labels:
                return e
        raise OutOfSubset('other train IDs')


def written(eng, virtual):
    src = Source(eng, virtual)

    def index(self, labels):
        e = src.ent_of(labels)
        n = dim(e.tr.n)
        return (new((n,), u8, lambda idx: e.off(I(idx[0]))), new((n,), u8, lambda idx: e.c(I(idx[0]))))

    def control(self, source, labels):
        if source not in self.indexes:
            self.indexes[source] = index(self, labels)
            self.data_sources.add('CONTROL/' + source)

    class Layout:
        def __init__(self, s, k):
            self.of = s, k

    def assemble(self, s, k):
        e = src.ents[s, group_of(s, k)]
        if e is None:
            return None, None
        return Layout(s, k), e.labels

    with patched(WR, h5py=H5PY), patched(WR.FileWriter, _generate_index=index, _make_control_index=control), \
            patched(WR.VirtualFileWriter, _assemble_data=assemble), no_exception('write'):
        fw = (WR.VirtualFileWriter if virtual else WR.FileWriter)('out.h5', src)
        fw.write()
    out = fw.file
    prove('file: a new one', out.path == 'out.h5' and out.mode == 'w')
    sets = dict(out.sets)
    tids = sets.pop('INDEX/trainId', None)
    prove('file: train IDs', tids is not None)
    prove('file: number of trains', n_of(A.to_arr(NPM.array(tids)) if isinstance(tids, VList) else tids) == src.tr.n)
    with scope():
        p = skolem('p', 0, src.tr.n)
        prove('file: each train ID', elem_term(as_seq(tids), p) == src.tr.f(p))
    want = []
    for (s, k) in [(s, k) for s, ks in src.sel.items() for k in ks]:
        e = src.ents[s, group_of(s, k)]
        if e is None:
            continue
        path = ('CONTROL/' if 'CTRL' in s else 'INSTRUMENT/') + s + '/' + k.replace('.', '/')
        got = sets.pop(path, None)
        if virtual:
            prove('file: data of the key', isinstance(got, Layout) and got.of == (s, k))
        else:
            a = src.arrays[s, k]
            prove('file: a dataset for the key', isinstance(got, Arr) and got.dtype == a.dtype and got.ndim == 2)
            prove('file: its size', z3.And(*[I(x) == I(y) for x, y in zip(got._shape, a._shape)]))
            with scope():
                i, j = skolem('i', 0, I(a._shape[0])), skolem('j', 0, 3)
                prove('file: its content', at(got, i, j) == at(a, i, j))
        ix = s + '/' + group_of(s, k) if group_of(s, k) else s
        name = ('CONTROL/' if 'CTRL' in s else 'INSTRUMENT/') + ix
        if name not in want:
            want.append(name)
            first, count = sets.pop('INDEX/%s/first' % ix, None), sets.pop('INDEX/%s/count' % ix, None)
            prove('file: an index for the key', first is not None and count is not None)
            check_index('file', e, first, count)
    meta = {k: sets.pop('METADATA/' + k, None) for k in ('dataSourceId', 'root', 'deviceId')}
    prove('file: metadata', all(isinstance(m, OutDS) and m.data is not None for m in meta.values()))
    meta = {k: [text(x) for x in m.data] for k, m in meta.items()}
    prove('file: list of sources', sorted(meta['dataSourceId']) == sorted(want))
    prove('file: parts of the names of sources', len(meta['root']) == len(meta['deviceId']) == len(want) and all(
        r + '/' + d == n and r in ('CONTROL', 'INSTRUMENT')
        for r, d, n in zip(meta['root'], meta['deviceId'], meta['dataSourceId'])))
    prove('file: nothing else', not sets)


WASSUME = ('get_array: its contract (C03)', 'h5py: writing (see OutFile in vc/contracts/c06.py)',
           'representative sources and keys, any selection of them')
FN = ('writer.FileWriter.write', 'writer.FileWriter.add_control_dataset', 'writer.FileWriter.add_instrument_dataset',
      'writer.FileWriter._make_instrument_index', 'writer.FileWriter.write_train_ids', 'writer.FileWriter.write_indexes',
      'writer.FileWriter.write_metadata')


@contract('C06', *FN, assumes=WASSUME)
def write(eng):
    written(eng, False)


@contract('C07', 'writer.VirtualFileWriter.add_control_dataset', 'writer.VirtualFileWriter.add_instrument_dataset', *FN,
          assumes=WASSUME)
def write_virtual(eng):
    written(eng, True)
