"""C04: reading one train"""
from ..api import *
from ._model import *

CTL, INS, INS2 = 'FXE_XGM/DOOCS', 'FXE_DET/DET/0CH0:xtdf', 'FXE_CAM:out'


def sources(kind, few=False):
    """Sources with arbitrary files, trains and entries:
    control: a control source with two keys;
    instrument: one with keys of two index groups (one or all of them selected);
    two: a control and an instrument source"""
    if kind == 'control':
        f = Files(CTL, 'beam.x.value', instrument=False, unit_counts=True)
        f.add_key('beam.y.value', (eng_dim('cd'),), 'i4')
        fs = [f]
    elif kind == 'instrument':
        f = Files(INS, 'image.data', trail=(eng_dim('d'),))
        if not few:
            f.add_key('image.pulseId', (), 'u8')
        f.add_key('header.x', (), 'i2')
        fs = [f]
    else:
        fs = [Files(CTL, 'beam.x.value', instrument=False, unit_counts=True), Files(INS2, 'data.pix')]
        fs[1].add_key('data.skip', (), 'i2')
    select = {f.source: set(f.keys) - {'data.skip'} for f in fs}
    if kind == 'instrument' and not few and E().choose('all keys'):
        select[INS] = None
    elif kind == 'control' and not few and E().choose('one key'):
        select[CTL] = {'beam.y.value'}
    return fs, select


def eng_dim(hint):
    d = E().fresh(hint)
    fact(d >= 0)
    return d


def check_train(what, fs, select, t, res):
    """What every way of reading train t has to give"""
    prove(what + ': sources', set(res) == {f.source for f in fs})
    for f in fs:
        d = dict(res[f.source])
        meta = d.pop('metadata', None)
        prove(what + ': metadata', bool(meta is not None and set(meta) == {'source', 'timestamp.tid'} and
                                        meta['source'] == f.source) and T(meta['timestamp.tid']) == t)
        keys = select[f.source] if select[f.source] is not None else set(f.keys)
        prove(what + ': keys', set(d) <= set(keys))
        for key in sorted(keys):
            g, dt, data, trail = f.keys[key]
            first, count = f.groups[g]
            nm = '%s: %s %s' % (what, f.source, key)
            with scope(nm):
                k = skolem('k', 0, f.NF)
                p = skolem('p', 0, f.ntr(k))
                suppose(f.tid(k, p) == t)
                if key not in d:
                    prove(nm + ' is missing', count(k, p) == 0)
                    continue
                a, c, f0 = d[key], count(k, p), first(k, p)
                prove(nm + ' has data', c > 0)
                shape = tuple(a._shape) if isinstance(a, Arr) else np.shape(a) if not isinstance(a, Sym) else ()
                multi = len(shape) == len(trail) + 1
                prove(nm + ' type', bool(len(shape) in (len(trail), len(trail) + 1) and a.dtype == dt))
                prove(nm + ' shape', z3.And(c == I(shape[0]) if multi else c == 1, z3.Or(c > 1, z3.BoolVal(not multi)),
                                            *[I(x) == I(y) for x, y in zip(shape[1:] if multi else shape, trail)]))
                e = skolem('e', 0, c) if multi else I(0)
                idx = [skolem('x', 0, d_) for d_ in trail]
                got = at(a, *(([e] if multi else []) + idx)) if isinstance(a, Arr) else T(a)
                prove(nm + ' content', got == data(k, f0 + e, *idx))
            if key in d:
                k, p = z3.Int('some_k'), z3.Int('some_p')
                prove(nm + ' is of the train', z3.Exists([k, p], z3.And(
                    k >= 0, k < f.NF, p >= 0, p < f.ntr(k), f.tid(k, p) == t)))


def train_from_id(eng, kind):
    fs, select = sources(kind)
    tr = Trains()
    dc = collection(fs, tr, select)
    tid = sint('want')
    t = T(tid)
    try:
        r, res = dc.train_from_id(tid)
    except KeyError as e:
        prove('error-only-if-not-selected', z3.Not(tr.has(t)))
        return
    prove('returned-id', T(r) == t)
    prove('unselected-raises', tr.has(t))
    check_train('by ID', fs, select, t, res)


@contract('C04', 'reader.DataCollection.train_from_index')
def train_from_index(eng):
    """Position i of the trains is read as the train of that ID"""
    tr = Trains()
    dc = collection(Files(), tr)
    i = sint('i')
    calls = []

    def by_id(self, train_id, devices=None):
        calls.append((train_id, devices))
        return train_id, 'DATA'
    devices = object() if eng.choose('devices') else None
    with patched(DataCollection, train_from_id=by_id):
        try:
            r = dc.train_from_index(i, devices) if devices is not None else dc.train_from_index(i)
        except IndexError:
            prove('error-only-if-outside', z3.Or(T(i) >= tr.n, T(i) < -tr.n))
            return
    prove('one-read', len(calls) == 1 and calls[0][1] is devices and r[1] == 'DATA')
    prove('in-range', z3.And(T(i) < tr.n, T(i) >= -tr.n))
    prove('its-train', T(calls[0][0]) == tr.f(z3.If(T(i) < 0, T(i) + tr.n, T(i))))


class Cache:
    """Any state of the datasets found for earlier trains: each source and key
    may be recorded with any of its files"""
    def __init__(self, fs, select):
        self.fs = fs
        self.d = VDict()
        for f in fs:
            for key in sorted(select[f.source] if select[f.source] is not None else f.keys):
                if E().choose('cached %s %s' % (f.source, key)):
                    k0 = sint('cached_file', 0, mk_int(f.NF))
                    self.d[(f.source, key)] = (SymFile(f, T(k0)), f.dataset_obj(T(k0), key))

    def check(self, d):
        """The recorded datasets are those of the recorded files"""
        for (s, key), (file, ds) in d.items():
            f = [f for f in self.fs if f.source == s][0]
            ok = isinstance(file, SymFile) and file.m is f and isinstance(ds, SymDS) and ds.of[0] is f and ds.of[2] == key
            prove('cache of %s %s' % (s, key), z3.And(file.k >= 0, file.k < f.NF, ds.of[1] == file.k) if ok else False)


def assemble_train(eng, kind):
    rd = load('reader')
    fs, select = sources(kind, few=True)
    tr = Trains()
    dc = collection(fs, tr, select)
    it = object.__new__(rd.TrainIterator)
    it.data, it.require_all = dc, bool(sbool('require_all'))
    cache = Cache(fs, select)
    it._datasets_cache = cache.d
    i = sint('i', 0, mk_int(tr.n))
    t = tr.f(T(i))
    with no_exception('_assemble_data'):
        res = it._assemble_data(mk_int(t))
    check_train('iterating', fs, select, t, res)
    cache.check(it._datasets_cache)


@contract('C04', 'reader.TrainIterator.__init__')
def iterator_init(eng):
    rd = load('reader')
    tr = Trains()
    dc = collection(Files(), tr)
    it = rd.TrainIterator(dc, require_all=False)
    prove('data', bool(it.data is dc and it.require_all is False))
    prove('nothing-cached', len(it._datasets_cache) == 0)


@contract('C04', 'reader.TrainIterator.__iter__')
def iterate(eng):
    """Trains in order, each once, without exactly those that miss data if all
    data is required"""
    rd = load('reader')
    tr = Trains()
    dc = collection(Files(), tr)
    it = object.__new__(rd.TrainIterator)
    it.data, it._datasets_cache = dc, VDict()
    need = it.require_all = bool(sbool('require_all'))
    missing = z3.Function('missing', ISORT, BSORT)

    class Assembled:
        def __init__(self, t):
            self.t = t

        def _subst(self, sub):
            return Assembled(sub(self.t))

    def _assemble_data(self, tid):
        return Assembled(T(tid))

    def _check_data_missing(self, tid):
        return mk_bool(missing(T(tid)))
    with patched(rd.TrainIterator, _assemble_data=_assemble_data), \
            patched(DataCollection, _check_data_missing=_check_data_missing), no_exception('__iter__'):
        r = as_seq(VList(it) if False else it.__iter__())
    N = I(r.n)
    tid_at = lambda i: T(r.at(i)[0])
    with scope():
        i = skolem('i', 0, N)
        tid, data = r.at(i)
        prove('data-of-train', data.t == T(tid))
        have('selected', tr.has(T(tid)))
        prove('has-data', z3.BoolVal(True) if not need else z3.Not(missing(T(tid))))
        j = skolem('j', 0, N)
        prove('order', z3.Implies(i < j, T(tid) < tid_at(j)))
    with scope():
        s = skolem('s', 0, tr.n)
        if need:
            suppose(z3.Not(missing(tr.f(s))))
        w = seq_index(r, s, 0)
        have('visited-at', z3.And(w >= 0, w < N))
        prove('visited', tid_at(w) == tr.f(s))


def data_missing(eng, kind):
    rd = load('reader')
    fs, select = sources(kind)
    tr = Trains()
    dc = collection(fs, tr, select)
    i = sint('i', 0, mk_int(tr.n))
    t = tr.f(T(i))
    with no_exception('_check_data_missing'):
        r = bool(dc._check_data_missing(mk_int(t)))
    absent = []
    for f in fs:
        keys = select[f.source] if select[f.source] is not None else set(f.keys)
        for g in sorted({f.keys[key][0] for key in keys}):
            k, p = z3.Int('k'), z3.Int('p')
            there = z3.And(k >= 0, k < f.NF, p >= 0, p < f.ntr(k), f.tid(k, p) == t)
            absent.append(z3.Not(z3.Exists([k, p], z3.And(there, f.groups[g][1](k, p) > 0))))
            if not r:
                prove('complete: ' + f.source + ' ' + g, z3.Not(absent[-1]))
    if r:
        prove('something-missing', z3.Or(*absent))


for _k in ('control', 'instrument', 'two'):
    for _f, _fns in ((train_from_id, ('DataCollection.train_from_id', 'DataCollection._find_data',
                                      'DataCollection.keys_for_source')),
                     (assemble_train, ('TrainIterator._assemble_data', 'TrainIterator._find_data',
                                       'DataCollection._find_data')),
                     (data_missing, ('DataCollection._check_data_missing', 'DataCollection._find_data'))):
        def _c(eng, _k=_k, _f=_f):
            _f(eng, _k)
        _c.__name__ = '%s_%s' % (_f.__name__, _k)
        contract('C04', *['reader.' + x for x in _fns])(_c)
