"""C12: detector data is assembled with the right pulses, trains and modules."""
from ..api import *
from ..npshim import progression
from ._model import *

C = load('components')
by_id, by_index = C.by_id, C.by_index
LIM = 2 ** 62


def choice(eng, what, options):
    for o in options[:-1]:
        if eng.choose('%s: %r' % (what, o)):
            return o
    return options[-1]


class Sel:
    """A normalised pulse selection (as _check_pulse_selection gives), with
    has(x): is pulse ID or position x selected"""
    def __init__(self, eng, cls):
        kind = self.kind = choice(eng, 'selection', ['all', 'slice', 'array'])
        if kind == 'all':
            self.pulses = cls(slice(0, C.MAX_PULSES, 1))
            self.has = lambda x: z3.BoolVal(True)       # IDs and counts are below MAX_PULSES
        elif kind == 'slice':
            lo, hi, st = sint('start', 0, LIM), sint('stop', 0, LIM), sint('step', 1, LIM)
            self.pulses = cls(slice(lo, hi, st))
            g = progression(T(lo), T(st))
            # x is selected if it is g(w(x)); w is the inverse of g
            w = eng.fresh_fn('in_progression_at', [ISORT], ISORT)
            i, x = bound_var(hint='i'), bound_var(hint='x')
            fact(w(g(i)) == i, [i], [i >= 0], [(g.M(i),)])
            fact(w(x) == x - T(lo), [x], [T(st) == 1, x >= T(lo)], [(w(x),)])
            self.has = lambda x: z3.And(w(x) >= 0, g(w(x)) == x, x < T(hi))
            self.at = lambda x: w(x)
        else:
            n = eng.fresh('sel_n')
            f = eng.fresh_fn('sel', [ISORT], ISORT)
            MEM, w = eng.fresh_fn('in_sel', [ISORT], BSORT), eng.fresh_fn('sel_at', [ISORT], ISORT)
            i, x = bound_var(hint='i'), bound_var(hint='x')
            fact(n >= 0)
            fact(z3.And(f(i) >= 0, f(i) < LIM, MEM(f(i))), [i], [i >= 0, i < n], [(f(i),)])
            fact(z3.And(w(x) >= 0, w(x) < n, f(w(x)) == x), [x], [MEM(x)], [(MEM(x),)])
            increasing(f, n)
            self.pulses = cls(arr_of(f, n, 'u8'))
            self.has = lambda x: MEM(x)
            self.at = lambda x: w(x)


def enumerates(what, r, n, has):
    """r is the increasing enumeration of the 0 <= i < n with has(i)"""
    r = pos_arr(r, n)
    m, f = n_of(r), lambda k: at(r, k)
    with scope():
        k = skolem('k', 0, m)
        prove(what + ': within', z3.And(f(k) >= 0, f(k) < n))
        prove(what + ': only selected ones', has(f(k)))
        l = skolem('l', 0, m)
        prove(what + ': in order', z3.Implies(k < l, f(k) < f(l)))
    with scope():
        i = skolem('i', 0, n)
        suppose(has(i))
        k = z3.Int('some_k')
        prove(what + ': all selected ones', z3.Exists([k], z3.And(k >= 0, k < m, f(k) == i)))


def pos_arr(r, n):
    """A selection along an axis of length n, as positions"""
    if isinstance(r, slice):
        return new((dim(n),), 'i8', lambda idx: I(idx[0]))[r]
    return r


def prefix_sums(eng, cnt, n, hint='rel'):
    """S(t): the sum of cnt below t, with its monotonicity"""
    w = psum.window(cnt, n)
    return lambda t: w.at(t)


PASSUME = ('pulse IDs and numbers of entries are below MAX_PULSES', 'selections are below 2**62')


@contract('C12', 'components._check_pulse_selection', assumes=PASSUME)
def check_selection(eng):
    cls = choice(eng, 'class', [by_id, by_index])
    kind = choice(eng, 'kind', ['slice', 'not integers', 'int', 'array', 'list', 'other'])
    if kind == 'slice':
        given = [sint(nm) if eng.choose(nm) else None for nm in ('start', 'stop', 'step')]
        start, stop, step = [T(g) if g is not None else z3.IntVal(d) for g, d in zip(given, (0, C.MAX_PULSES, 1))]
        try:
            r = C._check_pulse_selection(cls(slice(*given)))
        except ValueError:
            prove('error only for steps', step < 1)
            return
        except NotImplementedError:
            prove('error only for negative ones', z3.Or(start < 0, stop < 0))
            return
        prove('checked', z3.And(step >= 1, start >= 0, stop >= 0))
        prove('same kind', type(r) is cls and isinstance(r.value, slice))
        v = r.value
        prove('same slice', z3.And(T(v.start) == start, T(v.stop) == stop, T(v.step) == step))
        return
    if kind == 'not integers':
        v = choice(eng, 'slice', [slice('a', 3), slice(0, 2.5), slice(0, 3, 1.0)])
        try:
            C._check_pulse_selection(cls(v))
        except TypeError:
            return
        prove('an error', False)
        return
    if kind == 'other':
        try:
            C._check_pulse_selection(choice(eng, 'value', [slice(0, 3), [1, 2], 3, None]))
        except TypeError:
            return
        prove('an error', False)
        return
    if kind == 'int':
        x = sint('x', -LIM, LIM)
        val, has, neg = x, lambda y: y == T(x), T(x) < 0
    elif kind == 'list':
        x, y = sint('x', -LIM, LIM), sint('y', -LIM, LIM)
        val, has, neg = VList([x, y]), lambda v: z3.Or(v == T(x), v == T(y)), z3.Or(T(x) < 0, T(y) < 0)
    else:
        n = eng.fresh('n')
        fact(n >= 0)
        a = sarr('a', n, choice(eng, 'type', ['i8', 'u8', 'u2']), -LIM, LIM)
        i = z3.Int('i')
        neg = z3.Exists([i], z3.And(i >= 0, i < n, at(a, i) < 0))
        val = a

        def has(y):
            i = z3.Int('some_i')
            return z3.Exists([i], z3.And(i >= 0, i < n, at(a, i) == y))
    try:
        r = C._check_pulse_selection(cls(val))
    except ValueError:
        prove('error only for IDs', cls is by_id)
        prove('error only for negative ones', neg)
        return
    except NotImplementedError:
        prove('error only for positions', cls is by_index)
        prove('error only for negative ones', neg)
        return
    prove('checked', z3.Not(neg))
    v = r.value
    prove('same kind', type(r) is cls and isinstance(v, Arr) and v.dtype == u8 and v.ndim == 1)
    m = n_of(v)
    with scope():
        k, l = skolem('k', 0, m), skolem('l', 0, m)
        prove('increasing', z3.Implies(k < l, at(v, k) < at(v, l)))
        prove('only given ones', has(at(v, k)))
    with scope():
        if kind == 'array':
            i = skolem('i', 0, n_of(val))
            xs = [at(val, i)]
        else:
            xs = [T(x)] if kind == 'int' else [T(x), T(y)]
        k = z3.Int('some_k')
        for t in xs:
            prove('all given ones', z3.Exists([k], z3.And(k >= 0, k < m, at(v, k) == t)))


def ids(eng, n, ordered=False):
    f = eng.fresh_fn('pid', [ISORT], ISORT)
    q = bound_var(hint='q')
    fact(z3.And(f(q) >= 0, f(q) < C.MAX_PULSES), [q], [q >= 0, q < n], [(f(q),)])
    if ordered:
        increasing(f, n)
    return f, arr_of(f, n, u8)


@contract('C12', 'components.MPxDetectorBase._select_pulse_ids', assumes=PASSUME)
def select_ids(eng):
    s = Sel(eng, by_id)
    n = eng.fresh('n')
    fact(z3.And(n >= 0, n < 2 ** 60))
    f, a = ids(eng, n)
    with no_exception('_select_pulse_ids'):
        r = C.MPxDetectorBase._select_pulse_ids(s.pulses, a)
    enumerates('positions', r, n, lambda i: s.has(f(i)))


@contract('C12', 'components.MPxDetectorTrainIterator._select_pulse_ids', assumes=PASSUME)
def select_ids_train(eng):
    s = Sel(eng, by_id)
    n = eng.fresh('n')
    fact(z3.And(n >= 0, n < 2 ** 60))
    f, a = ids(eng, n, True)
    it = object.__new__(C.MPxDetectorTrainIterator)
    it.pulses = s.pulses
    with no_exception('_select_pulse_ids'):
        r = it._select_pulse_ids(a)
    enumerates('positions', r, n, lambda i: s.has(f(i)))


@contract('C12', 'components.MPxDetectorTrainIterator._select_pulse_indices', assumes=PASSUME)
def select_positions_train(eng):
    s = Sel(eng, by_index)
    n = sint('count', 0, C.MAX_PULSES + 1, 'u8')
    it = object.__new__(C.MPxDetectorTrainIterator)
    it.pulses = s.pulses
    with no_exception('_select_pulse_indices'):
        r = it._select_pulse_indices(n)
    enumerates('positions', r, T(n), s.has)


@contract('C12', 'components.MPxDetectorBase._select_pulse_indices', assumes=PASSUME)
def select_positions(eng):
    """Entry e of train t is at firsts[t] + e; the entries of a chunk of trains
    are contiguous from 0"""
    s = Sel(eng, by_index)
    n = eng.fresh('ntrains')
    fact(z3.And(n > 0, n < 2 ** 40))
    c = eng.fresh_fn('count', [ISORT], ISORT)
    q = bound_var(hint='q')
    fact(z3.And(c(q) >= 0, c(q) <= C.MAX_PULSES), [q], [q >= 0, q < n], [(c(q),)])
    w = psum.window(lambda k: c(k), n)
    S = lambda t: w.at(t)
    fact(w.at(n) < 2 ** 60)
    firsts, counts = arr_of(S, n, u8), arr_of(c, n, u8)
    with no_exception('_select_pulse_indices'):
        r = C.MPxDetectorBase._select_pulse_indices(s.pulses, firsts, counts)
    total = w.at(n)
    if isinstance(r, slice):
        prove('everything', s.kind == 'all' or s.kind == 'slice')
        prove('all of them', z3.And(T(r.start) == 0, T(r.stop) == total))
        with scope():
            t = skolem('t', 0, n)
            e = skolem('e', 0, c(t))
            prove('all are selected', s.has(e))
        return
    m = n_of(r)
    ps, gi, body, V_ = r.cat
    lo = I(ps.lo)

    def where(k):
        """The train of element k, and its place among those of the train"""
        b = ps.blk(k + ps.at(lo))
        t = b - lo
        mention(ps.at(b), ps.at(b + 1), S(t), S(t + 1), total, ps.at(lo), ps.at(I(ps.hi)))
        return t, k + ps.at(lo) - ps.at(b), z3.substitute(body, (gi, t), (V_[0], k + ps.at(lo) - ps.at(b)))
    with scope():
        k = skolem('k', 0, m)
        p = at(r, k)
        t, off, el = where(k)
        have('train', z3.And(t >= 0, t < n, off >= 0, off < ps.at(lo + t + 1) - ps.at(lo + t)))
        have('value', p == el)
        have('entry', z3.And(p >= S(t), p - S(t) < c(t)))
        have('only selected ones', s.has(p - S(t)))
        have('within', z3.And(p >= 0, p < total))
        l = skolem('l', 0, m)
        t2, off2, el2 = where(l)
        suppose(k < l)
        have('train', z3.And(t2 >= 0, t2 < n, off2 >= 0, off2 < ps.at(lo + t2 + 1) - ps.at(lo + t2)))
        have('value', at(r, l) == el2)
        have('entry', z3.And(at(r, l) >= S(t2), at(r, l) - S(t2) < c(t2)))
        have('trains in order', t <= t2)
        mention(S(t2), S(t2 + 1))
        have('trains apart', z3.Implies(t < t2, S(t + 1) <= S(t2)))
        prove('in order', p < at(r, l))
    with scope():
        t = skolem('t', 0, n)
        e = skolem('e', 0, c(t))
        suppose(s.has(e))
        b = lo + t
        mention(ps.at(b), ps.at(b + 1), S(t), S(t + 1), total, ps.at(lo), ps.at(I(ps.hi)))
        size = ps.at(b + 1) - ps.at(b)
        val = lambda j: z3.substitute(body, (gi, t), (V_[0], j))
        j, = ranks(val(z3.Int('j')), s.at(e))
        have('selected in its train', z3.And(j >= 0, j < size, val(j) == S(t) + e))
        k = ps.at(b) - ps.at(lo) + j
        have('has a place', z3.And(k >= 0, k < m, ps.blk(k + ps.at(lo)) == b))
        prove('all selected ones', at(r, k) == S(t) + e)


class MultiIndex:
    """pandas.MultiIndex.from_arrays (trusted): labels by position"""
    def __init__(self, arrays, names):
        self.arrays, self.names = list(arrays), list(names)
        if len(set(map(id, arrays))) and not E().fork(n_of(arrays[0]) == n_of(arrays[1])):
            raise ValueError('all arrays must be same length')

    @classmethod
    def from_arrays(cls, arrays, names=None):
        return cls(arrays, names)


class PD:
    MultiIndex = MultiIndex

    class Index:
        def __init__(self, values, name=None):
            self.values, self.name = list(values), name


class Coords:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]


class Labelled:
    """What _guess_axes makes of rows and their labels (contract of
    _guess_axes, and of unstack in xarray: distinct trains in increasing order)"""
    def __init__(self, data, index):
        self.data, self.index = data, index
        prove('labels', index.names == ['train', 'pulse'])
        self.trains, self.pulses = index.arrays
        have('one label per row', n_of(self.trains) == n_of(data))
        self.size = data.size
        self.coords = Coords({'train': self.trains})    # the first one is the lowest


class XR:
    def __init__(self):
        self.calls = []

    def concat(self, arrays, dim, **k):
        self.calls.append((list(arrays), dim, k))
        return ('concat', len(self.calls) - 1)


def module_files(eng, extra_dim, trail):
    fs = Files(source='DET/DET/0CH0:xtdf', key='image.data', trail=trail, dtype='f4')
    fs.add_key('image.pulseId', (1,) if extra_dim else (), 'u8')
    fs.sums()
    return fs


class Selection:
    """The contracts of _select_pulse_ids and _select_pulse_indices: positions
    of what is selected; SEL says what is"""
    def __init__(self, eng, everything):
        self.SEL = eng.fresh_fn('selected', [ISORT], BSORT)
        self.everything = everything
        if everything:
            self.SEL = lambda x: z3.BoolVal(True)

    def ids(self, pulses, pulse_id):
        prove('selection', pulses is self.pulses)
        prove('of IDs', pulse_id.ndim == 1)
        n = pulse_id._shape[0]
        self.pos = None
        if self.everything:
            return slice(0, mk_int(I(n)))
        r = self.pos = A.positions(lambda i: self.SEL(at(pulse_id, i)), n)
        return new((r.count,), np.intp, lambda idx: r.ix(idx[0]))

    def positions(self, pulses, firsts, counts):
        prove('selection', pulses is self.pulses)
        N = n_of(counts)
        w = psum.window(lambda k: at(counts, k), N)
        lo = I(w.lo)
        total = w.at(w.hi) - w.at(lo)
        with scope():
            t = skolem('t', 0, N)
            mention(w.at(lo + t), w.at(lo), *self.known(t))
            prove('first entries', z3.And(n_of(firsts) == N, at(firsts, t) == w.at(lo + t) - w.at(lo)))
        self.pos = None
        if self.everything:
            return slice(0, mk_int(total, u8))

        def hit(i):
            b = w.blk(i + w.at(lo))
            return self.SEL(i + w.at(lo) - w.at(b))
        r = self.pos = A.positions(hit, total)
        return new((r.count,), u8, lambda idx: r.ix(idx[0]))


MASSUME = PASSUME + ('one run of consecutive trains, in one or two files',)


@contract('C12', 'components.MPxDetectorBase._get_module_pulse_data', assumes=MASSUME)
def module_data(eng):
    module_data_of(eng, 1, 1)


@contract('C12', 'components.MPxDetectorBase._get_module_pulse_data', assumes=MASSUME)
def module_data_files(eng):
    module_data_of(eng, 2, 1)


def module_data_of(eng, nf, nc):
    extra = nf == 2 or nc == 1 and eng.choose('extra dimension')
    trail = (dim(eng.fresh('width')),)
    fact(trail[0] >= 1)
    fs = module_files(eng, extra, trail)
    fact(fs.NF == nf)
    runs, ends = [], None
    for c in range(nc):
        a, n = eng.fresh('run%d' % c), eng.fresh('run%d_n' % c)
        fact(z3.And(a > (0 if ends is None else ends), n > 0, n < 2 ** 40, a < 2 ** 60))
        ends = a + n
        runs.append((a, n))
    ks = [eng.fresh('file%d' % k) for k in range(nf)]
    for i, k in enumerate(ks):
        fact(k == i)
        fact(fs.len(k) < 2 ** 50)
        # every file has one of the trains (select_trains leaves out the others)
        p = eng.fresh('some_p')
        fact(z3.And(p >= 0, p < fs.ntr(k), z3.Or(*[z3.And(fs.tid(k, p) >= a, fs.tid(k, p) < a + n) for a, n in runs])))
    det = object.__new__(C.MPxDetectorBase)
    cls = by_id if nc > 1 else choice(eng, 'by', [by_id, by_index])
    # which entries of each file and run are read is decided with one of each
    sel = Selection(eng, nf > 1 or nc > 1 or eng.choose('everything'))
    sel.pulses = cls(slice(0, 0, 1))
    det.train_id_chunks = VList([new((dim(n),), u8, lambda idx, a=a: a + I(idx[0])) for a, n in runs])

    class Data:
        _source_index = VDict({fs.source: VList([SymFile(fs, k) for k in ks])})
    det.data = Data()
    det._select_pulse_ids, det._select_pulse_indices = sel.ids, sel.positions
    # trains lo..hi of file k are in run c
    lo, hi = [eng.fresh_fn(nm, [ISORT, ISORT], ISORT) for nm in ('span_from', 'span_to')]
    S, q = fs.S, bound_var(hint='q')
    for k in ks:
        for c, (a, n) in enumerate(runs):
            x, y, tid = lo(k, I(c)), hi(k, I(c)), fs.tid(k, q)
            fact(z3.And(0 <= x, x <= y, y <= fs.ntr(k)))
            fact(z3.And((tid < a) == (q < x), (tid < a + n) == (q < y)), [q], [q >= 0, q < fs.ntr(k)], [(tid,)])
            fs.use_sums(x, k), fs.use_sums(y, k), fs.use_sums(y - 1, k)
            mention(*[f(k, z) for f in (fs.S, fs.first, fs.count, fs.tid) for z in (x, y - 1)], S(k, y))
    sel.known = lambda t: [f(k, lo(k, I(c)) + t) for f in (S, fs.first, fs.count) for k in ks for c in range(nc)]
    reads, made, dataset = [], [], fs.dataset

    class Recorded(SymDS):
        def __getitem__(self, key):
            reads.append((self.of[1], key))
            return super().__getitem__(key)

    def rec_dataset(k, path):
        d = dataset(k, path)
        if path.endswith('/pulseId'):
            r = Recorded(d.a, d.name)
            r.of = d.of
            return r
        return d

    def guess(data, index):
        prove('pulses read', bool(reads) and isinstance(reads[-1][1], slice))
        L = Labelled(data, index)
        L.k, key = reads[-1]
        L.first = I(T(key.start if key.start is not None else 0))
        L.run = [c for c in range(nc) if eng.implied(z3.And(L.first == S(L.k, lo(L.k, I(c))), lo(L.k, I(c)) < hi(L.k, I(c))))]
        prove('entries of a run', len(L.run) >= 1)
        L.run, L.pos = L.run[0], sel.pos
        made.append(L)
        return L
    xr = XR()
    fs.dataset = rec_dataset
    with patched(C, _guess_axes=guess, pd=PD, xarray=xr), no_exception('_get_module_pulse_data'):
        r = det._get_module_pulse_data(fs.source, 'image.data', sel.pulses)
    if xr.calls:
        arrays, d, kw = xr.calls[0]
        prove('put together along trains', r == ('concat', 0) and len(xr.calls) == 1 and d == 'train' and not kw)
    else:
        arrays = [r]
    prove('of what was read', all(any(x is L for L in made) for x in arrays) and len({id(x) for x in arrays}) == len(arrays))
    for L in made:
        if not any(x is L for x in arrays):
            prove('without empty ones', n_of(L.data) == 0)
    for i, L in enumerate(arrays):
        for M in arrays[:i]:
            with scope():
                x, y = skolem('x', 0, n_of(L.data)), skolem('y', 0, n_of(M.data))
                rows(fs, L, x, lo, hi), rows(fs, M, y, lo, hi)
                prove('in the order of trains', at(M.trains, y) < at(L.trains, x))
    width = I(trail[0])
    for L in made:
        k = L.k
        with scope():
            x, j = skolem('x', 0, n_of(L.data)), skolem('j', 0, width)
            p, e = rows(fs, L, x, lo, hi)
            pid = pulse_id(fs, k, e, extra)
            prove('its pulse', at(L.pulses, x) == pid)
            prove('its value', z3.And(*[I(u) == I(v) for u, v in zip(L.data._shape[1:], trail)],
                                      at(L.data, x, j) == fs.data(k, e, j)))
            prove('selected', sel.SEL(pid if cls is by_id else e - fs.first(k, p)))
            a, n = runs[L.run]
            prove('in the run', z3.And(fs.tid(k, p) >= a, fs.tid(k, p) < a + n))
    for k in ks:
        for c, (a, n) in enumerate(runs):
            with scope():
                p = skolem('p', 0, fs.ntr(k))
                suppose(z3.And(fs.tid(k, p) >= a, fs.tid(k, p) < a + n))
                e = skolem('e', 0, fs.count(k, p))
                e = fs.first(k, p) + e
                pid = pulse_id(fs, k, e, extra)
                suppose(sel.SEL(pid if cls is by_id else e - fs.first(k, p)))
                Ls = [L for L in made if L.k.eq(k) and L.run == c]
                mention(S(k, p), S(k, p + 1))
                if not Ls:
                    prove('no run is left out', z3.BoolVal(False))
                    continue
                L = Ls[0]
                w = fs.window(k, lo(k, I(c)), hi(k, I(c)))
                i = e - L.first
                have('its train', z3.And(i >= 0, i < S(k, hi(k, I(c))) - L.first, w.blk(e) == p))
                x = L.pos.rk(i) if L.pos is not None else i
                have('has a row', z3.And(x >= 0, x < n_of(L.data)))
                prove('its labels', z3.And(at(L.trains, x) == fs.tid(k, p), at(L.pulses, x) == pid))
                j = skolem('j', 0, width)
                prove('its value', at(L.data, x, j) == fs.data(k, e, j))


def pulse_id(fs, k, e, extra):
    return fs.keys['image.pulseId'][2](k, e, I(0)) if extra else fs.keys['image.pulseId'][2](k, e)


def rows(fs, L, x, lo, hi):
    """Train position and entry of row x of what was read"""
    k, c = L.k, I(L.run)
    i = L.pos.ix(x) if L.pos is not None else x
    w = fs.window(k, lo(k, c), hi(k, c))
    e = fs.S(k, lo(k, c)) + i
    have('is one of the entries', z3.And(i >= 0, e < fs.S(k, hi(k, c))))
    p = w.blk(e)
    mention(fs.S(k, p), fs.S(k, p + 1), fs.first(k, p), fs.count(k, p))
    have('is of a train', z3.And(p >= lo(k, c), p < hi(k, c), fs.first(k, p) <= e, e < fs.first(k, p) + fs.count(k, p)))
    prove('label of its train', at(L.trains, x) == fs.tid(k, p))
    fact(at(L.trains, x) == fs.tid(k, p))
    return p, e


class Array:
    """xarray.DataArray (trusted): data with names of dimensions and labels"""
    def __init__(self, data, coords=None, dims=None):
        self.data, self.coords, self.dims = data, coords, list(dims) if dims is not None else None
        self.log = []
        if dims is not None and len(self.dims) != data.ndim:
            raise ValueError('different number of dimensions on data and dims')

    def unstack(self, d):
        self.log.append(('unstack', d))
        return self

    def transpose(self, *dims):
        self.log.append(('transpose', list(dims)))
        return self


class XA:
    DataArray = Array


AXES = {1: ['train_pulse'], 3: ['train_pulse', 'slow_scan', 'fast_scan'],
        4: ['train_pulse', 'data_gain', 'slow_scan', 'fast_scan']}


@contract('C12', 'components._guess_axes', assumes=('xarray.DataArray and unstack',
          'per-pulse data has one value, a frame or a frame of two gain stages per pulse; frames are not one pixel high'))
def axes(eng):
    """The axes of each kind of data, without the extra one of raw data"""
    nd = choice(eng, 'axes', [1, 3, 4])
    shape = tuple(dim(eng.fresh('shape')) for _ in range(nd))
    extra = eng.choose('extra axis')
    for s in shape:
        fact(s >= 0)
    if nd > 1:
        fact(shape[1] > 1)
    f = eng.fresh_fn('data', [ISORT] * nd, RSORT)
    full = (shape[0], 1) + shape[1:] if extra else shape
    a = new(full, 'f4', lambda idx: f(*[I(i) for i in (idx[:1] + idx[2:] if extra else idx)]))
    if extra and eng.choose('size found out late'):
        one = eng.fresh('one')
        fact(one == 1)
        a = new((shape[0], dim(one)) + shape[1:], 'f4', lambda idx: f(*[I(i) for i in idx[:1] + idx[2:]]))
    labels = object()
    with patched(C, xarray=XA), no_exception('_guess_axes'):
        r = C._guess_axes(a, labels)
    prove('labels', list(r.coords) == ['train_pulse'] and r.coords['train_pulse'] is labels)
    prove('names', r.dims == AXES[nd])
    prove('trains and pulses apart', r.log == [('unstack', 'train_pulse'),
                                               ('transpose', ['train', 'pulse'] + AXES[nd][1:])])
    prove('type', r.data.dtype == np.dtype('f4'))
    with scope():
        idx = [skolem('i', 0, s) for s in shape]
        prove('size', z3.And(*[I(u) == I(v) for u, v in zip(r.data._shape, shape)]))
        prove('content', at(r.data, *idx) == f(*idx))


class TrainSel:
    """The contracts of the iterator's _select_pulse_ids and
    _select_pulse_indices: a slice or positions"""
    def __init__(self, eng, kind):
        self.kind, self.calls = kind, []
        if kind == 'slice':
            self.lo, self.st = sint('from', 0, 2 ** 40), sint('step', 1, 2 ** 40)
            self.g = progression(T(self.lo), T(self.st))
        self.SEL = eng.fresh_fn('selected', [ISORT], BSORT)
        if kind == 'slice':
            i = bound_var(hint='i')
            self.w = w = eng.fresh_fn('selected_at', [ISORT], ISORT)
            g = self.g
            fact(w(g(i)) == i, [i], [i >= 0], [(g.M(i),)])
            self.SEL = lambda x: z3.And(w(x) >= 0, g(w(x)) == x)

    def get(self, n, has):
        """Positions i < n with has(i)"""
        if self.kind == 'array':
            self.r = r = A.positions(has, n)
            return new((r.count,), np.intp, lambda idx: r.ix(idx[0]))
        hi = mk_int(I(n))
        return slice(self.lo, hi, self.st) if self.kind == 'slice' else slice(0, hi)

    def row(self, i):
        """The row of selected position i"""
        return self.r.rk(i) if self.kind == 'array' else self.w(i) if self.kind == 'slice' else i

    def pos(self, x):
        return self.r.ix(x) if self.kind == 'array' else self.g(x) if self.kind == 'slice' else x

    def has(self, i):
        return z3.BoolVal(True) if self.kind == 'all' else self.SEL(i)


def iterator(eng, files, tr, source='DET/DET/0CH0:xtdf'):
    it = object.__new__(C.MPxDetectorTrainIterator)

    class Data:
        data = collection(files, tr)
    it.data, it._datasets_cache = Data(), VDict()
    return it


@contract('C12', 'components.MPxDetectorTrainIterator._get_pulse_data', 'components.MPxDetectorTrainIterator._find_data',
          'reader.DataCollection._find_data', assumes=PASSUME)
def train_pulses(eng):
    """Any number of files, any state of the cache"""
    extra = eng.choose('extra dimension')
    trail = (dim(eng.fresh('width')),)
    fact(trail[0] >= 1)
    fs = module_files(eng, extra, trail)
    k = bound_var(hint='k')
    fact(fs.len(k) < 2 ** 50, [k], (), [(fs.len(k),)])
    tr = Trains()
    it = iterator(eng, fs, tr)
    if eng.choose('cached'):
        k0 = sint('cached_file', 0, mk_int(fs.NF))
        it._datasets_cache[fs.source, 'image.data'] = (SymFile(fs, T(k0)), fs.dataset_obj(T(k0), 'image.data'))
    i = sint('i', 0, mk_int(tr.n))
    t = tr.f(T(i))
    cls = choice(eng, 'by', [by_id, by_index])
    it.pulses = cls(slice(0, 0, 1))
    kinds = ['all', 'array', 'slice']
    sel = TrainSel(eng, choice(eng, 'selection', kinds))
    if sel.kind == 'slice' and cls is by_id:
        fact(T(sel.st) == 1)

    def ids(pulse_ids):
        prove('IDs', pulse_ids.ndim == 1)
        if sel.kind == 'slice':
            # IDs increase within a train
            return sel.get(pulse_ids._shape[0], None)
        return sel.get(pulse_ids._shape[0], lambda i: sel.SEL(at(pulse_ids, i)))

    it._select_pulse_ids, it._select_pulse_indices = ids, lambda count: sel.get(dim(T(count)), sel.SEL)
    made = []

    def guess(data, index):
        made.append(Labelled(data, index))
        return made[-1]
    with patched(C, _guess_axes=guess, pd=PD), no_exception('_get_pulse_data'):
        r = it._get_pulse_data(fs.source, 'image.data', mk_int(t))
    for (s, key), (file, ds) in it._datasets_cache.items():
        prove('cache', z3.And(file.k >= 0, file.k < fs.NF, ds.of[1] == file.k) if (s, key) == (fs.source, 'image.data') and
              isinstance(file, SymFile) and file.m is fs and isinstance(ds, SymDS) and ds.of[2] == key else False)
    with scope():
        k = skolem('k', 0, fs.NF)
        p = skolem('p', 0, fs.ntr(k))
        suppose(fs.tid(k, p) == t)
        if r is None:
            prove('nothing only for missing trains', z3.BoolVal(False))
            return
        prove('one array', len(made) == 1 and r is made[0])
        first, n = fs.first(k, p), fs.count(k, p)
        on = lambda i: sel.has(pulse_id(fs, k, first + i, extra) if cls is by_id and sel.kind == 'array' else i)
        with scope():
            x, j = skolem('x', 0, n_of(r.data)), skolem('j', 0, I(trail[0]))
            q = sel.pos(x)
            have('of the train', z3.And(q >= 0, q < n))
            prove('selected', on(q))
            prove('labels', z3.And(at(r.trains, x) == t, at(r.pulses, x) == pulse_id(fs, k, first + q, extra)))
            prove('value', at(r.data, x, j) == fs.data(k, first + q, j))
        with scope():
            e = skolem('e', 0, n)
            suppose(on(e))
            x, j = sel.row(e), skolem('j', 0, I(trail[0]))
            have('has a row', z3.And(x >= 0, x < n_of(r.data)))
            prove('its labels', z3.And(at(r.trains, x) == t, at(r.pulses, x) == pulse_id(fs, k, first + e, extra)))
            prove('its value', at(r.data, x, j) == fs.data(k, first + e, j))


@contract('C12', 'components.MPxDetectorTrainIterator._get_slow_data', 'components.MPxDetectorTrainIterator._find_data',
          'reader.DataCollection._find_data')
def train_slow(eng):
    fs = Files(source='DET/DET/0CH0:xtdf', key='header.x', trail=(dim(eng.fresh('width')),), dtype='i4')
    fs.sums()
    tr = Trains()
    it = iterator(eng, fs, tr)
    if eng.choose('cached'):
        k0 = sint('cached_file', 0, mk_int(fs.NF))
        it._datasets_cache[fs.source, 'header.x'] = (SymFile(fs, T(k0)), fs.dataset_obj(T(k0), 'header.x'))
    i = sint('i', 0, mk_int(tr.n))
    t = tr.f(T(i))
    with patched(C, xarray=XA), no_exception('_get_slow_data'):
        r = it._get_slow_data(fs.source, 'header.x', mk_int(t))
    with scope():
        k = skolem('k', 0, fs.NF)
        p = skolem('p', 0, fs.ntr(k))
        suppose(fs.tid(k, p) == t)
        if r is None:
            prove('nothing only for missing trains', z3.BoolVal(False))
            return
        n, a = fs.count(k, p), r.data
        one = a.ndim == 1
        prove('size', z3.And((n == 1) if one else z3.And(n != 1, n_of(a) == n), I(a._shape[-1]) == I(fs.trail[0])))
        e, j = I(0) if one else skolem('e', 0, n), skolem('j', 0, I(fs.trail[0]))
        prove('value', at(a, *([j] if one else [e, j])) == fs.data(k, fs.first(k, p) + e, j))


# ------------------------------------------------------- trains and modules
SRC = 'SPB_DET_AGPD1M-1/DET/%s:xtdf'


def names_of(kind, mods):
    return {SRC % ('%dCH0' % m): m for m in mods}


class Mods:
    """Any set of module numbers"""
    def __init__(self, eng, universe):
        self.has = {m: eng.choose('module %d asked for' % m) for m in universe}

    def __contains__(self, m):
        return self.has[m]


@contract('C12', 'components.MPxDetectorBase._identify_sources',
          assumes=('representative names of sources',))
def identify(eng):
    det = 'SPB_DET_AGIPD1M-1'
    mine = {'%s/DET/%dCH0:xtdf' % (det, m): m for m in (0, 7, 15)}
    others = ['SPB_DET_AGIPD1M-10/DET/0CH0:xtdf', 'SPB_DET_AGIPD1M+1/DET/3CH0:xtdf', det + '/CORR/4CH0:proc', det + '/DET/SUM',
              'A/SPB_DET_AGIPD1M-1/DET/5CH0:xtdf']
    there = [s for s in sorted(mine) if eng.choose('there: ' + s)]

    class Data:
        instrument_sources = VSet(there + others)
    mods = Mods(eng, (0, 7, 15)) if eng.choose('modules given') else None
    want = {s: mine[s] for s in there if mods is None or mods.has[mine[s]]}
    try:
        r = C.MPxDetectorBase._identify_sources(Data(), det, mods)
    except C.SourceNameError:
        prove('error only without sources', not want)
        return
    prove('the modules asked for', bool(want) and {k: v for k, v in r.items()} == want)


@contract('C12', 'components.MPxDetectorBase._find_detector_name', assumes=('representative names of sources',))
def find_name(eng):
    cls, own, other = choice(eng, 'detector', [
        (C.AGIPD1M, ['SPB_DET_AGIPD1M-1', 'MID_DET_AGIPD1M-1'], 'FXE_DET_LPD1M-1'),
        (C.LPD1M, ['FXE_DET_LPD1M-1', 'FXE_DET_LPD1M-2'], 'SCS_DET_DSSC1M-1'),
        (C.DSSC1M, ['SCS_DET_DSSC1M-1', 'SQS_DET_DSSC1M-2'], 'SPB_DET_AGIPD1M-1')])
    there = [d for d in own if eng.choose('there: ' + d)]
    srcs = ['%s/DET/%dCH0:xtdf' % (d, m) for d in there + [other] for m in (0, 11)] + ['%s/CTRL/X' % d for d in own]

    class Data:
        instrument_sources = VSet(srcs)
    try:
        r = cls._find_detector_name(Data())
    except C.SourceNameError:
        prove('error only if there is none', not there)
        return
    except ValueError:
        prove('error only if there are several', len(there) > 1)
        return
    prove('the detector', there == [r])


class Frame:
    """pandas.DataFrame of a column of counts per module, by train (trusted:
    comparison, sum over columns, selection of rows by a mask)"""
    def __init__(self, tids, cols, rows):
        self.tids, self.cols, self.rows = tids, cols, rows

    def __gt__(self, x):
        return Frame(self.tids, [c > x for c in self.cols], self.rows)

    def sum(self, axis=None):
        if axis != 1:
            raise OutOfSubset('sum over rows')
        r = self.cols[0].astype('i8')
        for c in self.cols[1:]:
            r = r + c.astype('i8')
        return r

    def __getitem__(self, mask):
        return Frame(self.tids[mask], [c[mask] for c in self.cols], None)

    def sym_len(self):
        return self.tids.sym_len()

    def __len__(self):
        return len(self.tids)

    @property
    def index(self):
        return self

    @property
    def values(self):
        return self.tids


@contract('C12', 'components.MPxDetectorBase._select_trains', assumes=('representative numbers of modules (one to three)',))
def select_trains(eng):
    nm = choice(eng, 'modules', [1, 2, 3])
    n = eng.fresh('ntrains')
    fact(n >= 0)
    f = eng.fresh_fn('tid', [ISORT], ISORT)
    q = bound_var(hint='q')
    fact(z3.And(f(q) > 0, f(q) < 2 ** 64), [q], [q >= 0, q < n], [(f(q),)])
    increasing(f, n)
    tids = arr_of(f, n, u8)
    counts = [sarr('count%d' % m, n, 'u8') for m in range(nm)]
    need = sint('min_modules', 0)
    got = []

    class Data:
        def select_trains(self, sel):
            got.append(sel)
            return 'SELECTED'
    here = lambda i: sum([z3.If(at(c, i) > 0, I(1), I(0)) for c in counts], I(0)) >= T(need)
    try:
        r = C.MPxDetectorBase._select_trains(Data(), Frame(tids, counts, n), need)
    except ValueError:
        with scope():
            i = skolem('i', 0, n)
            prove('error only without trains', z3.Not(here(i)))
        return
    prove('selection by ID', r == 'SELECTED' and len(got) == 1 and isinstance(got[0], by_id))
    ids = got[0].value
    m = n_of(ids)
    prove('some trains', m > 0)
    with scope():
        k = skolem('k', 0, m)
        i = z3.Int('some_i')
        prove('only with enough modules', z3.Exists([i], z3.And(i >= 0, i < n, at(ids, k) == f(i), here(i))))
    with scope():
        i = skolem('i', 0, n)
        suppose(here(i))
        k = z3.Int('some_k')
        prove('all with enough modules', z3.Exists([k], z3.And(k >= 0, k < m, at(ids, k) == f(i))))


class Joined:
    def __init__(self, arrays, index):
        self.arrays, self.index, self.modules = list(arrays), index, None

    def reindex(self, **kw):
        prove('reindexed by module', set(kw) == {'module'} and self.modules is None)
        self.modules = list(kw['module'])
        return self


class XJ:
    @staticmethod
    def concat(arrays, dim):
        return Joined(arrays, dim)


MODULES = [3, 0, 11]


@contract('C12', 'components.MPxDetectorBase.get_array', assumes=('representative modules; xarray.concat and reindex',))
def get_array(eng):
    """Each module's array under its number, missing values for modules
    without data"""
    key = choice(eng, 'key', ['image.data', 'header.x'])
    det = object.__new__(C.MPxDetectorBase)
    src = {m: SRC % ('%dCH0' % m) for m in MODULES}
    det.modno_to_source = VDict(src)
    there = [m for m in MODULES if eng.choose('module %d has data' % m)]
    if not there:
        raise PathEnd()     # then there would be no trains
    given, checked = by_id[1:2], object()

    class Data:
        instrument_sources = VSet([src[m] for m in there])

        def get_array(self, source, key):
            return 'slow', source, key
    det.data = Data()
    det._get_module_pulse_data = lambda s, k, p: ('pulse', s, k, p is checked)

    def check(p):
        prove('selection', p is given)
        return checked
    with patched(C, _check_pulse_selection=check, xarray=XJ, pd=PD), no_exception('get_array'):
        r = det.get_array(key, given)
    mods = sorted(there)
    want = [('pulse', src[m], key, True) if key == 'image.data' else ('slow', src[m], key) for m in mods]
    prove('arrays', r.arrays == want)
    prove('their modules', r.index.name == 'module' and r.index.values == mods)
    prove('all modules', (r.modules or mods) == sorted(MODULES))


@contract('C12', 'components.MPxDetectorTrainIterator._assemble_data', assumes=('representative modules and keys; xarray.concat',))
def assemble(eng):
    """For each key, the arrays of the modules which have data, under their
    numbers"""
    src = {m: SRC % ('%dCH0' % m) for m in MODULES}
    keys = ['image.data', 'image.cellId', 'header.x']
    t = sint('tid')
    has = {}

    class Data:
        def _keys_for_source(self, s):
            return VSet(keys)

        class Of:
            modno_to_source = VDict(src)
    Data.Of.data = Data()
    it = object.__new__(C.MPxDetectorTrainIterator)
    it.data = Data.Of()

    def get(kind):
        def f(source, key, tid):
            prove('of the train', tid is t)
            prove('kind of data', (kind == 'pulse') == key.startswith('image.'))
            if (source, key) not in has:
                has[source, key] = eng.choose('%s has %s' % (source, key)) if key != 'image.cellId' else source != src[0]
            return (source, key) if has[source, key] else None
        return f
    it._get_pulse_data, it._get_slow_data = get('pulse'), get('slow')
    with patched(C, xarray=XJ, pd=PD), no_exception('_assemble_data'):
        r = it._assemble_data(t)
    prove('everything looked up', set(has) == {(s, k) for s in src.values() for k in keys})
    for key in keys:
        mods = [m for m in sorted(MODULES) if has[src[m], key]]
        prove('there is ' + key if mods else 'there is no ' + key, (key in r) == bool(mods))
        if mods:
            prove('modules with ' + key, r[key].arrays == [(src[m], key) for m in mods] and
                  r[key].index.name == 'module' and r[key].index.values == mods)
    prove('nothing else', set(r) <= set(keys))


@contract('C12', 'components.MPxDetectorTrainIterator.__iter__')
def iterate(eng):
    """Trains in order, each once, without exactly those that miss data if all
    data is required"""
    tr = Trains()
    missing = z3.Function('missing', ISORT, BSORT)
    src = {m: SRC % ('%dCH0' % m) for m in MODULES}
    there = [m for m in MODULES if eng.choose('module %d has data' % m)]

    class Coll:
        instrument_sources = VSet([src[m] for m in there])
        train_ids = tr.list

        def _check_data_missing(self, tid):
            return mk_bool(missing(T(tid)))

    class Data:
        data = Coll()
        train_ids = tr.list
        source_to_modno = VDict({s: m for m, s in src.items()})

    class Assembled:
        def __init__(self, t):
            self.t = t

        def _subst(self, sub):
            return Assembled(sub(self.t))
    it = object.__new__(C.MPxDetectorTrainIterator)
    it.data, it._datasets_cache = Data(), VDict()
    need = it.require_all = eng.choose('require_all')
    with patched(C.MPxDetectorTrainIterator, _assemble_data=lambda self, tid: Assembled(T(tid))), no_exception('__iter__'):
        r = as_seq(it.__iter__())
    N = I(r.n)
    if need and len(there) < len(MODULES):
        prove('no trains without a module', N == 0)
        return
    tid_at = lambda i: T(r.at(i)[0])
    with scope():
        i = skolem('i', 0, N)
        tid, data = r.at(i)
        prove('data-of-train', data.t == T(tid))
        have('selected', tr.has(T(tid)))
        prove('has-data', z3.BoolVal(True) if not need else z3.Not(missing(T(tid))))
        j = skolem('j', 0, N)
        prove('order', z3.Implies(i < j, T(tid) < tid_at(j)))
    with scope():
        s = skolem('s', 0, tr.n)
        if need:
            suppose(z3.Not(missing(tr.f(s))))
        w = seq_index(r, s, 0)
        have('visited-at', z3.And(w >= 0, w < N))
        prove('visited', tid_at(w) == tr.f(s))


@contract('C12', 'components.MPxDetectorBase.trains', 'components.MPxDetectorTrainIterator.__init__')
def trains(eng):
    det = object.__new__(C.MPxDetectorBase)
    given, checked = by_id[1:2], object()

    def check(p):
        prove('selection', p is given)
        return checked
    with patched(C, _check_pulse_selection=check), no_exception('trains'):
        it = det.trains(given)
    prove('iterator', type(it) is C.MPxDetectorTrainIterator and it.data is det and it.pulses is checked and
          it.require_all is True and len(it._datasets_cache) == 0)


class Counts:
    """pandas.DataFrame of the counts of several sources (trusted: joined by
    train, NaN where there is none)"""
    def __init__(self, cols):
        self.cols, self.filled, self.dtype = dict(cols), None, None

    def fillna(self, v):
        self.filled = v
        return self

    def astype(self, t):
        self.dtype = np.dtype(t)
        return self

    @property
    def values(self):
        return self

    def flatten(self):
        return self.flat


@contract('C12', 'components.MPxDetectorBase.__init__', assumes=('representative modules; pandas.DataFrame',))
def init(eng):
    src = {SRC % ('%dCH0' % m): m for m in MODULES}
    tr = Trains()
    fact(tr.n > 0)
    n = eng.fresh('nvalues')
    fact(n >= 0)
    flat = sarr('counts', n, 'u8')
    named = eng.choose('name given')
    mods, need = object(), object()
    log = []

    class Sub:
        """The collection, of the sources of the modules"""
        def get_data_counts(self, s, k):
            return 'counts', s, k

    class Kept:
        train_ids = tr.list

    class Data:
        def select(self, what):
            log.append(what)
            return sub
    data, sub, kept = Data(), Sub(), Kept()
    frames = []

    def frame(cols):
        frames.append(Counts(cols))
        frames[-1].flat = flat
        return frames[-1]

    class PDF:
        DataFrame = staticmethod(frame)

    def find(d):
        prove('name of the data', d is data)
        return 'FOUND'

    def identify(d, name, m):
        prove('modules of the data', d is data and name == ('NAME' if named else 'FOUND') and m is mods)
        return VDict(src)

    def select(d, counts, m):
        prove('trains of the modules', d is sub and counts is frames[0] and m is need)
        return kept
    det = object.__new__(C.MPxDetectorBase)
    det._find_detector_name, det._identify_sources, det._select_trains = find, identify, select
    same = lambda: z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, at(flat, i) > 0, at(flat, j) > 0),
                                                at(flat, i) == at(flat, j)))
    i, j = z3.Int('i'), z3.Int('j')
    some = z3.Exists([i], z3.And(i >= 0, i < n, at(flat, i) > 0))
    with patched(C, pd=PDF):
        try:
            C.MPxDetectorBase.__init__(det, data, 'NAME' if named else None, mods, min_modules=need)
        except ValueError:
            prove('error only for different counts or no data', z3.Or(z3.Not(some), z3.Not(same())))
            return
    prove('their data', len(log) == 1 and sorted(log[0]) == sorted((s, '*') for s in src))
    prove('counts of their frames', len(frames) == 1 and frames[0].cols == {s: ('counts', s, 'image.data') for s in src} and
          frames[0].filled == 0 and frames[0].dtype == u8)
    prove('data', det.data is kept and dict(det.source_to_modno) == src and
          dict(det.modno_to_source) == {m: s for s, m in src.items()} and
          det.detector_name == ('NAME' if named else 'FOUND'))
    with scope():
        i = skolem('i', 0, n)
        prove('the number of frames', z3.Or(at(flat, i) == 0, at(flat, i) == T(det.frames_per_train)))
    prove('some frames', z3.And(T(det.frames_per_train) > 0, some))
    runs = as_seq(det.train_id_chunks)
    m = I(runs.n)
    with scope():
        c = skolem('c', 0, m)
        r = runs.at(c)
        with scope():
            # by induction; the base is trivial
            x = skolem('x', 0, n_of(r) - 1)
            suppose(at(r, x) == at(r, 0) + x)
            before = n_of(r) + at(r, x)
            for k in ranks(before, simp(z3.substitute(simp(at(r, x + 1)).arg(0), (x, x - 1)))):
                pass
            prove('consecutive', at(r, x + 1) == at(r, 0) + x + 1)
        x = skolem('x', 0, n_of(r))
        prove('not empty', n_of(r) > 0)
        w = z3.Int('some_w')
        prove('selected', tr.has(at(r, x)))
    with scope():
        c = skolem('c', 0, m)
        d = skolem('d', 0, m)
        suppose(c < d)
        r, r2 = runs.at(c), runs.at(d)
        x, y = skolem('x', 0, n_of(r)), skolem('y', 0, n_of(r2))
        prove('in order', at(r, x) < at(r2, y))
