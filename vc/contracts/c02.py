"""C02: selecting and combining sources and keys.

Selections are arbitrary: every source of a representative set may be there or
not, with all its keys or with any subset of its keys. Set operations treat
elements alike, so what holds for these names holds for any."""
import fnmatch
from ..api import *
from ..containers import CSet
from ._model import *

R = load('reader')
RM = load('read_machinery')

UNIVERSE = {'CTRL': ('x.timestamp', 'x.value', 'y.value'), 'INA': ('image.data', 'image.x'),
            'INB': ('image.data', 'other.value')}
CONTROL = {'CTRL'}
#: which file has which source
FILES = {'f1': ('CTRL', 'INA'), 'f2': ('INA', 'INB')}
TIDS = {'f1': [1, 2], 'f2': [3, 4]}


class File:
    """Contract of FileAccess for a file with given content"""
    def __init__(self, name):
        self.filename = name
        has = FILES[name]
        self.control_sources = VSet(s for s in has if s in CONTROL)
        self.instrument_sources = VSet(s for s in has if s not in CONTROL)
        self.train_ids = np.array(TIDS[name], dtype='u8')

    @property
    def all_sources(self):
        return self.control_sources | self.instrument_sources

    def get_keys(self, source):
        if source not in FILES[self.filename]:
            raise KeyError(source)
        return VSet(UNIVERSE[source])

    def __repr__(self):
        return self.filename

    def __eq__(self, o):
        return isinstance(o, File) and o.filename == self.filename

    def __hash__(self):
        return hash(self.filename)


def subset(name, keys):
    eng = E()
    return CSet({k: eng.fresh('%s_%s' % (name, k.replace('.', '_')), BSORT) for k in keys})


def some_collection(name, limit=None, miss=True):
    """Any collection of the files, as previous operations may have made it"""
    eng = E()
    which = ['f1', 'f2']
    if miss and eng.choose(name + ' misses a file'):
        which = ['f2'] if eng.choose(name + ' misses the first') else ['f1']
    sel = VDict()
    for s in UNIVERSE:
        if limit is not None and s not in limit:
            continue
        # files can leave a collection (select_trains), sources stay in .selection
        if eng.choose('%s has %s' % (name, s)):
            sel[s] = None if eng.choose('%s all of %s' % (name, s)) else subset(name + '_' + s, UNIVERSE[s])
    files = [f for f in which if any(s in sel for s in FILES[f])]
    with no_exception(name):
        return DataCollection([File(f) for f in files], selection=sel, train_ids=VList([1, 3, 5]))


def sources(dc):
    return sorted(set.__iter__(dc.all_sources))


def pair(dc, s, k):
    """Is (s, k) in the collection? (term)"""
    if s not in sources(dc):
        return z3.BoolVal(False)
    ks = dc.selection[s]
    return z3.BoolVal(True) if ks is None else CSet.of(ks).get(k)


class Before:
    """What a collection was like"""
    def __init__(self, dc):
        self.dc = dc
        self.sources = sources(dc)
        self.pairs = {(s, k): pair(dc, s, k) for s in UNIVERSE for k in UNIVERSE[s]}
        self.selection = {s: None if v is None else CSet(CSet.of(v).mem) for s, v in dict.items(dc.selection)}
        self.objects = dict(dict.items(dc.selection))
        self.files, self.tids = list(list.__iter__(dc.files)), list(dc.train_ids)

    def unchanged(self, name):
        dc = self.dc
        prove(name + ': operands unchanged', sources(dc) == self.sources and list(list.__iter__(dc.files)) == self.files
              and list(dc.train_ids) == self.tids and set(dict.keys(dc.selection)) == set(self.selection))
        for s, v in self.selection.items():
            w = dc.selection[s]
            prove(name + ': operands unchanged', (w is None) == (v is None))
            if v is not None and w is not None:
                prove(name + ': operands unchanged', CSet.of(w).same(v))


def check(name, new, befores, want):
    """new holds exactly the pairs want(source, key), with all their data"""
    prove(name + ': a collection', isinstance(new, DataCollection) and all(new is not b.dc for b in befores))
    for s in UNIVERSE:
        for k in UNIVERSE[s]:
            prove(name + ': exactly the pairs', pair(new, s, k) == want(s, k))
            for b in befores:
                for f in b.files:
                    if s in FILES[f.filename]:
                        prove(name + ': all the files with the data',
                              z3.Implies(z3.And(want(s, k), b.pairs[s, k]), z3.BoolVal(f in list(new.files))))
    for s in sources(new):
        ks = new.keys_for_source(s)
        prove(name + ': no other key', CSet.of(ks).within(CSet.of(UNIVERSE[s])))
        prove(name + ': kind of source', (s in new.control_sources) == (s in CONTROL)
              and (s in new.instrument_sources) == (s not in CONTROL))
    prove(name + ': files once', len(set(list(new.files))) == len(list(new.files)))


def mapping(eng, limit):
    """{source: keys}: keys empty, or any subset of the keys"""
    m = VDict()
    for s in limit:
        if eng.choose('ask ' + s):
            m[s] = VSet() if eng.choose('ask all ' + s) else subset('ask_' + s, UNIVERSE[s])
    return m


def by_mapping(op):
    eng = E()
    limit = ('CTRL', 'INA') if eng.choose('sources') else ('INA', 'INB')
    dc = some_collection('dc', limit)
    b = Before(dc)
    asked = mapping(eng, limit)
    a0 = {s: CSet(CSet.of(v).mem) for s, v in asked.items()}
    known = all(s in b.sources for s in asked)
    try:
        new = getattr(dc, op)(asked)
    except R.SourceNameError:
        prove(op + ': SourceNameError only for an unknown source', not known)
        b.unchanged(op)
        return
    except Exception as e:
        prove(op + ': no %s' % type(e).__name__, False)
        return
    prove(op + ': an unknown source is an error', known)

    def designated(s, k):
        if s not in a0:
            return z3.BoolVal(False)
        return z3.Or(a0[s].get(k), z3.Not(disj(list(a0[s].mem.values()))))
    if op == 'select':
        want = lambda s, k: z3.And(b.pairs[s, k], designated(s, k))
    else:
        want = lambda s, k: z3.And(b.pairs[s, k], z3.Not(designated(s, k)))
    check(op, new, [b], want)
    prove(op + ': trains', list(new.train_ids) == b.tids)
    b.unchanged(op)
    for s, v in a0.items():
        prove(op + ': the mapping is unchanged', CSet.of(asked[s]).same(v))


FN = ('reader.DataCollection._expand_selection', 'read_machinery.union_selections', 'reader.DataCollection.__init__',
      'reader.DataCollection.keys_for_source')
ASSUME = ('representative sources (3), keys (2 or 3 of each) and files (2); selections are any',)


@contract('C02', 'reader.DataCollection.select', *FN, assumes=ASSUME)
def select_mapping(eng):
    by_mapping('select')


@contract('C02', 'reader.DataCollection.deselect', *FN, assumes=ASSUME)
def deselect_mapping(eng):
    by_mapping('deselect')


GLOBS = [('*', '*'), ('IN*', 'image.*'), ('*', '*.value'), ('C*', 'x'), ('INA', '*'), ('*', '[!i]*'), ('*', '?mage.data'),
         ('IN[AB]', 'other'), ('NO*', '*'), ('*', 'nope'), ('ina', '*'), ('IN', '*'), ('INA', 'image'), ('*', 'y')]


def matches(g, s, k):
    return fnmatch.fnmatchcase(s, g[0]) and (
        fnmatch.fnmatchcase(k, g[1]) or s in CONTROL and fnmatch.fnmatchcase(k, g[1] + '.value'))


def by_glob(op):
    eng = E()
    eng.MAX_PATHS = 8000
    dc = some_collection('dc', miss=False)
    b = Before(dc)
    i = 0
    while i < len(GLOBS) - 1 and not eng.choose('glob %d' % i):
        i += 1
    globs = [GLOBS[i]]
    if eng.choose('list'):
        if i % 3:
            globs = [GLOBS[i], GLOBS[(5 * i + 3) % len(GLOBS)]]
        args = (VList(globs),)
    else:
        args = GLOBS[i] if GLOBS[i][1] != '*' else GLOBS[i][:1]
    some = [z3.Or(*[b.pairs[s, k] for s in UNIVERSE for k in UNIVERSE[s] if matches(g, s, k)]) for g in globs]
    # a source without any selected key matches '*' as well
    may = [z3.Or(m, z3.BoolVal(g[1] == '*' and any(fnmatch.fnmatchcase(s, g[0]) for s in b.sources)))
           for g, m in zip(globs, some)]
    try:
        new = getattr(dc, op)(*args)
    except ValueError:
        prove(op + ' glob: ValueError only if a pattern matches nothing', z3.Or(*[z3.Not(m) for m in some]))
        b.unchanged(op + ' glob')
        return
    except Exception as e:
        prove(op + ' glob: no %s' % type(e).__name__, False)
        return
    prove(op + ' glob: a pattern that matches nothing is an error', z3.And(*may))
    hit = lambda s, k: z3.BoolVal(any(matches(g, s, k) for g in globs))
    if op == 'select':
        want = lambda s, k: z3.And(b.pairs[s, k], hit(s, k))
    else:
        want = lambda s, k: z3.And(b.pairs[s, k], z3.Not(hit(s, k)))
    check(op + ' glob', new, [b], want)
    prove(op + ' glob: trains', list(new.train_ids) == b.tids)
    b.unchanged(op + ' glob')


AG = ASSUME + ('representative patterns (14)',)


@contract('C02', 'reader.DataCollection.select', 'reader.DataCollection._select_glob', *FN, assumes=AG)
def select_glob(eng):
    by_glob('select')


@contract('C02', 'reader.DataCollection.deselect', 'reader.DataCollection._select_glob', *FN, assumes=AG)
def deselect_glob(eng):
    by_glob('deselect')


@contract('C02', 'reader.DataCollection.union', *FN, assumes=ASSUME + ('two collections of two sources, three of one',))
def union(eng):
    three = eng.choose('three')
    dcs = [some_collection('dc%d' % i, ('INA',) if three else ('CTRL', 'INA')) for i in range(3 if three else 2)]
    bs = [Before(dc) for dc in dcs]
    with no_exception('union'):
        new = dcs[0].union(*dcs[1:])
    check('union', new, bs, lambda s, k: z3.Or(*[b.pairs[s, k] for b in bs]))
    prove('union: trains', list(new.train_ids) == [1, 3, 5])
    for b in bs:
        b.unchanged('union')


@contract('C02', 'reader.DataCollection.union', assumes=('files of any trains',))
def union_trains(eng):
    """The trains of a union, for any trains of the operands"""
    trs = [Trains('a'), Trains('b')]
    rd = R
    dcs = []
    for i, t in enumerate(trs):
        dc = object.__new__(DataCollection)
        dc.files = VList([File('f%d' % (i + 1))])
        dc.ctx_closes = False
        dc.selection = VDict({'INA': None})
        dc.control_sources, dc.instrument_sources = VSet(), VSet(['INA'])
        dc._source_index = VDict({'INA': VList(dc.files)})
        dc.train_ids = t.list
        dcs.append(dc)
    with no_exception('union'):
        new = dcs[0].union(dcs[1])
    s = as_seq(new.train_ids)
    M = I(s.n)
    g = lambda k: elem_term(s, I(k))
    with scope():
        a, b = skolem('a', 0, M), skolem('b', 0, M)
        prove('union: trains in order, once', z3.Implies(a < b, g(a) < g(b)))
    with scope():
        a = skolem('a', 0, M)
        prove('union: no other train', z3.Or(trs[0].has(g(a)), trs[1].has(g(a))))
    for i, t in enumerate(trs):
        with scope():
            j = skolem('j', 0, t.n)
            q = bound_var()
            mention(t.f(j))
            prove('union: every train', z3.Exists([q], z3.And(q >= 0, q < M, g(q) == t.f(j))))


@contract('C02', 'reader.DataCollection._expand_selection')
def unsupported(eng):
    dc = some_collection('dc', ('INA',))
    b = Before(dc)
    what = [5, None, ('INA', '*'), VSet(['INA']), 2.5][
        next((i for i in range(4) if eng.choose('kind %d' % i)), 4)]
    for op in ('select', 'deselect'):
        try:
            getattr(dc, op)(what)
        except Exception:
            b.unchanged(op)
            continue
        prove(op + ': unsupported kind of selection is an error', False)
