"""C18: validation reports a problem exactly when there is one"""
from ..api import *
from ._model import *


class Recorder:
    """Problems reported on this path"""
    def __init__(self):
        self.msgs = []

    def __call__(self, msg, **kw):
        self.msgs.append((msg, kw))


def contiguous_problem(n, first, count):
    """Some entry is out of place (mathematically, not modulo 2**64)"""
    i = z3.Int('ex_i')
    return z3.And(n > 0, z3.Or(first(I(0)) != 0, z3.Exists([i], z3.And(
        i >= 0, i + 1 < n, first(i + 1) != first(i) + count(i)))))


@contract('C18', 'validation.check_index_contiguous')
def check_index_contiguous(eng):
    va = load('validation')
    n = sint('n', 0)
    first, count = sarr('first', n, 'u8'), sarr('count', n, 'u8')
    rec = Recorder()
    with no_exception('check_index_contiguous'):
        va.check_index_contiguous(first, count, rec)
    f, c = first.elem_fn, count.elem_fn
    if rec.msgs:
        prove('reported-only-if-wrong', contiguous_problem(T(n), f, c))
    else:
        prove('start-reported', z3.Implies(T(n) > 0, f(I(0)) == 0))
        with scope():
            i = skolem('i', 0, T(n) - 1)
            prove('wrong-entry-reported', f(i + 1) == f(i) + c(i))


class OneFile:
    """A file opened for validation: datasets by path"""
    filename = 'FILE'

    def __init__(self, **kw):
        self.file = {}
        self.__dict__.update(kw)


def validator(file):
    va = load('validation')
    fv = object.__new__(va.FileValidator)
    fv.file, fv.filename, fv.problems = file, file.filename, VList()
    return fv


def reported(fv):
    r = fv.problems
    if r.segs is not None:
        raise OutOfSubset('problems reported in a loop')
    return list(list.__iter__(r))


def named(prefix, probs, ds=None):
    """Each problem names the file, and the dataset"""
    for p in probs:
        prove(prefix + '-names-file', bool(p['file'] == 'FILE'))
        prove(prefix + '-has-message', bool(isinstance(p['msg'], str) and len(p['msg']) > 0))
        if ds is not None:
            prove(prefix + '-names-dataset', bool(p.get('dataset') in ds))


@contract('C18', 'validation.FileValidator.check_trainids', 'validation.FileValidator.record')
def check_trainids(eng):
    n = sint('n', 0)
    ids = sarr('ids', n, 'u8')
    t, N = ids.elem_fn, T(n)
    f = OneFile()
    f.file['INDEX/trainId'] = SymDS(ids)
    fv = validator(f)
    with no_exception('check_trainids'):
        fv.check_trainids()
    probs = reported(fv)
    bad = lambda i, j: z3.And(i >= 0, i < j, j < N, t(j) != 0, z3.Or(t(i) == 0, t(i) >= t(j)))
    if probs:
        i, j = z3.Int('ex_i'), z3.Int('ex_j')
        for r in eng.path.log.get('positions', []):
            mention(r.ix(I(0)))
        prove('reported-only-if-wrong', z3.Exists([i, j], bad(i, j)))
        named('trainid', probs, ['INDEX/trainId'])
        return
    en = [(lambda k: k, lambda i: i, N)] + [(r.ix, r.rk, r.count) for r in eng.path.log.get('positions', [])]
    uses = []
    for ix, rk, m in en:
        if eng.implied(m == 0):
            continue
        step = lambda k: z3.And(t(ix(k)) != 0, z3.Implies(k + 1 < m, t(ix(k)) < t(ix(k + 1))))
        q = bound_var()
        if not eng.implied(forall([q], z3.Implies(z3.And(q >= 0, q < m), step(q)))):
            continue
        use = induct('increasing', 0, m, lambda k2, k1: z3.Implies(z3.And(k1 >= 0, k1 < k2), t(ix(k1)) < t(ix(k2))), 1,
                     pats=lambda k2, k1: [(t(ix(k2)), t(ix(k1)))])
        uses.append((use, rk))
    with scope():
        i, j = skolem('i', 0, N), skolem('j', 0, N)
        for ix, rk, m in en[1:]:
            mention(ix(rk(i)), ix(rk(j)))
        for use, rk in uses:
            use(rk(j), rk(i))
        prove('wrong-order-reported', z3.Not(bad(i, j)))


class IndexGroup:
    """The datasets of an index"""
    def __init__(self, **shapes):
        self.shapes = shapes

    def __contains__(self, name):
        return name in self.shapes

    def __getitem__(self, name):
        if name not in self.shapes:
            raise KeyError(name)
        return Shaped(self.shapes[name])


class Shaped:
    def __init__(self, shape):
        self.shape = shape


@contract('C18', 'validation.FileValidator.check_index_shape')
def check_index_shape(eng):
    v1 = eng.choose('first/last/status')
    names = ('first', 'last', 'status') if v1 else ('first', 'count')
    shapes = {}
    for nm in names:
        nd = 0 if eng.choose('scalar ' + nm) else 2 if eng.choose('2D ' + nm) else 1
        shapes[nm] = tuple(sint('%s_len%d' % (nm, i), 0) for i in range(nd))
    nt = sint('ntrains', 0)
    f = OneFile(train_ids=sarr('tids', nt, 'u8'))
    f.file['INDEX/SRC/g'] = IndexGroup(**shapes)
    rec = Recorder()
    with no_exception('check_index_shape'):
        ok = validator(f).check_index_shape('SRC', 'g', rec)
    not1d = any(len(s) != 1 for s in shapes.values())
    bad = z3.BoolVal(True) if not1d else z3.Or(*[T(s[0]) < T(nt) for s in shapes.values()])
    prove('usable-only-if-right', bad == z3.BoolVal(not ok))
    prove('reported-iff-not-usable', bool(bool(rec.msgs) == (not ok)))


@contract('C18', 'validation.FileValidator.check_indices', assumes=(
        'FileAccess.get_keys and get_index (C08)', 'contracts of check_index_shape and check_index_contiguous',
        'two instrument sources with three datasets in two groups stand for any number'))
def check_indices(eng):
    va = load('validation')
    keys = {'A/B/C': ['g.a', 'g.b.c', 'h.d'], 'SRC2': ['g.a']} if eng.choose('two sources') else {'A/B/C': ['g.a', 'g.b.c', 'h.d']}
    f = OneFile()
    nt = sint('ntrains', 0)
    f.instrument_sources = VSet(keys)
    f.get_keys = lambda s: VSet(keys[s])
    ok, ix, contig, lens, groups = {}, {}, {}, {}, {}
    for s, kk in keys.items():
        for k in kk:
            g = k.split('.')[0]
            if (s, g) not in ok:
                ok[s, g] = z3.Const('shape_ok_%s_%s' % (s, g), BSORT)
                contig[s, g] = z3.Const('contiguous_%s_%s' % (s, g), BSORT)
                ix[s, g] = (sarr('first', nt, 'u8'), sarr('count', nt, 'u8'))
                groups['INDEX/%s/%s' % (s, g)] = s, g
            p = 'INSTRUMENT/%s/%s' % (s, k.replace('.', '/'))
            lens[p] = (s, g, sint('len', 0, 2 ** 62))
            f.file[p] = Shaped((lens[p][2],))
    f.get_index = lambda s, g: ix[s, g]
    seen, where = [], []

    def shape_stub(self, s, g, record):
        r = bool(mk_bool(ok[s, g]))
        if not r:
            record('index has a wrong shape')
        return r

    def contig_stub(first, count, record):
        g = [g for g in ix if ix[g][0] is first and ix[g][1] is count]
        if len(g) != 1:
            raise OutOfSubset('check_index_contiguous of something else')
        seen.append(g[0])
        if not bool(mk_bool(contig[g[0]])):
            record('index is not contiguous')

    fv = validator(f)
    with patched(va, check_index_contiguous=contig_stub), patched(va.FileValidator, check_index_shape=shape_stub), \
            no_exception('check_indices'):
        fv.check_indices()
    probs = reported(fv)
    named('index', probs)
    at_ds = lambda d: any(p.get('dataset') == d for p in probs)
    i = z3.Int('ex_i')
    for path, (s, g) in groups.items():
        prove('index-problem-iff-wrong %s' % path,
              z3.Not(z3.And(ok[s, g], contig[s, g])) == z3.BoolVal(at_ds(path)))
    for path, (s, g, ln) in lens.items():
        first, count = ix[s, g]
        end = lambda i: first.elem_fn(i) + count.elem_fn(i)
        if at_ds(path):
            prove('outside-only-if-wrong %s' % path, z3.And(ok[s, g], z3.Exists([i], z3.And(
                i >= 0, i < T(nt), end(i) > T(ln)))))
        else:
            with scope('inside ' + path):
                k = skolem('train', 0, T(nt))
                prove('outside-reported %s' % path, z3.Implies(ok[s, g], end(k) <= T(ln)))
    known = set(groups) | set(lens)
    prove('nothing-else-reported', all(p.get('dataset') in known for p in probs))


@contract('C18', 'validation.FileValidator.run_checks', 'validation.FileValidator.validate')
def run_checks(eng):
    va = load('validation')
    fv = object.__new__(va.FileValidator)
    fv.file, fv.filename, fv.problems = OneFile(), 'FILE', [dict(msg='left from before')]
    a, b = eng.choose('index problem'), eng.choose('train ID problem')

    def ci(self):
        if a:
            self.record('index', dataset='INDEX/x')

    def ct(self):
        if b:
            self.record('ids', dataset='INDEX/trainId')
    err = None
    with patched(va.FileValidator, check_indices=ci, check_trainids=ct), no_exception('run_checks'):
        try:
            fv.validate()
        except va.ValidationError as e:
            err = e
    prove('error-iff-problem', (err is not None) == (a or b))
    if err is not None:
        got = [(p['msg'], p['file'], p['dataset']) for p in err.problems]
        want = ([('index', 'FILE', 'INDEX/x')] if a else []) + ([('ids', 'FILE', 'INDEX/trainId')] if b else [])
        prove('exactly-the-problems', sorted(got) == want if a != b else len(got) == 2 and set(got) == set(want))
    with patched(va.FileValidator, check_indices=ci, check_trainids=ct), no_exception('run_checks'):
        again = fv.run_checks()
    prove('same-again', len(again) == int(a) + int(b))


class RunPath:
    """Path k of a run directory"""
    def __init__(self, k):
        self.k = k

    def _subst(self, sub):
        return RunPath(sub(self.k))

    def _ident(self):
        return self.k

    def __eq__(self, o):
        return mk_bool(self.k == o.k)

    __hash__ = None


class RunFile(RunPath):
    def __init__(self, m, k):
        self.m, self.k = m, k

    @property
    def filename(self):
        return RunPath(self.k)

    @property
    def train_ids(self):
        m, k = self.m, self.k
        return new((dim(m.ntr(k)),), u8, lambda idx: m.tid(k, I(idx[0])))

    def _subst(self, sub):
        return RunFile(self.m, sub(self.k))


class AnySet:
    """A set of names"""
    def __init__(self, t):
        self.t = t

    def _subst(self, sub):
        return AnySet(sub(self.t))

    def __eq__(self, o):
        return mk_bool(self.t == o.t)

    def __ne__(self, o):
        return mk_bool(self.t != o.t)

    __hash__ = None


class RunModel:
    def __init__(self, eng):
        F = lambda nm, n, r=ISORT: eng.fresh_fn(nm, [ISORT] * n, r)
        self.N = eng.fresh('npaths')
        fact(self.N >= 0)
        self.opens, self.bad = F('opens', 1, BSORT), F('file_bad', 1, BSORT)
        self.ntr, self.tid = F('ntr', 1), F('tid', 2)
        self.cached, self.cn, self.ct = F('cached', 1, BSORT), F('cache_n', 1), F('cache_tid', 2)
        self.src = {w: F(w, 1) for w in ('control', 'instrument', 'cache_control', 'cache_instrument')}
        k = bound_var()
        fact(z3.And(self.ntr(k) >= 0, self.cn(k) >= 0), [k], (), [(self.ntr(k),), (self.cn(k),)])

    def mismatch(self, k):
        p = z3.Int('ex_p')
        return z3.And(self.cached(k), z3.Or(
            self.src['control'](k) != self.src['cache_control'](k),
            self.src['instrument'](k) != self.src['cache_instrument'](k),
            self.ntr(k) != self.cn(k),
            z3.Exists([p], z3.And(p >= 0, p < self.ntr(k), self.tid(k, p) != self.ct(k, p)))))


RunFile.control_sources = property(lambda s: AnySet(s.m.src['control'](s.k)))
RunFile.instrument_sources = property(lambda s: AnySet(s.m.src['instrument'](s.k)))


@contract('C18', 'validation.RunValidator', 'validation.RunValidator.run_checks',
          'validation.RunValidator.check_files_openable', 'validation.RunValidator.check_files',
          'validation.RunValidator.check_files_map', assumes=('opening a file either fails or gives its content',
                                                             'FileValidator.run_checks', 'RunFilesMap.get (C10)'))
def run_validator(eng):
    va = load('validation')
    m = RunModel(eng)

    def opened(path):
        if not bool(mk_bool(m.opens(path.k))):
            raise OSError('cannot open')
        return RunFile(m, path.k)

    class Run:
        def __init__(self, files):
            self.files = files

    class FV:
        def __init__(self, f):
            self.f = f

        def run_checks(self):
            r = VList()
            if bool(mk_bool(m.bad(self.f.k))):
                r.append(VDict(msg='problem', file=self.f.filename, kind='file'))
            return r

    class Cache:
        cache_file = 'CACHE'

        def __init__(self, d):
            self.d = d

        def get(self, path):
            k = path.k
            if self.d != 'RUN' or not bool(mk_bool(m.cached(k))):
                return None
            return VDict(control_sources=AnySet(m.src['cache_control'](k)),
                         instrument_sources=AnySet(m.src['cache_instrument'](k)),
                         train_ids=new((dim(m.cn(k)),), u8, lambda idx: m.ct(k, I(idx[0]))))
    paths = VList.from_seq(FnSeq(m.N, lambda k: RunPath(I(k))))
    with patched(va, glob=lambda p: paths, FileAccess=opened, DataCollection=Run, FileValidator=FV, RunFilesMap=Cache), \
            no_exception('RunValidator'):
        rv = va.RunValidator('RUN')
        probs = rv.run_checks()
    sq = as_seq(probs)
    total = I(sq.n)
    fl = [x for x in seq_parts(as_seq(rv.run.files)) if isinstance(x, LoopSeq)]
    with scope('problems reported'):
        k = skolem('k', 0, m.N)
        suppose(total == 0)
        for x in fl + seq_parts(sq):
            touch(x, k)
        have('nothing-to-report: opens', m.opens(k))
        for x in fl:
            w = seq_index(x, k, 0)
            have('file-kept', z3.And(w >= 0, w < I(x.n)))
            fk = elem_term(x, w)
            have('file-kept-as-is', fk == k)
            for y in seq_parts(sq):
                touch(y, w)
        have('nothing-to-report: file', z3.Not(m.bad(k)))
        have('nothing-to-report: cache', z3.Not(m.mismatch(k)))
    prove('nothing-usable-reported', z3.Implies(total == 0, m.N > 0))
    with scope('reported problems'):
        e = skolem('e', 0, total)
        p = sq.at(e)
        where = p.get('data_file') or p.get('file')
        if where is None:
            q = z3.Int('q')
            prove('reported-only-if-nothing-usable', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m.N), z3.Not(m.opens(q)))))
            prove('names-directory', bool('RUN' in [v for v in p.values() if isinstance(v, str)]))
        else:
            k = where.k
            prove('reported-only-if-wrong', z3.And(k >= 0, k < m.N, z3.Or(
                z3.Not(m.opens(k)), m.bad(k), m.mismatch(k))))
