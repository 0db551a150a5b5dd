"""C10: the run cache"""
from ..api import *
from ._model import *
import os as _os
import os.path as _osp
import re as _re

RUN = '/data/run'
CACHE1 = RUN + '/karabo_data_map.json'
CACHE2 = '/scratch/maps/raw_r1.json'


class St:
    def __init__(self, mtime, size, ino=None):
        self.st_mtime, self.st_size, self.st_ino = mtime, size, ino


class GhostOS:
    """os: what is known of the files; everything else is not available"""
    def __init__(self, stats, dirs, fail=lambda what, path: False):
        self.stats, self.dirs, self.fail, self.made = stats, dirs, fail, []
        self.path = _osp

    def stat(self, p):
        if p in self.dirs:
            return self.dirs[p]
        if p not in self.stats or self.stats[p] is None:
            raise FileNotFoundError(2, 'no such file', p)
        return self.stats[p]

    def makedirs(self, d, mode=0o777, exist_ok=False):
        if self.fail('makedirs', d) or not exist_ok:
            raise PermissionError(13, 'denied', d)
        self.made.append(d)


class GhostPath:
    """os.path for absolute paths"""
    join, split, dirname, basename, abspath = [staticmethod(getattr(_osp, n)) for n in (
        'join', 'split', 'dirname', 'basename', 'abspath')]

    @staticmethod
    def samestat(a, b):
        return a is b


def entry(name):
    n = sint('ntr_' + name, 0)
    return VDict(filename=name, mtime=sreal('mtime_' + name), size=sint('size_' + name, 0),
                 train_ids=VList.from_seq(FnSeq(T(n), (lambda f: lambda k: mk_int(f(I(k))))(tid_fn(name)))),
                 control_sources=VList(['C' + name, 'D']), instrument_sources=VList(['I' + name]))


def tid_fn(name):
    f = E().fresh_fn('tid_' + name, [ISORT], ISORT)
    q = bound_var()
    fact(z3.And(f(q) > 0, f(q) < 2 ** 64), [q], (), [(f(q),)])
    return f


def same(a, b):
    """The same number, as a term"""
    return T(a) == T(b)


def new_map(candidates):
    rfm = load('run_files_map')
    m = object.__new__(rfm.RunFilesMap)
    m.directory, m.files_data, m.candidate_paths = RUN, VDict(), candidates
    m.dir_stat = DIR_STAT
    return m


DIR_STAT, OTHER_STAT = St(0, 0, 1), St(0, 0, 2)


class Json:
    JSONDecodeError = ValueError

    def __init__(self, docs):
        self.docs = docs

    def load(self, f):
        d = self.docs[f.path]
        if isinstance(d, str) and d == 'garbage':
            raise ValueError('Expecting value')
        if isinstance(d, str) and d == 'not text':
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid')
        return d


class ROFile:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def opener(docs, log):
    def open_(path, mode='r', *a, **k):
        log.append((path, mode))
        if docs.get(path) is None:
            raise FileNotFoundError(2, 'missing')
        if isinstance(docs[path], str) and docs[path] == 'denied':
            raise PermissionError(13, 'denied')
        return ROFile(path)
    return open_


@contract('C10', 'run_files_map.RunFilesMap.__init__', 'run_files_map.RunFilesMap.load', 'run_files_map.RunFilesMap.get',
          'run_files_map.RunFilesMap.is_my_directory',
          assumes=('three entries stand for any number', 'json.load', 'os.stat',
                   'the cache file is missing, not readable, not JSON, or what save wrote'))
def load_cache(eng):
    rfm = load('run_files_map')
    names = ['f0.h5', 'f1.h5', 'f2.h5']
    entries = [entry(n) for n in names[:2]]
    stats = {}
    for n in names[:2]:
        stats[RUN + '/' + n] = None if eng.choose('gone ' + n) else St(sreal('st_mtime'), sint('st_size', 0))
    stats[RUN + '/f2.h5'] = St(sreal('st_mtime'), sint('st_size', 0))
    docs = {}
    state = [s for s in ('missing', 'denied', 'garbage', 'not text') if eng.choose('cache ' + s)][:1] or ['there']
    state = state[0]
    docs[CACHE1] = {'missing': None, 'there': VList(entries)}.get(state, state)
    two = eng.choose('second candidate')
    if two:
        docs[CACHE2] = VList(entries[:1]) if eng.choose('second there') else None
    used = entries if state == 'there' else entries[:1] if two and docs[CACHE2] is not None else []
    cands = [CACHE1] + ([CACHE2] if two else [])
    log = []
    dirs = {RUN: DIR_STAT, '/data': OTHER_STAT}
    with patched(rfm, os=GhostOS(stats, dirs), osp=GhostPath, open=opener(docs, log), json=Json(docs)), \
            patched(rfm.RunFilesMap, map_paths_for_run=lambda s, d: cands), no_exception('RunFilesMap'):
        m = rfm.RunFilesMap(RUN)
        prove('read-only', all(md in ('r', 'rb', 'rt') for p, md in log))
        prove('cache-file', bool(m.cache_file == (CACHE1 if state == 'there' else CACHE2 if used else None)))
        for n, e in zip(names, entries):
            st = stats[RUN + '/' + n]
            got = m.get(RUN + '/' + n)
            usable = z3.BoolVal(any(e is x for x in used) and st is not None)
            match = z3.And(usable, same(e['mtime'], st.st_mtime), same(e['size'], st.st_size)) if st is not None else usable
            prove('entry-used-iff-current', match == z3.BoolVal(got is not None))
            if got is None:
                continue
            prove('entry-control', set(got['control_sources']) == set(e['control_sources']))
            prove('entry-instrument', set(got['instrument_sources']) == set(e['instrument_sources']))
            prove('entry-fields', sorted(got) == ['control_sources', 'instrument_sources', 'train_ids'])
            t = got['train_ids']
            prove('entry-train-ids-type', bool(t.dtype == np.dtype('u8')))
            s = as_seq(e['train_ids'])
            prove('entry-train-ids-number', n_of(t) == I(s.n))
            with scope('entry-train-ids'):
                i = skolem('i', 0, I(s.n))
                prove('entry-train-ids', at(t, i) == elem_term(s, i))
        prove('no-entry', m.get(RUN + '/f2.h5') is None)
        prove('other-directory', m.get('/data/' + names[0]) is None)


class Vfd:
    def __init__(self, f):
        self.f = f
        self.id = self

    def get_vfd_handle(self, *a):
        if self.f.no_fd:
            raise ValueError('no file descriptor')
        return self.f.fd


class DataFile:
    """An opened data file: the file opened may have been replaced since"""
    def __init__(self, eng, i, name, directory=RUN):
        self.filename = directory + '/' + name
        self.name, self.fd = name, 100 + i
        self.no_fd = eng.choose('no fd ' + name)
        self.n = sint('ntr', 0)
        self.train_ids = sarr('tid', self.n, 'u8')
        self.control_sources, self.instrument_sources = VSet(['c2', 'c1' + name]), VSet(['i' + name])

    @property
    def file(self):
        return Vfd(self)


@contract('C10', 'run_files_map.RunFilesMap.save', 'run_files_map.RunFilesMap.is_my_directory',
          assumes=('three files stand for any number', 'atomic_dump (C11)', 'os.stat'))
def save_cache(eng):
    rfm = load('run_files_map')
    files = [DataFile(eng, 0, 'b.h5'), DataFile(eng, 1, 'a.h5'), DataFile(eng, 2, 'o.h5', '/data')]
    stats = {}
    by_fd, by_name = {}, {}
    for f in files:
        by_fd[f.name] = stats[f.fd] = St(sreal('fd_mtime'), sint('fd_size', 0))
        by_name[f.name] = stats[f.filename] = St(sreal('st_mtime'), sint('st_size', 0))
    dirs = {RUN: DIR_STAT, '/data': OTHER_STAT}
    two = eng.choose('second candidate')
    m = new_map([CACHE1] + ([CACHE2] if two else []))
    old = {n: entry(n) for n in ('a.h5', 'b.h5', 'z.h5') if eng.choose('known ' + n)}
    for n, e in old.items():
        m.files_data[n] = e
    dumped = []

    failed = set()

    def fail(what, path):
        if eng.choose('%s fails' % what):
            failed.add(path)
            return True
        return False

    def dump(obj, path, **kw):
        if fail('dump %d' % len(dumped), path):
            dumped.append((path, None))
            raise OSError(28, 'no space')
        dumped.append((path, list(list.__iter__(obj)) if isinstance(obj, VList) and obj.segs is None else obj))
    with patched(rfm, os=GhostOS(stats, dirs, fail), osp=GhostPath, atomic_dump=dump), no_exception('save'):
        m.save(VList(files))
    here = [f for f in files if f.filename.startswith(RUN)]
    needed = any(f.name not in old for f in here)
    written = [(p, d) for p, d in dumped if d is not None]
    prove('written-at-most-once', len(written) <= 1)
    prove('only-the-cache', all(p in m.candidate_paths for p, d in dumped))
    if not needed:
        prove('not-written-again', not dumped)
        return
    if written:
        prove('not-written-after-success', bool(dumped[-1][1] is not None))
        data = written[0][1]
        if not isinstance(data, list):
            raise OutOfSubset('written data')
        prove('one-entry-per-file', sorted(d['filename'] for d in data) == sorted(set(old) | {f.name for f in here}))
        for d in data:
            if d['filename'] in old:
                prove('entry-kept', all(d[k] is v for k, v in old[d['filename']].items()))
                continue
            f = [f for f in here if f.name == d['filename']][0]
            st = by_name[f.name] if f.no_fd else by_fd[f.name]
            prove('entry-mtime', same(d['mtime'], st.st_mtime))
            prove('entry-size', same(d['size'], st.st_size))
            prove('entry-control', sorted(d['control_sources']) == sorted(f.control_sources))
            prove('entry-instrument', sorted(d['instrument_sources']) == sorted(f.instrument_sources))
            s = as_seq(d['train_ids'])
            prove('entry-train-ids-number', I(s.n) == T(f.n))
            with scope('train ids'):
                i = skolem('i', 0, T(f.n))
                prove('entry-train-ids', elem_term(s, i) == f.train_ids.elem_fn(i))
                prove('entry-train-ids-json', bool(not isinstance(s.at(i), Sym) or getattr(s.at(i), 'dt', None) is None))
    else:
        prove('every-candidate-tried', all(p in failed or _osp.dirname(p) in failed for p in m.candidate_paths))


@contract('C10 C08', 'reader.RunDirectory', assumes=('from_paths', 'RunFilesMap', 'a representative directory'))
def run_directory(eng):
    rd = load('reader')
    listing = [n for n in ('B.h5', 'A.h5', 'notes.txt', 'C.h5.bak', 'A2.h5', 'karabo_data_map.json') if eng.choose('has ' + n)]
    include = '*' if eng.choose('all') else 'A*' if eng.choose('some') else 'Z*'
    want = [RUN + '/' + n for n in listing if n.endswith('.h5') and (include == '*' or (include == 'A*' and n[0] == 'A'))]
    calls = []

    class Map:
        def __init__(self, d):
            self.d = d
            calls.append(('map', d))

        def save(self, files):
            calls.append(('save', files, self))

    class Coll:
        def __init__(self, files):
            self.files = files

        @classmethod
        def from_paths(cls, paths, _files_map=None):
            r = cls(VList(['opened ' + p for p in paths]))
            calls.append(('open', sorted(paths), _files_map, r))
            return r

    class OS(GhostOS):
        def listdir(self, p):
            if p != RUN:
                raise FileNotFoundError(p)
            return VList(listing)
    with patched(rd, os=OS({}, {}), osp=GhostPath, RunFilesMap=Map, DataCollection=Coll):
        try:
            d = rd.RunDirectory(RUN) if include == '*' and eng.choose('default') else rd.RunDirectory(RUN, include)
        except (OutOfSubset, AttributeError, TypeError):
            raise
        except Exception:
            prove('fails-only-without-files', not want)
            return
    o = [c for c in calls if c[0] == 'open']
    prove('opened-once', len(o) == 1)
    prove('exactly-the-files', o[0][1] == sorted(want))
    prove('gives-them', bool(d is o[0][3]))
    s = [c for c in calls if c[0] == 'save']
    prove('cache-saved', len(s) == 1 and s[0][1] is d.files and s[0][2].d == RUN)
    prove('cache-used', bool(o[0][2] is s[0][2]))
