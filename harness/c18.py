"""C18 Validation reports a problem exactly when there is one."""
import shutil
from .common import *
import h5py
from karabo_data import validation
from karabo_data.reader import FileAccess

BIG = [2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1]
SRC = 'SPB_DET_X/DET/%d:out'


def gen_tids(rng):
    n = rng.choice([0, 1, 2, 3, 5])
    t = rng.choice([1, 10000, 2**63 - 2, 2**53 - 1])
    ids = []
    for _ in range(n):
        ids.append(t)
        t += rng.choice([1, 1, 2])
    bad = rng.random()
    if bad < .12 and n > 1:
        i = rng.randrange(n)
        ids[i] = 0                                  # zero, perhaps in the middle
    elif bad < .24 and n > 1:
        i = rng.randrange(n - 1)
        ids[i + 1] = ids[i] - rng.choice([0, 1])     # repeated / decreasing
    elif bad < .3 and n > 1:
        ids[rng.randrange(n)] = rng.choice(BIG)
    return ids + [0] * rng.choice([0, 0, 1, 3])


def gen_index(rng, ntids):
    """(datasets of the index, rows in the dataset)"""
    style = rng.choice(['count', 'count', 'last'])
    n = ntids
    counts = [rng.choice([0, 1, 1, 2, 5]) for _ in range(n)]
    firsts = [sum(counts[:i]) for i in range(n)]
    total = sum(counts)
    d0 = total + rng.choice([0, 0, 4])
    bad = rng.random()
    if n and bad < .45:
        kind = rng.choice(['first', 'count', 'swap', 'shift', 'rows', 'big', 'wrap'])
        i = rng.randrange(n)
        if kind == 'first':
            firsts[i] = max(0, firsts[i] + rng.choice([-1, 1, 2]))
        elif kind == 'count':
            counts[i] = max(0, counts[i] + rng.choice([-1, 1, 3]))
        elif kind == 'swap':
            j = rng.randrange(n)
            firsts[i], firsts[j] = firsts[j], firsts[i]
        elif kind == 'shift':
            firsts = [f + 1 for f in firsts]
        elif kind == 'rows':
            d0 = max(0, total - 1)
        elif kind == 'big':
            (firsts if rng.random() < .5 else counts)[i] = rng.choice(BIG)
        elif kind == 'wrap':
            # first + count wraps round to the expected next position
            f = rng.choice([1, 2, 3])
            firsts[i] = f
            counts[i] = min(2**64 - f + rng.choice([0, 1]), 2**64 - 1)
            if i + 1 < n and rng.random() < .5:
                firsts[i + 1] = (f + counts[i]) % 2**64
    if style == 'count':
        ix = {'first': firsts, 'count': counts}
    else:
        st = [1 if c else 0 for c in counts]
        last = [(f + c - 1) % 2**64 if c else rng.choice([0, f]) for f, c in zip(firsts, counts)]
        ix = {'first': firsts, 'last': last, 'status': st}
    ix = {k: np.array(v, dtype='u8') for k, v in ix.items()}
    if rng.random() < .25:
        k = rng.choice(sorted(ix))
        how = rng.choice(['short', 'long', 'all long', '2d', 'one', 'none', 'all short', '0d'])
        v = ix[k]
        if how == 'short':
            ix[k] = v[:-1]
        elif how == 'long':
            ix[k] = np.concatenate([v, np.array([7], 'u8')])
        elif how == 'all long':
            ix = {k: np.concatenate([v, np.array([7, 1], 'u8')]) for k, v in ix.items()}
        elif how == 'all short':
            ix = {k: v[:-1] for k, v in ix.items()}
        elif how == '2d':
            ix[k] = v.reshape(-1, 1)
        elif how == 'one':
            ix[k] = v[:1]
        elif how == 'none':
            ix[k] = v[:0]
        elif how == '0d':
            ix[k] = np.uint64(3)
    return ix, d0


def index_problems(ix, ntrains, rows):
    """The specification. ix: {name: array}, rows: lengths of the datasets"""
    if any(np.ndim(a) != 1 for a in ix.values()):
        return {'shape'}
    if any(len(a) < ntrains for a in ix.values()):
        return {'entries'}
    first = [int(x) for x in ix['first'][:ntrains]]
    if 'count' in ix:
        count = [int(x) for x in ix['count'][:ntrains]]
    else:
        count = [(int(l) - f + 1) % 2**64 if s else 0
                 for f, l, s in zip(first, ix['last'][:ntrains], ix['status'][:ntrains])]
    out = set()
    for j, r in enumerate(rows):
        if any(f + c > r for f, c in zip(first, count)):
            out.add('outside%d' % j)
    if first and first[0] != 0:
        out.add('start')
    for i in range(ntrains - 1):
        e = first[i] + count[i]
        if e < first[i + 1]:
            out.add('gap')
        if e > first[i + 1]:
            out.add('overlap')
    return out


def tid_problems(tids):
    out = set()
    nz = [t for t in tids if t]
    if 0 in tids and any(t for t in tids[tids.index(0):]):
        out.add('zero')
    if any(b <= a for a, b in zip(nz, nz[1:])):
        out.add('order')
    return out


def write_file(path, tids, sources, fmt):
    with h5py.File(path, 'w') as f:
        f['INDEX/trainId'] = np.array(tids, 'u8')
        ids = []
        for src, groups in sources.items():
            for g, (ix, d0) in groups.items():
                ids.append('INSTRUMENT/{}/{}'.format(src, g))
                for k, v in ix.items():
                    f['INDEX/{}/{}/{}'.format(src, g, k)] = v
                f['INSTRUMENT/{}/{}/x'.format(src, g)] = np.zeros((d0,), 'f4')
                f['INSTRUMENT/{}/{}/sub/y'.format(src, g)] = np.zeros((d0 + 1, 2), 'u1')
        p = 'METADATA/' if fmt == '0.5' else 'METADATA/dataSources/'
        if fmt != '0.5':
            f.create_dataset('METADATA/dataFormatVersion', data=np.array([fmt.encode()], dtype=object),
                             dtype=h5py.special_dtype(vlen=bytes))
        ds = f.create_dataset(p + 'dataSourceId', (len(ids),), dtype=h5py.special_dtype(vlen=bytes))
        if ids:
            ds[:] = [i.encode() for i in ids]


def gen_file(rng, path, srcs):
    tids = gen_tids(rng)
    n = len([t for t in tids if t])
    sources = {}
    for s in srcs:
        sources[s] = {g: gen_index(rng, n) for g in (['data'] if rng.random() < .7 else ['data', 'header'])}
    write_file(path, tids, sources, rng.choice(['0.5', '1.0']))
    want = {('INDEX/trainId', p) for p in tid_problems(tids)}
    for s, gs in sources.items():
        for g, (ix, d0) in gs.items():
            for p in index_problems(ix, n, [d0, d0 + 1]):
                if p.startswith('outside'):
                    want.add(('INSTRUMENT/{}/{}/{}'.format(s, g, ['x', 'sub/y'][int(p[-1])]), p))
                else:
                    want.add(('INDEX/{}/{}'.format(s, g), p))
    desc = dict(trainId=tids, index={s + '/' + g: ({k: np.asarray(v).tolist() for k, v in ix.items()}, d0)
                                      for s, gs in sources.items() for g, (ix, d0) in gs.items()})
    return want, desc


def check_reports(probs, want, path):
    """Reported problems against the specification, for one file"""
    require(bool(probs) == bool(want), 'problems {} reported, actual problems {}',
            [p['msg'] for p in probs], sorted(want))
    for p in probs:
        require(p.get('file') == path and p.get('msg'), 'problem does not name its file: {}', p)
        require(p.get('dataset'), 'problem does not name its dataset: {}', p)
    require({p['dataset'] for p in probs} == {d for d, _ in want},
            'problems reported for {}, actual problems {}', sorted({p['dataset'] for p in probs}), sorted(want))


def one_file(rng, scratch, desc):
    path = os.path.join(scratch.new(), 'f.h5')
    srcs = [SRC % i for i in range(rng.choice([1, 1, 2]))]
    want, d = gen_file(rng, path, srcs)
    desc.update(d)
    fa = FileAccess(path)
    try:
        probs = validation.FileValidator(fa).run_checks()
        check_reports(probs, want, path)
        v = validation.FileValidator(fa)
        if want:
            raises(validation.ValidationError, v.validate, 'validate()')
            try:
                v.validate()
            except validation.ValidationError as e:
                s = str(e)
                require(path in s, 'message does not name the file')
        else:
            v.validate()
        require([p['msg'] for p in v.run_checks()] == [p['msg'] for p in probs], 'running the checks again differs')
    finally:
        fa.close()
    rc = validation.main([path])
    require(rc == (1 if want else None) or (not want and rc == 0), 'command line: exit code {}', rc)


def run_dir(rng, scratch, desc):
    d = scratch.new()
    want, descs = {}, {}
    n = rng.choice([0, 1, 2, 3])
    for i in range(n):
        p = os.path.join(d, 'RAW-R0001-DA%02d-S00000.h5' % i)
        want[p], descs[p] = gen_file(rng, p, [SRC % i])
        if rng.random() < .5:
            # mostly good files
            t = [1000, 1001]
            ix = {'first': np.array([0, 1], 'u8'), 'count': np.array([1, 1], 'u8')}
            os.unlink(p)
            write_file(p, t, {SRC % i: {'data': (ix, 2)}}, '1.0')
            want[p], descs[p] = set(), 'good'
    broken = []
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        p = os.path.join(d, 'RAW-R0001-BAD%02d-S00000.h5' % i)
        open(p, 'wb').write(rng.choice([b'', b'nothing', b'\x89HDF\r\n\x1a\n' + b'\0' * 50]))
        broken.append(p)
    cache = os.path.join(d, 'karabo_data_map.json')
    mode = rng.choice(['none', 'saved', 'saved', 'wrong', 'stale', 'partial'])
    wrong = set()
    if n and mode != 'none':
        import json
        try:
            with open(os.devnull, 'w'):
                rd = kd.RunDirectory(d)
            close(rd)
        except Exception:
            mode = 'none'
        if os.path.exists(cache) and mode != 'saved':
            info = json.load(open(cache))
            i = rng.randrange(len(info))
            if mode == 'partial':
                del info[i]
            else:
                e = info[i]
                what = rng.choice(['train_ids', 'control_sources', 'instrument_sources', 'order'])
                before = json.dumps(e, sort_keys=True)
                if what == 'train_ids':
                    e['train_ids'] = e['train_ids'][:-1] if e['train_ids'] and rng.random() < .5 else e['train_ids'] + [99999]
                elif what == 'order':
                    e['train_ids'] = e['train_ids'][::-1]
                else:
                    e[what] = e[what][1:] if e[what] and rng.random() < .5 else e[what] + ['X/Y/Z']
                if json.dumps(e, sort_keys=True) != before:
                    if mode == 'stale':
                        e['mtime'] -= 1
                    else:
                        wrong.add(os.path.join(d, e['filename']))
            json.dump(info, open(cache, 'w'))
    desc.update(files=descs, broken=broken, cache=mode, wrong_cache=sorted(wrong))
    before = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
    rv = validation.RunValidator(d)
    try:
        probs = list(rv.run_checks())
        any_problem = bool(broken) or n == 0 or any(want.values()) or bool(wrong)
        require(bool(probs) == any_problem, 'problems {} reported; broken files {}, problems {}, wrong cache entries {}',
                [p['msg'] for p in probs], broken, want, wrong)
        for p in broken:
            require(any(q.get('file') == p for q in probs), 'file that cannot be opened is not reported: {}', p)
        if n == 0:
            require(any(q.get('directory') == d for q in probs), 'no usable files, but not reported')
        else:
            require(not any('usable' in q['msg'] for q in probs), 'no usable files reported')
        require({q['data_file'] for q in probs if 'data_file' in q} == wrong, 'wrong cache entries: {} instead of {}',
                [q for q in probs if 'data_file' in q], wrong)
        for p in want:
            check_reports([q for q in probs if q.get('file') == p], want[p], p)
        if any_problem:
            raises(validation.ValidationError, rv.validate, 'validate()')
        else:
            rv.validate()
    finally:
        close(rv.run)
    require(before == {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}, 'validation changed the files')


def kernel(rng, scratch, desc):
    """check_index_contiguous on its own, many arrays"""
    for _ in range(40):
        n = rng.choice([0, 1, 2, 3, 4])
        pool = [0, 0, 1, 2, 3, 5] + BIG
        first = [rng.choice(pool) for _ in range(n)]
        count = [rng.choice(pool) for _ in range(n)]
        if rng.random() < .6 and n:
            first[0] = 0
            for i in range(n - 1):
                if rng.random() < .8:
                    count[i] = rng.choice([0, 1, 2, 3])
                first[i + 1] = (first[i] + count[i]) % 2**64
        got = []
        validation.check_index_contiguous(np.array(first, 'u8'), np.array(count, 'u8'),
                                          lambda msg, **k: got.append(msg))
        want = index_problems({'first': first, 'count': count}, n, [2**70])
        desc.update(first=first, count=count)
        require(len(got) == len(want), 'first {}, count {}: {} reported, actual {}', first, count, got, want)


PARTS = [('one_file', one_file, 250), ('run_dir', run_dir, 120), ('kernel', kernel, 40)]
