"""C08 opening files of every format version."""
import io, contextlib, h5py
from .common import *
from .common import _DC
from .model import File, Group, fresh_values


def check_open(dc, spec):
    check_ids(dc, spec)
    check_names(dc, spec)


def case(rng, scratch, desc):
    files = gen_run(rng, max_seq=3, max_trains=5)
    d = scratch.new()
    write_run(files, d)
    spec = Coll(files)
    desc.update(spec.describe())
    bad = []
    if rng.random() < .4:
        for i in range(rng.randrange(1, 3)):
            name = 'RAW-R0001-DA09-S%05d.h5' % i
            p = os.path.join(d, name)
            kind = rng.choice(['empty', 'garbage', 'truncated', 'nometa', 'dir', 'badcat', 'dangling'])
            if kind == 'empty':
                open(p, 'wb').close()
            elif kind == 'garbage':
                open(p, 'wb').write(os.urandom(600))
            elif kind == 'truncated':
                raw = open(files[0].path, 'rb').read()
                open(p, 'wb').write(raw[:len(raw) // 2])
            elif kind == 'nometa':
                with h5py.File(p, 'w') as f:
                    f['INDEX/trainId'] = np.arange(3, dtype='u8')
            elif kind == 'badcat':
                f = File(name, [1, 2])
                f.write(d)
                with h5py.File(p, 'a') as h:
                    del h['METADATA/dataSourceId']
                    h.create_dataset('METADATA/dataSourceId', data=np.array([b'STRANGE/x']))
            elif kind == 'dangling':
                os.symlink(os.path.join(d, 'nowhere'), p)
            else:
                os.mkdir(p)
            bad.append(name)
            desc.setdefault('bad', []).append((name, kind))
    err = io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
        if rng.random() < .5:
            dc = kd.RunDirectory(d)
        else:
            names = [f.name for f in files] + bad
            rng.shuffle(names)
            dc = _DC().from_paths([os.path.join(d, n) for n in names])
    for b in bad:
        require(b in err.getvalue(), 'no message naming the unusable file {}', b)
    check_open(dc, spec)
    for s in sorted(spec.sel):
        for k in sorted(spec.sel[s])[:2]:
            if not spec.is_control(s):
                ser = dc.get_data_counts(s, k)
                want = [(t, len(r)) for t in spec.tids for r in [spec.rows(s, k, t)] if r is not None]
                require([(int(t), int(c)) for t, c in zip(ser.index, ser.values)] == want, 'counts of {} {}: {} instead of {}',
                        s, k, list(zip(ser.index, ser.values)), want)
            check_array(dc, spec, s, k)
    for t in spec.tids[:2]:
        check_train(dc.train_from_id(t)[1], t, spec)
    close(dc)
    f = rng.choice(files)
    one = kd.H5File(f.path)
    check_all(one, Coll([f]))
    close(one)
    # include=
    if len(files) > 1:
        pat = '*' + f.name[-15:]
        from fnmatch import fnmatch
        keep = [g for g in files if fnmatch(g.name, pat)]
        with contextlib.redirect_stderr(err):
            sub = kd.RunDirectory(d, include=pat)
        check_open(sub, Coll(keep))
        close(sub)


def case_formats(rng, scratch, desc):
    """The same content in all combinations of format and index style."""
    seed = rng.random()
    import random
    from . import model
    outs = []
    n = rng.randrange(1, 6)
    for fmt in ('0.5', '1.0'):
        for style in ('count', 'last', 'last64'):
            for pad in (0, 3):
                model._counter = model.itertools.count(1)
                r2 = random.Random(seed)
                tids = model.gen_tids(r2, n)
                f = File('RAW-R0001-DA01-S00000.h5', tids, fmt=fmt, pad=pad, index_style=style, blank_sources=r2.choice([0, 2]))
                f.control['A/B/C'] = model.gen_control(r2, n)
                c = [r2.choice([0, 1, 3]) for _ in range(n)]
                c2 = [r2.choice([0, 1, 2]) for _ in range(n)]
                f.instrument['A/B/C:out'] = {'g': Group(c, {'v': fresh_values((sum(c), 2), 'f4')}),
                                             'h': Group(c2, {'w.z': fresh_values((sum(c2),), 'i8')})}
                d = scratch.new()
                write_run([f], d)
                dc = kd.RunDirectory(d) if r2.random() < .5 else kd.H5File(f.path)
                spec = Coll([f])
                desc.update(spec.describe())
                check_all(dc, spec)
                close(dc)


def case_unusable(rng, scratch, desc):
    d = scratch.new()
    raises(Exception, lambda: kd.RunDirectory(d), 'opening an empty directory')
    for i in range(rng.randrange(1, 3)):
        open(os.path.join(d, 'RAW-R0001-DA01-S%05d.h5' % i), 'wb').write(os.urandom(rng.choice([0, 100])))
    raises(Exception, lambda: kd.RunDirectory(d), 'opening a directory of unusable files')
    raises(Exception, lambda: _DC().from_paths([]), 'opening no files')
    raises(Exception, lambda: kd.H5File(os.path.join(d, 'RAW-R0001-DA01-S00000.h5')), 'opening an unusable file')


PARTS = [('open', case, 150), ('formats', case_formats, 12), ('unusable', case_unusable, 4)]
