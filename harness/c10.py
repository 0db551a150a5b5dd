"""C10 the run cache never changes what a run contains."""
import json, pickle, stat, sys, time
from .common import *
from .model import *
from .c06 import digest

CACHE = 'karabo_data_map.json'


def as_nobody(fn):
    """Run fn in a child process without privileges; None if not possible."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                res = ('skip', None)
            else:
                try:
                    fn()
                    res = ('ok', None)
                except Fail as e:
                    res = ('fail', str(e))
                except BaseException as e:
                    import traceback
                    res = ('fail', 'unexpected {}: {}\n{}'.format(type(e).__name__, e, traceback.format_exc(limit=-5)))
            os.write(w, pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    st, msg = pickle.loads(data)
    if st == 'fail':
        raise Fail('(as an unprivileged user) ' + msg)
    return st


def entry_ok(info, f):
    st = os.stat(f.path)
    ctrl = sorted(f.control)
    inst = sorted(f.instrument)
    return (info['mtime'] == st.st_mtime and info['size'] == st.st_size and
            [t for t in info['train_ids']] == f.tids and
            sorted(info['control_sources']) == ctrl and sorted(info['instrument_sources']) == inst)


def check_cache(d, files, alt=None):
    for p in [os.path.join(d, CACHE)] + ([alt] if alt else []):
        if os.path.exists(p):
            break
    else:
        raise Fail('no cache file was written')
    entries = {e['filename']: e for e in json.load(open(p))}
    for f in files:
        require(f.name in entries, 'no cache entry for {}', f.name)
        require(entry_ok(entries[f.name], f), 'cache entry of {} does not describe the file: {}', f.name, entries[f.name])


def open_and_check(d, files, dcs):
    spec = Coll(files)
    before = digest(files)
    dc = kd.RunDirectory(d)
    check_all(dc, spec)
    for tid, data in dc.trains():
        check_train(data, int(tid), spec)
    require(digest(files) == before, 'a data file was modified')
    close(dc)


_used = set()


def shift(rng, path, st):
    """Set a modification time different from all others used"""
    while True:
        t = st.st_mtime_ns + rng.choice([1, -1]) * rng.choice([1, 10, 1000, 10**6]) * rng.randrange(2000, 10**6)
        t -= t % 1000
        if t not in _used:
            break
    _used.add(t)
    os.utime(path, ns=(st.st_atime_ns, t))


def mutate(rng, d, files, spare):
    """One change to the run; returns a label."""
    op = rng.choice(['add', 'remove', 'rewrite', 'touch', 'truncate', 'garble', 'binary', 'delete',
                     'fake', 'old_entry', 'empty', 'wrong_size', 'none'])
    cp = os.path.join(d, CACHE)
    if op == 'add' and spare:
        f = spare.pop()
        f.write(d)
        files.append(f)
    elif op == 'remove' and len(files) > 1:
        f = files.pop(rng.randrange(len(files)))
        os.unlink(f.path)
        spare.append(f)
    elif op == 'rewrite':
        # new content: other trains & values, the source names change too
        i = rng.randrange(len(files))
        f = files[i]
        st = os.stat(f.path)
        n = rng.randrange(1, 5)
        new = File(f.name, [50000 + 100 * i + j for j in range(n)], fmt=f.fmt)
        if rng.random() < .5:
            new.tids = [t + 1 for t in f.tids]        # same size, other trains
            new.control, new.instrument = f.control, f.instrument
            new.pad, new.index_style, new.blank_sources = f.pad, f.index_style, f.blank_sources
            other = set().union(*[set(g.tids) for g in files + spare if g is not f and g.sources() & f.sources()] or [set()])
            if other & set(new.tids):
                return 'none'
        else:
            new.control['OTHER_%d' % i] = gen_control(rng, n)
        if rng.random() < .5:
            # replaced by another file, as rsync would do
            tmp = os.path.join(os.path.dirname(d), 'new-' + f.name)
            new.name = os.path.basename(tmp)
            new.write(os.path.dirname(d))
            os.replace(tmp, os.path.join(d, f.name))
            new.name = f.name
            new.path = os.path.join(d, f.name)
        else:
            new.write(d)
        # the modification time differs by as little as a file system may record
        shift(rng, new.path, st)
        files[i] = new
    elif op == 'touch':
        f = rng.choice(files)
        st = os.stat(f.path)
        shift(rng, f.path, st)
    elif op in ('truncate', 'garble', 'binary', 'empty', 'delete', 'fake', 'old_entry', 'wrong_size'):
        if not os.path.exists(cp):
            return 'none'
        b = open(cp, 'rb').read()
        if op == 'truncate':
            b = b[:rng.randrange(len(b) or 1)]
        elif op == 'empty':
            b = b''
        elif op == 'garble':
            b = b[:len(b) // 2] + b'\x00#' + b[len(b) // 2:]
        elif op == 'binary':
            b = bytes(rng.randrange(256) for _ in range(60)) + b'\xff\xfe'
        elif op == 'delete':
            os.unlink(cp)
            return op
        else:
            try:
                entries = json.loads(b)
            except ValueError:
                return 'none'
            if not isinstance(entries, list) or not entries:
                return 'none'
            e = rng.choice(entries)
            if op == 'fake':      # an entry for a file that is not there
                entries.append(dict(e, filename='NO-SUCH-FILE.h5', train_ids=[1, 2]))
            else:                 # contradicting entry, recognisable by size or time
                e['train_ids'] = [7, 8, 9]
                e['control_sources'] = ['WRONG']
                e['instrument_sources'] = []
                if op == 'old_entry':
                    e['mtime'] -= rng.choice([.5, 1, 100])
                else:
                    e['size'] += rng.choice([-1, 1, 2048])
            b = json.dumps(entries, indent=2).encode()
        open(cp, 'wb').write(b)
    return op


def history(rng, scratch, desc):
    files = gen_run(rng, max_seq=3, max_trains=4)
    base = scratch.new()
    os.chmod(scratch.path, 0o755)
    d = os.path.join(base, 'r0001')
    os.mkdir(d)
    spare = []
    if len(files) > 1 and rng.random() < .5:
        spare = [files.pop()]
    write_run(files, d)
    ops = desc['history'] = []
    desc.update(Coll(files).describe())
    open_and_check(d, files, None)
    check_cache(d, files)
    for step in range(rng.randrange(1, 5)):
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append(mutate(rng, d, files, spare))
        ops.append('open')
        open_and_check(d, files, None)
        check_cache(d, files)
        if rng.random() < .3:
            ops.append('open')
            before = open(os.path.join(d, CACHE), 'rb').read()
            open_and_check(d, files, None)
            require(open(os.path.join(d, CACHE), 'rb').read() == before, 'the cache was changed although it was valid')


def denied(rng, scratch, desc):
    """Directories & cache files without read or write permission."""
    files = gen_run(rng, max_seq=2, max_trains=4)
    base = scratch.new()
    os.chmod(scratch.path, 0o755)
    os.chmod(base, 0o755)
    d = os.path.join(base, 'r0001')
    os.mkdir(d)
    write_run(files, d)
    desc.update(Coll(files).describe())
    mode = desc['mode'] = rng.choice(['no_write', 'no_write_cached', 'unreadable', 'unreadable_ro', 'stale_ro', 'dir'])
    cp = os.path.join(d, CACHE)
    if mode in ('no_write_cached', 'unreadable', 'unreadable_ro', 'stale_ro'):
        open_and_check(d, files, None)
        os.chmod(cp, 0o600 if mode.startswith('unreadable') else 0o644)
        os.chown(cp, 0, 0)
    if mode == 'stale_ro':
        entries = json.load(open(cp))
        for e in entries:
            e['train_ids'] = [1]
            e['mtime'] += 1
        json.dump(entries, open(cp, 'w'))
    if mode == 'dir':
        os.mkdir(cp)
    os.chmod(d, 0o777 if mode == 'unreadable' else 0o755)
    old = None if mode == 'dir' or not os.path.exists(cp) else open(cp, 'rb').read()

    if mode == 'dir':
        open_and_check(d, files, None)
        return
    r = as_nobody(lambda: (open_and_check(d, files, None), open_and_check(d, files, None)))
    if r == 'skip':
        return 'skip'
    if mode != 'unreadable':
        require((open(cp, 'rb').read() if os.path.exists(cp) else None) == old, 'a read-only cache was changed')
        require(sorted(x for x in os.listdir(d) if not x.endswith('.h5')) == ([CACHE] if old is not None else []),
                'files left behind: {}', os.listdir(d))
    else:
        check_cache(d, files)


def full_disk(rng, scratch, desc):
    """The cache cannot be written because writing fails."""
    import resource, signal
    files = gen_run(rng, max_seq=2, max_trains=4)
    d = scratch.new()
    os.chmod(scratch.path, 0o755)
    write_run(files, d)
    desc.update(Coll(files).describe())
    limit = desc['limit'] = rng.choice([0, 1, 30, 100])
    cp = os.path.join(d, CACHE)
    if rng.random() < .5:
        open_and_check(d, files, None)
        for f in files:
            st = os.stat(f.path)
            os.utime(f.path, ns=(st.st_atime_ns, st.st_mtime_ns + 10**9))
    old = open(cp, 'rb').read() if os.path.exists(cp) else None
    os.chmod(d, 0o777)
    for f in files:
        os.chmod(f.path, 0o666)

    def go():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        open_and_check(d, files, None)
    if as_nobody(go) == 'skip':
        return 'skip'
    require((open(cp, 'rb').read() if os.path.exists(cp) else None) == old, 'the cache was changed by a failing write')
    require(sorted(x for x in os.listdir(d) if not x.endswith('.h5')) == ([CACHE] if old is not None else []),
            'files left behind: {}', os.listdir(d))


def scratch_cache(rng, scratch, desc):
    """Runs of a proposal keep their cache in the proposal's scratch folder if
    the run itself is read-only."""
    from karabo_data import run_files_map
    files = gen_run(rng, max_seq=2, max_trains=4)
    base = scratch.new()
    os.chmod(scratch.path, 0o755)
    d = os.path.join(base, 'd', 'raw', 'SPB', '201901', 'p002212', 'r0%03d' % rng.randrange(400))
    os.makedirs(d)
    root = os.path.join(base, 'exp') + '/'
    sdir = os.path.join(root, 'SPB', '201901', 'p002212', 'scratch')
    os.makedirs(sdir)
    os.chmod(sdir, 0o777)
    write_run(files, d)
    desc.update(Coll(files).describe())
    alt = os.path.join(sdir, '.karabo_data_maps', 'raw_%s.json' % os.path.basename(d))
    if not hasattr(run_files_map, 'SCRATCH_ROOT_DIR'):
        return 'skip'
    old = run_files_map.SCRATCH_ROOT_DIR
    run_files_map.SCRATCH_ROOT_DIR = root
    try:
        def go():
            open_and_check(d, files, None)
            check_cache(d, files, alt)
            open_and_check(d, files, None)
            e = json.load(open(alt))
            for x in e:
                x['train_ids'] = [3]
                x['size'] -= 1
            json.dump(e, open(alt, 'w'))
            open_and_check(d, files, None)
            check_cache(d, files, alt)
        if as_nobody(go) == 'skip':
            return 'skip'
    finally:
        run_files_map.SCRATCH_ROOT_DIR = old


PARTS = [('history', history, 140), ('denied', denied, 48), ('full_disk', full_disk, 30), ('scratch', scratch_cache, 16)]
