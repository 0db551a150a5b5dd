"""C11 atomic replacement of the cache file: faults and crashes at every step."""
import errno, json, os, pickle, signal, sys
from .base import require, Fail
from .model import Scratch


def gen_obj(rng):
    k = rng.choice(['empty', 'small', 'large', 'bad', 'badlate', 'unicode'])
    entry = lambda i: {'filename': 'RAW-R%04d-DA01-S%05d.h5' % (rng.randrange(9999), i), 'mtime': rng.random() * 1e9,
                       'size': rng.randrange(10**6), 'train_ids': [10000 + j for j in range(rng.randrange(20))],
                       'control_sources': ['A/B/C'] * rng.randrange(3), 'instrument_sources': []}
    if k == 'empty':
        return k, []
    if k == 'small':
        return k, [entry(0)]
    if k == 'unicode':
        return k, [dict(entry(0), filename='r\u00fcn-\u2713.h5')]
    if k == 'large':
        return k, [entry(i) for i in range(60)]
    if k == 'bad':
        return k, [{'x': object()}]
    return k, [entry(i) for i in range(40)] + [{'x': {1, 2}}]


def child(path, obj, action, point, limit):
    """Call the real function with a fault at the point-th step."""
    from karabo_data.run_files_map import atomic_dump
    import resource
    counter = [0]
    armed = [False]
    real_exit = os._exit

    def hit(what):
        if not armed[0]:
            return
        counter[0] += 1
        if counter[0] == point:
            armed[0] = False
            if action == 'crash':
                real_exit(77)
            if action == 'fail':
                raise OSError(errno.ENOSPC, 'injected failure in ' + what)
            if action == 'interrupt':
                raise KeyboardInterrupt('injected in ' + what)
            if action == 'signal':
                raise KeyboardInterrupt('injected in ' + what)

    if action in ('fail', 'count_fail', 'signal'):
        def prof(frame, event, arg):
            if event == 'c_call':
                mod = getattr(arg, '__module__', None) or type(getattr(arg, '__self__', None)).__module__
                name = getattr(arg, '__name__', '')
                if mod in ('posix', '_io', 'io', 'nt') and name in (
                        'open', 'write', 'close', 'flush', 'replace', 'rename', 'link', 'fsync', 'fdatasync',
                        'truncate', 'writelines', '__exit__', 'mkdir', 'symlink', 'sendfile', 'fdopen', 'ftruncate'):
                    hit(name)
        start, stop = (lambda: sys.setprofile(prof)), (lambda: sys.setprofile(None))
    elif action in ('crash', 'interrupt', 'count'):
        def trace(frame, event, arg):
            if event in ('line', 'call', 'return'):
                hit(event)
            return trace
        start, stop = (lambda: sys.settrace(trace)), (lambda: sys.settrace(None))
    else:
        start = stop = lambda: None
    if limit is not None:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        armed[0] = True
        start()
        try:
            atomic_dump(obj, path, indent=2)
        finally:
            armed[0] = False
            stop()
        return 'done', counter[0]
    except BaseException as e:
        return 'raised:' + type(e).__name__, counter[0]


def run_child(*a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = child(*a)
            os.write(w, pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('crashed', None)


def setup(rng, scratch):
    d = scratch.new()
    path = os.path.join(d, 'karabo_data_map.json')
    old = rng.choice([None, b'', b'[{"filename": "x"', json.dumps([{'filename': 'old'}] * rng.randrange(300)).encode()])
    if old is not None:
        open(path, 'wb').write(old)
    return d, path, old


def current(path):
    return open(path, 'rb').read() if os.path.exists(path) else None


def check_content(path, old, obj, where):
    cur = current(path)
    if cur == old:
        return 'old'
    try:
        ok = json.loads(cur) == obj
    except Exception:
        ok = False
    require(ok, '{}: the cache file is neither the old nor the complete new content: {!r}', where, cur and cur[:120])
    return 'new'


def clean(d, path, old):
    import shutil
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    if old is not None:
        open(path, 'wb').write(old)


def faults(rng, scratch, desc):
    d, path, old = setup(rng, scratch)
    kind, obj = gen_obj(rng)
    desc.update(content=kind, old=None if old is None else len(old))
    good = not kind.startswith('bad')
    st, _ = run_child(path, obj, None, 0, None)
    if good:
        require(st == 'done', 'writing failed: {}', st)
        require(check_content(path, None, obj, 'normal') == 'new', 'not written')
        require(os.listdir(d) == [os.path.basename(path)], 'left behind: {}', os.listdir(d))
    else:
        require(st.startswith('raised'), 'unserialisable content did not fail')
        require(current(path) == old and set(os.listdir(d)) <= {os.path.basename(path)}, 'left behind: {}', os.listdir(d))
    for action, count in (('crash', 'count'), ('interrupt', 'count'), ('fail', 'count_fail'),
                          ('signal', 'count_fail')):
        clean(d, path, old)
        _, n = run_child(path, obj, count, 0, None)
        pts = list(range(1, n + 1))
        if len(pts) > 36:
            pts = pts[:9] + pts[-12:] + sorted(rng.sample(pts[9:-12], 10))
        for k in pts:
            clean(d, path, old)
            st, _ = run_child(path, obj, action, k, None)
            where = '{} at step {} ({})'.format(action, k, st)
            desc['fault'] = where
            res = check_content(path, old, obj, where)
            if st == 'done' and good:
                # the step's failure was not reported: then it must be complete
                require(check_content(path, None, obj, where) == 'new', '{}: the failed write was not reported', where)
            if action in ('fail', 'signal') and st != 'done':
                rest = set(os.listdir(d)) - {os.path.basename(path)}
                require(not rest, '{}: temporary file left behind: {}', where, rest)
    # the disk is full after n bytes
    for limit in (0, 1, 40, 4000):
        clean(d, path, None if old is None else old[:limit])
        o = current(path)
        st, _ = run_child(path, obj, None, 0, limit)
        where = 'no space after {} bytes ({})'.format(limit, st)
        check_content(path, o, obj, where)
        if st == 'done':
            require(check_content(path, None, obj, where) == 'new', '{}: failure not reported', where)
        rest = set(os.listdir(d)) - {os.path.basename(path)}
        require(not rest, '{}: temporary file left behind: {}', where, rest)
    # the final path cannot be replaced
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.mkdir(path)
    st, _ = run_child(path, obj, None, 0, None)
    require(st.startswith('raised'), 'replacing a directory was not reported as a failure')
    require(os.listdir(d) == [os.path.basename(path)], 'final path is a directory: left behind {}', os.listdir(d))
    os.rmdir(path)


PARTS = [('faults', faults, 32)]
