"""C19 Streaming: messages carry exactly the data fed, in order."""
import copy, socket, threading, time
from .common import *
import msgpack, msgpack_numpy, zmq
from karabo_data.export import ZMQStreamer, serve_files

DT = ['u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8', 'f2', 'f4', 'f8', '>u2', '>i4', '>f4', '>f8', '?', 'c8', 'c16']
SCALARS = ['u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8', 'f2', 'f4', 'f8', '?']


def rand_array(rng):
    nd = rng.choice([0, 1, 1, 2, 3])
    shp = tuple(rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(nd))
    dt = np.dtype(rng.choice(DT))
    npr = np.random.default_rng(rng.randrange(2**32))
    a = npr.integers(0, 256, shp + (dt.itemsize,), dtype='u1')
    if dt.kind == 'b':
        a &= 1
    a = np.ascontiguousarray(a).view(dt).reshape(shp)
    how = rng.choice(['c', 'c', 'f', 'neg', 'step', 'transposed', 'broadcast', 'readonly', 'offset'])
    if how == 'f':
        a = np.asfortranarray(a)
    elif how == 'neg' and nd:
        a = a[::-1]
    elif how == 'step' and nd:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif how == 'transposed':
        a = a.T
    elif how == 'broadcast':
        a = np.broadcast_to(a, (2,) + a.shape)
    elif how == 'readonly':
        a.setflags(write=False)
    elif how == 'offset' and nd:
        a = a[1:]
    return a


def rand_builtin(rng, depth=0):
    k = rng.randrange(9 if depth < 2 else 6)
    if k == 0:
        return rng.choice([0, 1, -1, 127, 128, 255, 256, -129, 2**31, 2**32, 2**63 - 1, -2**63, 2**64 - 1])
    if k == 1:
        return rng.choice([0., -0., 1.5, float('inf'), 1e-300, 0.1])
    if k == 2:
        return rng.choice(['', 'abc', 'ünï', 'x' * 40])
    if k == 3:
        return rng.choice([b'', b'\x00\xff', b'abc' * 20])
    if k == 4:
        return rng.choice([True, False])
    if k == 5:
        return None
    if k in (6, 7):
        return [rand_builtin(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {'k%d' % i: rand_builtin(rng, depth + 1) for i in range(rng.randrange(3))}


def rand_meta(rng):
    md = {}
    if rng.random() < .8:
        md['source'] = 'a/b'
    if rng.random() < .7:
        md['timestamp.tid'] = rng.choice([10000, np.uint64(10001), 2**60])
    if rng.random() < .3:
        md.update({'timestamp': 12.5, 'timestamp.sec': '12', 'timestamp.frac': '5' + '0' * 17})
    if rng.random() < .1:
        md = {}
    return md


def rand_train(rng):
    data = {}
    for i in range(rng.choice([0, 1, 1, 2, 4])):
        src = rng.choice(['SRC/%d', 'a%d', 'Z/Y/%d:output', 'é/%d']) % rng.randrange(20)
        props = {}
        for j in range(rng.randrange(5)):
            key = rng.choice(['x.value', 'image.data', 'k', 'a.b.c', 'content', 'source']) + str(j)
            r = rng.random()
            if r < .4:
                props[key] = rand_array(rng)
            elif r < .6:
                props[key] = np.dtype(rng.choice(SCALARS)).type(rng.choice([0, 1, 3, 100]))
            else:
                props[key] = rand_builtin(rng)
        if rng.random() < .6:
            props['metadata'] = rand_meta(rng)
        data[src] = props
    return data


def equal(a, b):
    """b recovered from a message, a the value fed"""
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (np.number, np.bool_)):
        return not isinstance(b, np.ndarray) and bool(a == b or (a != a and b != b)) and \
            (isinstance(b, (bool, np.bool_)) == isinstance(a, np.bool_)) and \
            (isinstance(b, (int, np.integer)) or not isinstance(a, np.integer))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, float):
        return isinstance(b, float) and (a == b) and (str(a) == str(b))
    return type(a) is type(b) and a == b


def decode(version, msg):
    """Independent decoder of the Karabo bridge protocol"""
    # zmq sends the memory of a buffer as it is
    msg = [memoryview(m).tobytes(order='A') if not isinstance(m, bytes) else m for m in msg]
    if version == '1.0':
        require(len(msg) == 1, '{} message parts in protocol 1.0', len(msg))
        d = msgpack.unpackb(msg[0], raw=False, strict_map_key=False, object_hook=msgpack_numpy.decode)
        return d, {s: v.get('metadata', {}) for s, v in d.items()}
    require(len(msg) % 2 == 0, '{} message parts', len(msg))
    data, meta = {}, {}
    for i in range(0, len(msg), 2):
        h = msgpack.unpackb(msg[i], raw=False)
        s = h['source']
        if h['content'] == 'msgpack':
            require(s not in data, 'source {} twice in the message', s)
            data[s] = msgpack.unpackb(msg[i + 1], raw=False)
            meta[s] = h['metadata']
        else:
            require(h['content'] == 'array' and s in data, 'content {}', h['content'])
            dt = np.dtype(h['dtype'])
            n = int(np.prod(h['shape'], dtype=int))
            require(len(msg[i + 1]) == n * dt.itemsize, 'array {}: {} bytes for {} {}', h['path'], len(msg[i + 1]), h['shape'], dt)
            require(h['path'] not in data[s], 'key {} twice', h['path'])
            data[s][h['path']] = np.frombuffer(msg[i + 1], dt, count=n).reshape(h['shape'])
    return data, meta


def check_msg(version, msg, data, meta, dummy, separate):
    got, gmeta = decode(version, msg)
    require(set(got) == set(data), 'sources {} instead of {}', sorted(got), sorted(data))
    for s in data:
        exp_meta = dict(meta.get(s, {}))
        if dummy and 'timestamp' not in exp_meta:
            for k in ('timestamp', 'timestamp.sec', 'timestamp.frac'):
                require(k in gmeta[s], '{}: no dummy {}', s, k)
            t = gmeta[s]['timestamp']
            require(abs(t - time.time()) < 60 and float(gmeta[s]['timestamp.sec']) == int(t) and
                    len(gmeta[s]['timestamp.frac']) == 18 and abs(int(gmeta[s]['timestamp.frac']) / 1e18 - t % 1) < 1e-5,
                    'dummy timestamp {}', gmeta[s])
            exp_meta.update({k: gmeta[s][k] for k in ('timestamp', 'timestamp.sec', 'timestamp.frac')})
        require(equal(exp_meta, gmeta[s]), '{}: metadata {} instead of {}', s, gmeta[s], exp_meta)
        a = {k: v for k, v in data[s].items() if k != 'metadata'}
        b = {k: v for k, v in got[s].items() if k != 'metadata'}
        require(set(a) == set(b), '{}: keys {} instead of {}', s, sorted(b), sorted(a))
        for k in a:
            require(equal(a[k], b[k]), '{}, {}: {!r} instead of {!r}', s, k, b[k], a[k])
        if version != '1.0' and 'metadata' in data[s]:
            require('metadata' in got[s], '{}: metadata lost from the data', s)


def snapshot(x):
    return copy.deepcopy(x)


def same_obj(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_obj(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return type(a) is type(b) and (a == b or a != a)


def serialize(rng, scratch, desc):
    version = rng.choice(['1.0', '2.2', '2.2'])
    dummy = rng.random() < .4
    st = ZMQStreamer(1, protocol_version=version, dummy_timestamps=dummy)
    for _ in range(5):
        data = rand_train(rng)
        separate = None
        meta = {s: v.get('metadata', {}) for s, v in data.items()}
        if rng.random() < .4:
            separate = {s: rand_meta(rng) for s in data if rng.random() < .8}
            # separate metadata first, otherwise that in the data
            meta = {s: separate.get(s) or meta[s] for s in data}
        desc.update(version=version, dummy=dummy, data=repr(data)[:600], metadata=repr(separate))
        d0, m0 = snapshot(data), snapshot(separate)
        meta = snapshot(meta)
        st.feed(data, separate) if separate is not None else st.feed(data)
        require(same_obj(data, d0), 'feeding changed the data')
        require(same_obj(separate, m0) if separate is not None else True, 'feeding changed the metadata')
        check_msg(version, st._buffer.get_nowait(), d0, meta, dummy, separate)


def free_port():
    with socket.socket() as s:
        s.bind(('', 0))
        return s.getsockname()[1]


def requester(port, n, out, delays, version):
    ctx = zmq.Context()
    s = ctx.socket(zmq.REQ)
    s.setsockopt(zmq.LINGER, 0)
    s.setsockopt(zmq.RCVTIMEO, 20000)
    s.connect('tcp://localhost:%d' % port)
    try:
        for i in range(n):
            time.sleep(delays[i % len(delays)])
            s.send(b'next')
            out.append(s.recv_multipart())
    except Exception as e:
        out.append(e)
    finally:
        s.close()
        ctx.term()


def stream(rng, scratch, desc):
    version = rng.choice(['1.0', '2.2'])
    maxlen = rng.choice([1, 2, 3, 10])
    n = rng.choice([1, 3, 6])
    port = free_port()
    st = ZMQStreamer(port, maxlen=maxlen, protocol_version=version)
    desc.update(version=version, maxlen=maxlen, trains=n)
    trains = []
    for i in range(n):
        d = rand_train(rng)
        d['idx'] = {'i': i, 'arr': np.arange(i, i + 3)}
        trains.append(d)
    st.start()
    out = []
    delays = [rng.choice([0, 0, .002, .01]) for _ in range(4)]
    fdelays = [rng.choice([0, 0, .002, .01]) for _ in range(4)]
    th = threading.Thread(target=requester, args=(port, n, out, delays, version), daemon=True)
    early = rng.random() < .5
    if early:
        th.start()
    fed = []

    def feeder():
        for i, d in enumerate(trains):
            time.sleep(fdelays[i % 4])
            st.feed(d)
            fed.append(i)
    fth = threading.Thread(target=feeder, daemon=True)
    fth.start()
    if not early:
        time.sleep(.05)
        # nothing was requested: exactly maxlen trains go in without blocking
        for _ in range(200):
            if len(fed) >= min(n, maxlen):
                break
            time.sleep(.01)
        require(len(fed) == min(n, maxlen), '{} trains accepted without blocking, of {} (maxlen {})', len(fed), n, maxlen)
        th.start()
    th.join(30)
    fth.join(30)
    require(not th.is_alive() and not fth.is_alive(), 'streaming did not finish')
    require(len(out) == n, '{} trains received instead of {}', len(out), n)
    for i, m in enumerate(out):
        require(not isinstance(m, Exception), 'request {} failed: {}', i, m)
        got = decode(version, m)[0]
        require(got['idx']['i'] == i, 'request {} got train {}', i, got['idx']['i'])
        check_msg(version, m, trains[i], {s: v.get('metadata', {}) for s, v in trains[i].items()}, False, None)
    require(st._buffer.empty(), 'trains left over')


def files(rng, scratch, desc):
    """serve_files streams every train of the run"""
    fs = gen_run(rng, max_seq=2, max_trains=9, allow_empty_file=False)
    d = scratch.new()
    write_run(fs, d)
    spec = Coll(fs)
    version = rng.choice(['1.0', '2.2'])
    port = free_port()
    maxlen = rng.choice([1, 3, 10])
    src = '*' if rng.random() < .5 else rng.choice(sorted(spec.sel))
    if src != '*':
        spec = spec.with_sel({src: spec.sel[src]})
    desc.update(spec.describe(), maxlen=maxlen, version=version)
    out = []
    sth = threading.Thread(target=serve_files, args=(d, port), daemon=True,
                           kwargs=dict(source_glob=src, maxlen=maxlen, protocol_version=version))
    sth.start()
    n = len(spec.tids)
    th = threading.Thread(target=requester, args=(port, n, out, [.005 if rng.random() < .5 else .05], version), daemon=True)
    th.start()
    th.join(40)
    require(not th.is_alive() and len(out) == n and not any(isinstance(m, Exception) for m in out),
            '{} of {} trains received', len([m for m in out if not isinstance(m, Exception)]), n)
    for t, m in zip(spec.tids, out):
        got, meta = decode(version, m)
        want = {s: {k for k in spec.sel[s] if spec.has(s, k, t)} for s in spec.sel}
        require(set(got) == set(want), 'train {}: sources {} instead of {}', t, sorted(got), sorted(want))
        for s in want:
            require(int(meta[s]['timestamp.tid']) == t and meta[s]['source'] == s, 'train {}: metadata {}', t, meta[s])
            require(set(got[s]) - {'metadata'} == want[s], 'train {}, {}: keys {} instead of {}', t, s, sorted(got[s]), want[s])
            for k in want[s]:
                v = squeeze1(spec.rows(s, k, t))
                g = got[s][k]
                require(np.array_equal(g, v) and (np.ndim(v) == 0 or np.asarray(g).dtype == np.asarray(v).dtype),
                        'train {}, {} {}: {!r} instead of {!r}', t, s, k, g, v)


PARTS = [('serialize', serialize, 250), ('stream', stream, 24), ('files', files, 16)]
