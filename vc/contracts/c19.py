"""C19: streamed messages carry exactly the data fed, in order"""
from ..api import *
from ._model import *
from ..arr import MemView


class Opaque:
    """A value which msgpack can represent"""
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return self.what


class Packed:
    """Bytes from which msgpack recovers the object packed, as it was then"""
    def __init__(self, obj):
        self.obj = dict(obj)


def pack(obj):
    def plain(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if not isinstance(k, str):
                    raise OutOfSubset('key %r' % (k,))
                plain(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                plain(v)
        elif isinstance(x, Arr):
            # the default function of the packer is not asked for arrays in
            # protocol 2.2: packing one fails
            raise TypeError('can not serialize array')
    plain(obj)
    return Packed(obj)


def array(eng, name, nd, dt):
    shape = tuple(eng.fresh('dim_%s%d' % (name, i)) for i in range(nd))
    for d in shape:
        fact(d >= 0)
    f = eng.fresh_fn('elem_' + name, [ISORT] * nd, {'f': RSORT, 'b': BSORT}.get(np.dtype(dt).kind, ISORT)) if nd else None
    v = None if nd else eng.fresh('elem_' + name)
    a = new(shape, np.dtype(dt), lambda idx: f(*[I(i) for i in idx]) if nd else v)
    a.buf.contig = not (nd and eng.choose('%s not contiguous' % name))
    return a


def fed_data(eng):
    arrs = [array(eng, 'a', 2, 'f4'), array(eng, 'b', 1, 'u2'), array(eng, 'c', 0, 'i8')]
    data = VDict()
    data['S/B'] = VDict({'x.value': arrs[0], 'n': sint('scalar', dt='u4'), 'm': Opaque('m'), 'b': arrs[1]})
    if eng.choose('two sources'):
        data['A'] = VDict({'b': arrs[2], 't': Opaque('t'), 'x.value': sreal('y')})
    md = {'S/B': VDict({'timestamp.tid': sint('tid'), 'source': 'S/B'}), 'A': VDict({'q': Opaque('q')})}
    given, want = None, {}
    for s in data:
        inside = VDict({'source': s, 'old': Opaque('old')}) if eng.choose('metadata inside ' + s) else None
        if inside is not None:
            data[s]['metadata'] = inside
        want[s] = inside if inside is not None else {}
    if eng.choose('separate metadata'):
        given = VDict({s: md[s] for s in data if eng.choose('for ' + s)})
        want.update({s: given[s] for s in given})
    return data, given, {s: dict(w) for s, w in want.items()}


def snapshot(d):
    return {k: snapshot(v) for k, v in d.items()} if isinstance(d, dict) else (d, d.buf.fn) if isinstance(d, Arr) else d


def unchanged(d, s):
    if isinstance(d, dict):
        return set(d) == set(s) and all(unchanged(d[k], s[k]) for k in d)
    if isinstance(d, Arr):
        return s[0] is d and d.buf.fn is s[1]
    return d is s


def streamer(version, dummy, queue=None):
    ex = load('export')
    st = object.__new__(ex.ZMQStreamer)
    st.pack, st.protocol_version, st.dummy_timestamps = pack, version, dummy
    st._buffer = queue
    return st


def recovered(name, got, val):
    """A packed scalar is the value (numpy scalars as Python numbers)"""
    if isinstance(val, Sym):
        prove(name, bool(isinstance(got, Sym)) and T(got) == T(val))
        prove(name + '-native', bool(getattr(got, 'dt', None) is None) if isinstance(val, SInt) else True)
    else:
        prove(name, bool(got is val))


def check_metadata(name, got, want, dummy):
    extra = {'timestamp', 'timestamp.sec', 'timestamp.frac'} if dummy and 'timestamp' not in want else set()
    prove(name + '-fields', bool(set(got) == set(want) | extra))
    for k in want:
        if k not in extra:
            prove(name + '-value', bool(got[k] is want[k] or got[k] == want[k]))
    if extra:
        prove(name + '-timestamp', bool(got['timestamp'] == 1234.0625 and got['timestamp.sec'] == '1234' and
                                       got['timestamp.frac'] == '062500000000000000'))


@contract('C19', 'export.ZMQStreamer._serialize', assumes=(
        'msgpack', 'two sources with up to four keys stand for any data', 'karabo-bridge protocol'))
def serialize(eng):
    ex = load('export')
    data, given, want = fed_data(eng)
    dummy = eng.choose('dummy timestamps')
    before, gbefore = snapshot(data), snapshot(given) if given is not None else None
    st = streamer('2.2', dummy)
    with patched(ex, time=lambda: 1234.0625), no_exception('_serialize'):
        msg = st._serialize(data, given)
    msg = list(msg)
    prove('fed-data-unchanged', unchanged(data, before) and (given is None or unchanged(given, gbefore)))
    prove('pairs', len(msg) % 2 == 0)
    seen, arrays = {}, {}
    for h, body in zip(msg[::2], msg[1::2]):
        if not isinstance(h, Packed):
            prove('header-packed', False)
            return
        src = h.obj['source']
        prove('known-source', src in data)
        if h.obj['content'] == 'msgpack':
            prove('once-per-source', src not in seen)
            seen[src] = body.obj
            check_metadata('metadata', h.obj['metadata'], want[src], dummy)
        else:
            prove('array', h.obj['content'] == 'array')
            prove('array-after-source', src in seen)
            key = h.obj['path']
            prove('array-once', (src, key) not in arrays and key in data[src])
            arrays[src, key] = True
            a = data[src][key]
            prove('dtype', bool(np.dtype(h.obj['dtype']) == a.dtype))
            prove('shape-length', len(h.obj['shape']) == len(a._shape))
            for x, y in zip(h.obj['shape'], a._shape):
                prove('shape', T(x) == I(y))
            if not isinstance(body, MemView):
                raise OutOfSubset('array sent as %s' % type(body).__name__)
            b = body.a
            prove('memory-in-order', b.contig)
            prove('memory-type', bool(b.dtype == a.dtype))
            prove('memory-shape', len(b._shape) == len(a._shape) or not a._shape)
            if a._shape:
                with scope('elements'):
                    idx = [skolem('i', 0, I(d)) for d in a._shape]
                    prove('memory-size', z3.And(*[I(x) == I(y) for x, y in zip(b._shape, a._shape)]))
                    prove('elements', at(b, *idx) == at(a, *idx))
            else:
                prove('elements', at(b, *([0] * len(b._shape))) == at(a))
    for src in data:
        prove('every-source', src in seen)
        for key, v in data[src].items():
            if isinstance(v, Arr):
                prove('every-array', (src, key) in arrays)
            elif key == 'metadata':
                continue
            else:
                prove('every-key', key in seen[src])
                recovered('value', seen[src][key], v)
        prove('nothing-else', set(seen[src]) <= set(data[src]))


@contract('C19', 'export.ZMQStreamer._serialize', assumes=('msgpack with msgpack_numpy',))
def serialize_v1(eng):
    ex = load('export')
    data, given, want = fed_data(eng)
    dummy = eng.choose('dummy timestamps')
    before, gbefore = snapshot(data), snapshot(given) if given is not None else None
    st = streamer('1.0', dummy)
    st.pack = Packed
    with patched(ex, time=lambda: 1234.0625), no_exception('_serialize'):
        msg = st._serialize(data, given)
    prove('fed-data-unchanged', unchanged(data, before) and (given is None or unchanged(given, gbefore)))
    prove('one-part', len(msg) == 1 and isinstance(msg[0], Packed))
    got = msg[0].obj
    prove('sources', set(got) == set(data))
    for src, d in data.items():
        md = got[src].get('metadata', {})
        check_metadata('metadata', md, want[src], dummy)
        prove('keys', set(got[src]) - {'metadata'} == set(d) - {'metadata'})
        for k, v in d.items():
            if k != 'metadata':
                prove('value', bool(got[src][k] is v))


class Wire:
    """A REP socket, a queue (trusted: first in, first out) and the others:
    train n is the n-th message fed; taken, sent: how many. Between any two
    calls, the others may feed trains and then tell it to stop."""
    def __init__(self, eng):
        self.eng = eng
        self.taken = self.sent = self.fed = z3.IntVal(0)
        self.stop = False
        self.closed = self.bound = False
        self.requested = False

    def others(self):
        eng = self.eng
        if self.stop is not True:
            m = eng.fresh('fed')
            fact(m >= self.fed)
            self.fed = m
            if eng.choose('told to stop'):
                self.stop = True

    # the socket
    def bind(self, addr):
        self.bound = True

    def recv(self, *a):
        prove('reply-before-next-request', not self.requested)
        self.others()
        if self.eng.choose('wrong request'):
            return b'what'
        self.requested = True
        return b'next'

    def send_multipart(self, msg, *a, **k):
        prove('reply-to-request', self.requested)
        prove('sends-a-message', isinstance(msg, Train))
        prove('sent-in-order-once', z3.And(msg.n == self.sent, self.taken == self.sent + 1))
        self.sent = self.sent + 1
        self.requested = False
        self.others()

    def setsockopt(self, *a):
        pass

    def close(self, *a, **k):
        self.closed = True

    # the queue
    def empty(self):
        self.others()
        return mk_bool(self.taken == self.fed)

    def get(self, *a, **k):
        if a or k:
            raise OutOfSubset('Queue.get with arguments')
        self.others()
        # waits until there is a train; the others feed it, or it waits on
        fact(self.fed > self.taken)
        r = Train(self.taken)
        self.taken = self.taken + 1
        return r

    # the event
    def is_set(self):
        self.others()
        return self.stop is True

    # loop invariant: what is taken was sent, in order
    def prove(self, eng, d, env, when, state=None):
        prove('all-taken-sent (%s)' % when, z3.And(self.taken == self.sent, self.sent <= self.fed))
        prove('no-open-request (%s)' % when, not self.requested)

    def havoc(self, eng, d, env):
        self.taken = self.sent = eng.fresh('sent')
        self.fed = eng.fresh('fed')
        fact(z3.And(self.sent >= 0, self.fed >= self.sent))
        self.stop = eng.choose('stopped')
        self.requested = False
        return {n: Dead('%s of an earlier request' % n) for n in d}


class Train:
    def __init__(self, n):
        self.n = n


@contract('C19', 'export.REPInterface.run', 'export.REPInterface.stopped', assumes=(
        'queue.Queue is first in, first out', 'calls of ZMQ and the queue are atomic', 'no trains are fed after stop'))
def rep_interface(eng):
    ex = load('export')
    w = Wire(eng)
    ri = object.__new__(ex.REPInterface)
    ri.port, ri.buffer, ri._stop_event = 1234, w, w

    class Context:
        def socket(self, kind):
            return w
    ri.context = Context()
    eng.while_specs = {'REPInterface.run': w, 'run': w}
    try:
        ri.run()
    except RuntimeError:
        prove('unknown-request-loses-nothing', w.taken == w.sent)
        prove('closed', w.closed)
        return
    prove('stopped-when-told', w.stop is True)
    prove('everything-sent', w.sent == w.fed)
    prove('closed', w.closed)


@contract('C19', 'export.ZMQStreamer', 'export.ZMQStreamer.feed', 'export.ZMQStreamer.start', 'export.ZMQStreamer.stop',
          'export.REPInterface.stop', assumes=('threading.Thread', 'queue.Queue'))
def feed(eng):
    ex = load('export')
    log = []

    class Q:
        def __init__(self, maxsize=0):
            self.maxsize, self.items = maxsize, []

        def put(self, x, *a, **k):
            if a or k:
                raise OutOfSubset('put with arguments')
            self.items.append(x)

    class Zmq:
        REP = LINGER = 0

        class Context:
            pass

    class Msgpack:
        class Packer:
            def __init__(self, **k):
                self.k = k
                self.pack = pack

    class Interface:
        def __init__(self, context, port, buffer):
            self.args = context, port, buffer

        def start(self):
            log.append(('start', self))

        def stop(self):
            log.append(('stop', self))

        def join(self, *a):
            log.append(('join', self) if not a else ('join with timeout', self))
    maxlen = sint('maxlen', 1)
    mine = lambda self, data, metadata=None: ('message', data, metadata)
    with patched(ex, Queue=Q, zmq=Zmq, msgpack=Msgpack, REPInterface=Interface), \
            patched(ex.ZMQStreamer, _serialize=mine), no_exception('feed'):
        st = ex.ZMQStreamer(1234, maxlen)
        q = st._buffer
        prove('maxlen', T(q.maxsize) == T(maxlen))
        prove('version', st.protocol_version == '2.2' and st.dummy_timestamps is False)
        early = eng.choose('fed before start')
        if early:
            st.feed('d0')
        st.start()
        it = log[-1][1]
        prove('same-queue', bool(log[-1][0] == 'start' and it.args[1:] == (1234, q)))
        if not early:
            st.feed('d0')
        st.feed('d1', {'m': 1})
        st.feed('d2', metadata='md')
        prove('fed-in-order', q.items == [('message', 'd0', None), ('message', 'd1', {'m': 1}), ('message', 'd2', 'md')])
        st.stop()
        prove('stop-waits', [x[0] for x in log] == ['start', 'stop', 'join'] and all(x[1] is it for x in log))
        prove('nothing-lost-by-stop', len(q.items) == 3)
        st.stop()
    try:
        with patched(ex, Queue=Q, zmq=Zmq, msgpack=Msgpack, REPInterface=Interface):
            ex.ZMQStreamer(1, protocol_version='3.0')
    except ValueError:
        return
    prove('unknown-version-raises', False)


class TrainData:
    """Data of train k: may be empty"""
    def __init__(self, m, k):
        self.m, self.k = m, k

    def _subst(self, sub):
        return TrainData(self.m, sub(self.k))

    def __bool__(self):
        return bool(mk_bool(self.m(self.k)))


@contract('C19', 'export.serve_files', assumes=('trains() (C04)', 'select (C02)'))
def serve(eng):
    ex = load('export')
    N = eng.fresh('ntrains')
    fact(N >= 0)
    has = eng.fresh_fn('has_data', [ISORT], BSORT)
    fed, log = VList(), []

    class Data:
        def __init__(self, how, sel=None):
            self.how, self.sel = how, sel

        def select(self, *a, **k):
            return Data(self.how, a)

        def trains(self):
            return VList.from_seq(FnSeq(N, lambda k: (mk_int(I(k)), TrainData(has, I(k)))))

    class Streamer:
        def __init__(self, port, **kw):
            log.append(('new', port, kw))

        def start(self):
            log.append('start')

        def feed(self, data, metadata=None):
            fed.append(data)

        def stop(self):
            log.append('stop')
    used = []

    def opener(kind):
        def f(p):
            used.append((kind, p))
            return Data(kind)
        return f
    isdir = eng.choose('directory')

    class Osp:
        @staticmethod
        def isdir(p):
            return isdir
    with patched(ex, RunDirectory=opener('run'), H5File=opener('file'), ZMQStreamer=Streamer, osp=Osp), no_exception('serve_files'):
        ex.serve_files('PATH', 99, 'S*', 'k*', protocol_version='1.0')
    prove('opened', used == [('run' if isdir else 'file', 'PATH')])
    prove('served', log == [('new', 99, {'protocol_version': '1.0'}), 'start', 'stop'])
    s = as_seq(fed)
    if not isinstance(s, LoopSeq):
        raise OutOfSubset('not fed by one loop')
    with scope('every train'):
        k = skolem('k', 0, N)
        suppose(has(k))
        touch(s, k)
        w = seq_index(s, k, 0)
        have('every-train', z3.And(w >= 0, w < I(s.n)))
        prove('every-train-its-data', s.at(w).k == k)
    with scope('only trains'):
        w = skolem('w', 0, I(s.n))
        v = skolem('v', 0, I(s.n))
        a, b = s.at(w), s.at(v)
        prove('only-trains', z3.And(a.k >= 0, a.k < N))
        prove('in-order', z3.Implies(w < v, a.k < b.k))
