"""Abstract model of XFEL HDF5 runs: generation, writing to disk, and the
specification-level view of a collection (the executable contracts' oracle).

Nothing here imports the code under test.
"""
import os, shutil, tempfile, itertools
import numpy as np, h5py

_counter = itertools.count(1)


def fresh_values(shape, dtype):
    """An array of values that occur nowhere else in this process (as far as
    the dtype allows)."""
    n = int(np.prod(shape)) if shape else 1
    start = 1
    for _ in range(1):
        start = next(_counter)
    vals = np.fromiter((next(_counter) for _ in range(n)), dtype=np.int64, count=n)
    dt = np.dtype(dtype)
    if dt.kind in 'iu' and dt.itemsize < 4:
        vals = vals % (np.iinfo(dt).max - 3) + 1
    return vals.astype(dt).reshape(shape)


class Group:
    """One index group of an instrument source: per-train counts, datasets."""
    def __init__(self, counts, keys):
        self.counts = list(counts)
        self.keys = keys                 # {name: array (sum(counts)+extra, ...)}

    @property
    def firsts(self):
        return [sum(self.counts[:i]) for i in range(len(self.counts))]


class File:
    def __init__(self, name, tids, control=None, instrument=None, fmt='0.5',
                 pad=0, index_style='count', blank_sources=0):
        self.name, self.tids, self.fmt, self.pad = name, list(tids), fmt, pad
        self.control = control or {}        # {src: {key: array (ntrains, ...)}}
        self.instrument = instrument or {}  # {src: {group: Group}}
        self.index_style = index_style
        self.blank_sources = blank_sources
        self.path = None

    def sources(self):
        return set(self.control) | set(self.instrument)

    def keys(self, src):
        if src in self.control:
            return set(self.control[src])
        return {g + '.' + k for g, grp in self.instrument[src].items()
                for k in grp.keys}

    def write(self, dirname):
        self.path = os.path.join(dirname, self.name)
        n, pad = len(self.tids), self.pad
        with h5py.File(self.path, 'w') as f:
            f['INDEX/trainId'] = np.array(self.tids + [0] * pad, dtype='u8')
            ids = []
            for src, keys in self.control.items():
                ids.append('CONTROL/' + src)
                self._index(f, src, np.arange(n), np.ones(n, int))
                f.require_group('CONTROL/' + src)
                for key, arr in keys.items():
                    a = np.concatenate([arr, np.zeros((pad,) + arr.shape[1:], arr.dtype)])
                    f['CONTROL/{}/{}'.format(src, key.replace('.', '/'))] = a
            for src, groups in self.instrument.items():
                for gname, grp in groups.items():
                    ids.append('INSTRUMENT/{}/{}'.format(src, gname))
                    self._index(f, src + '/' + gname, np.array(grp.firsts, int),
                                np.array(grp.counts, int))
                    for key, arr in grp.keys.items():
                        f['INSTRUMENT/{}/{}/{}'.format(src, gname, key.replace('.', '/'))] = arr
            ids = [i.encode() for i in ids]
            for i in range(self.blank_sources):   # at the end, or between others
                ids.insert(len(ids) if (self.pad + i) % 2 else min(i, len(ids)), b'')
            if self.fmt == '0.5':
                p = 'METADATA/'
            else:
                p = 'METADATA/dataSources/'
                f.create_dataset('METADATA/dataFormatVersion',
                                 data=np.array([self.fmt.encode()], dtype=h5py.special_dtype(vlen=bytes)),
                                 dtype=h5py.special_dtype(vlen=bytes))
            ds = f.create_dataset(p + 'dataSourceId', (len(ids),), dtype=h5py.special_dtype(vlen=bytes),
                                  maxshape=(None,))
            if ids:
                ds[:] = ids
        return self.path

    def _index(self, f, path, first, count):
        pad = [0] * self.pad
        first = np.array(list(first) + pad, dtype='u8')
        count = np.array(list(count) + pad, dtype='u8')
        if self.index_style == 'count':
            f['INDEX/{}/first'.format(path)] = first
            f['INDEX/{}/count'.format(path)] = count
        else:
            f['INDEX/{}/first'.format(path)] = first
            status = (count > 0).astype('u4' if self.index_style == 'last' else 'u8')
            last = np.where(count > 0, first + count - np.uint64(1), first).astype('u8')
            f['INDEX/{}/last'.format(path)] = last
            f['INDEX/{}/status'.format(path)] = status


class Coll:
    """Specification-level collection: files, {source: keys}, train IDs."""
    def __init__(self, files, sel=None, tids=None):
        self.files = list(files)
        if sel is None:
            sel = {}
            for f in self.files:
                for s in f.sources():
                    sel.setdefault(s, set()).update(f.keys(s))
        self.sel = {s: set(k) for s, k in sel.items()}
        if tids is None:
            tids = set()
            for f in self.files:
                tids.update(f.tids)
        self.tids = sorted(tids)

    def all_keys(self, src):
        return set().union(*[f.keys(src) for f in self.files if src in f.sources()])

    def is_control(self, src):
        return any(src in f.control for f in self.files)

    def rows(self, src, key, tid):
        """Entries of (src, key) in train tid: (n, ...) array; None if no file
        records this source for that train."""
        for f in self.files:
            if tid not in f.tids:
                continue
            i = f.tids.index(tid)
            if src in f.control:
                return f.control[src][key][i:i + 1]
            if src in f.instrument:
                g, _, k = key.partition('.')
                grp = f.instrument[src][g]
                first = grp.firsts[i]
                return grp.keys[k][first:first + grp.counts[i]]
        return None

    def has(self, src, key, tid):
        r = self.rows(src, key, tid)
        return r is not None and len(r) > 0

    def pulse_ids(self, src, group, tid):
        return self.rows(src, group + '.pulseId', tid)

    def item(self, src, key):
        """(item shape, dtype) of a key"""
        for f in self.files:
            if src in f.control:
                a = f.control[src][key]
            elif src in f.instrument:
                g, _, k = key.partition('.')
                a = f.instrument[src][g].keys[k]
            else:
                continue
            return a.shape[1:], a.dtype

    def array(self, src, key):
        """Expected (labels, rows) over all selected trains"""
        shp, dt = self.item(src, key)
        labels, parts = [], [np.zeros((0,) + shp, dt)]
        for t in self.tids:
            r = self.rows(src, key, t)
            if r is None:
                continue
            labels += [t] * len(r)
            parts.append(r)
        return np.array(labels, dtype='u8'), np.concatenate(parts)

    def with_trains(self, tids):
        return Coll(self.files, self.sel, tids)

    def with_sel(self, sel):
        return Coll(self.files, sel, self.tids)

    def complete(self, tid):
        return all(self.has(s, k, tid) for s in self.sel for k in self.sel[s])

    def describe(self):
        out = []
        for f in self.files:
            out.append({'name': f.name, 'fmt': f.fmt, 'pad': f.pad, 'index': f.index_style,
                        'trains': f.tids,
                        'control': {s: sorted(k) for s, k in f.control.items()},
                        'instrument': {s: {g: {'counts': grp.counts, 'keys': sorted(grp.keys)}
                                           for g, grp in gs.items()}
                                       for s, gs in f.instrument.items()}})
        return {'files': out, 'selection': {s: sorted(k) for s, k in self.sel.items()},
                'trains': self.tids}


# ------------------------------------------------------------------ generator

CTRL_SOURCES = ['SA1_XTD2_XGM/DOOCS/MAIN', 'SPB_XTD9_XGM/DOOCS/MAIN', 'FXE_MOT/X1']
INST_SOURCES = ['SA1_XTD2_XGM/DOOCS/MAIN:output', 'SPB_CAM/1:daqOutput', 'FXE_ADC/2:network']


def gen_tids(rng, n, base=None, gaps=True):
    t = base if base is not None else 10000 + rng.randrange(5)
    out = []
    for _ in range(n):
        out.append(t)
        t += 1 + (rng.choice([0, 0, 0, 1, 2, 5]) if gaps else 0)
    return out


def gen_control(rng, n, simple=False):
    keys = {'pos.value': fresh_values((n,), 'f4'),
            'pos.timestamp': fresh_values((n,), 'u8')}
    if not simple:
        keys['spectrum.value'] = fresh_values((n, 3), 'f8')
        keys['a.b.value'] = fresh_values((n,), 'i4')
    return keys


def gen_counts(rng, n, mode=None):
    mode = mode or rng.choice(['one', 'const', 'vary', 'zeros', 'mostly0'])
    if mode == 'one':
        return [1] * n
    if mode == 'const':
        c = rng.randrange(1, 4)
        return [c] * n
    if mode == 'zeros':
        return [0] * n
    if mode == 'mostly0':
        return [rng.choice([0, 0, 1, 2]) for _ in range(n)]
    return [rng.choice([0, 1, 1, 2, 3]) for _ in range(n)]


def gen_instrument(rng, n, spare=None):
    groups = {}
    for g in ['data'] + (['header'] if rng.random() < .5 else []):
        c = gen_counts(rng, n)
        tot = sum(c) + (rng.choice([0, 0, 3]) if spare is None else spare)
        groups[g] = Group(c, {'x': fresh_values((tot,), 'f4'),
                              'img': fresh_values((tot, 2, 3), 'u4'),
                              'sub.y': fresh_values((tot, 1), 'i8')})
    return groups


def gen_run(rng, max_seq=3, max_trains=6, n_ctrl=None, n_inst=None, fmt=None,
            allow_empty_file=True, clean=False):
    """A run: DA files (control + instrument) in sequences, plus a second
    aggregator whose sequences may start earlier/later than the first's."""
    files = []
    nctrl = rng.randrange(0, 3) if n_ctrl is None else n_ctrl
    ninst = rng.randrange(0, 3) if n_inst is None else n_inst
    if nctrl + ninst == 0:
        nctrl = 1
    ctrl = CTRL_SOURCES[:nctrl]
    inst = INST_SOURCES[:ninst]
    split = rng.random() < .5 and nctrl + ninst > 1
    aggs = [('DA01', ctrl, inst)]
    if split:
        aggs = [('DA01', ctrl, []), ('DA02', [], inst)] if (ctrl and inst and rng.random() < .6) else \
               [('DA01', ctrl[:1], inst[:1]), ('DA02', ctrl[1:], inst[1:])]
        aggs = [a for a in aggs if a[1] or a[2]]
    base0 = 10000 + rng.randrange(3)
    # the groups/keys of a source are the same in all its files
    inst_groups = {s: ['data'] + (['header'] if rng.random() < .5 else []) for s in inst}
    for agg, cs, is_ in aggs:
        base = base0 + (rng.choice([0, 0, 1, 3]) if len(aggs) > 1 else 0)
        nseq = rng.randrange(1, max_seq + 1)
        names = list(range(nseq))
        if rng.random() < .3:
            rng.shuffle(names)     # names need not sort in train order
        for seq in range(nseq):
            n = rng.randrange(1, max_trains + 1)
            if allow_empty_file and rng.random() < .06:
                n = 0
            tids = gen_tids(rng, n, base, gaps=rng.random() < .6)
            if tids:
                base = tids[-1] + 1 + rng.choice([0, 0, 0, 1, 4])
            f = File('RAW-R0001-{}-S{:05d}.h5'.format(agg, names[seq]), tids,
                     fmt=(fmt or rng.choice(['0.5', '1.0'])),
                     pad=rng.choice([0, 0, 0, 1, 4]),
                     index_style=rng.choice(['count', 'count', 'last', 'last64']),
                     blank_sources=rng.choice([0, 0, 2]))
            for s in cs:
                f.control[s] = gen_control(rng, n)
            for s in is_:
                groups = {}
                for g in inst_groups[s]:
                    c = gen_counts(rng, n)
                    tot = sum(c) + rng.choice([0, 0, 3])
                    groups[g] = Group(c, {'x': fresh_values((tot,), 'f4'),
                                          'img': fresh_values((tot, 2, 3), 'u4'),
                                          'sub.y': fresh_values((tot, 1), 'i8')})
                f.instrument[s] = groups
            files.append(f)
    rng.shuffle(files)
    return files


class Scratch:
    """A scratch directory, removed at the end."""
    def __init__(self, prefix='kdv-'):
        self.path = tempfile.mkdtemp(prefix=prefix)
        self.n = 0

    def new(self):
        self.n += 1
        p = os.path.join(self.path, 'r%05d' % self.n)
        os.mkdir(p)
        return p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
