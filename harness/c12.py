"""C12 detector data assembly."""
from .common import *
from .detmodel import *
from karabo_data import components


def is_nan(x):
    return x.dtype.kind == 'f' and np.isnan(x).all()


def gen_sel(rng, r):
    """(argument, predicate(pulse id, position), description)"""
    kind = rng.choice(['all', 'all', 'id_slice', 'id_list', 'id_int', 'ix_slice', 'ix_list', 'ix_int', 'default'])
    if kind == 'default':
        return None, (lambda p, i: True), kind
    if kind == 'all':
        return rng.choice([by_id, by_index])[:], (lambda p, i: True), kind
    cls = by_id if kind.startswith('id') else by_index
    top = 13 if cls is by_id else r.frames + 2
    pick = (lambda p, i: p) if cls is by_id else (lambda p, i: i)
    if kind.endswith('slice'):
        a = rng.choice([None, rng.randrange(top)])
        b = rng.choice([None, rng.randrange(top)])
        st = rng.choice([None, 1, 2, 3])
        rngv = range(a or 0, 10**6 if b is None else b, st or 1)
        return cls[slice(a, b, st)], (lambda p, i: pick(p, i) in rngv), repr((cls.__name__, a, b, st))
    if kind.endswith('int'):
        v = rng.randrange(top)
        return cls[v], (lambda p, i: pick(p, i) == v), repr((cls.__name__, v))
    vs = rng.sample(range(top), rng.randrange(1, min(4, top) + 0) if top > 1 else 1)
    if cls is by_index and rng.random() < .7:
        vs = sorted(vs)
    arg = rng.choice([list, tuple, np.array])(vs)
    return cls[arg], (lambda p, i: pick(p, i) in vs), repr((cls.__name__, vs))


def check_labelled(arr, want, key, mods, extra, where):
    """arr: DataArray (module, train, pulse, ...); want {(m, t, p): value}"""
    dims = ('module', 'train', 'pulse')
    require(tuple(arr.dims[:3]) == dims, '{}: dimensions {}', where, arr.dims)
    require([int(m) for m in arr.coords['module'].values] == mods, '{}: modules {}', where, arr.coords['module'].values)
    trains = sorted({t for _, t, _ in want})
    pulses = sorted({p for _, _, p in want})
    at = [int(t) for t in arr.coords['train'].values] if 'train' in arr.coords else []
    ap = [int(p) for p in arr.coords['pulse'].values] if 'pulse' in arr.coords else []
    if not want:
        require(arr.size == 0 or is_nan(arr.values), '{}: data for nothing', where)
        return
    require(at == trains, '{}: trains {} instead of {}', where, at, trains)
    require(sorted(ap) == pulses, '{}: pulses {} instead of {}', where, ap, pulses)
    v = arr.values
    n = 0
    for a, m in enumerate(mods):
        for b, t in enumerate(at):
            for c, p in enumerate(ap):
                x = v[a, b, c]
                e = want.get((m, t, p))
                if e is None:
                    require(is_nan(np.asarray(x)), '{}: module {} train {} pulse {} has no data but gives {!r}', where, m, t, p, x)
                else:
                    require(np.shape(x) == np.shape(e) and np.array_equal(np.asarray(x, 'f8'), np.asarray(e, 'f8')),
                            '{}: module {} train {} pulse {}: {!r} instead of {!r}', where, m, t, p, x, e)
    if len(want) == v[:, :, :].size // max(1, int(np.prod(extra))):
        pass


def case(rng, scratch, desc):
    r = gen_det(rng)
    desc.update(describe(r))
    d = scratch.new()
    write_run(r.files, d)
    dc = kd.RunDirectory(d)
    other = rng.random() < .2
    mods = sorted(r.source)
    present = {t: [m for m in mods if r.rows(m, 'image.data', t) is not None] for t in r.all_tids}
    cls = getattr(components, r.cls)
    kw = {}
    if rng.random() < .3:
        mods = sorted(rng.sample(mods, rng.randrange(1, len(mods) + 1)))
        kw['modules'] = rng.choice([list, set, tuple])(mods + ([33] if rng.random() < .2 else []))
    mm = 1
    if rng.random() < .5:
        mm = kw['min_modules'] = rng.randrange(1, len(mods) + 1)
    if rng.random() < .3:
        kw['detector_name'] = r.name
    desc['args'] = {k: repr(v) for k, v in kw.items()}
    if rng.random() < .3:
        tl = rand_train_list(rng, Coll(r.files)) or [r.all_tids[0]]
        present = {t: present[t] for t in present if t in tl}
        if not any(t in f.tids for f in r.files for t in tl):
            return 'skip'
        dc = dc.select_trains(by_id[tl])
        desc['selected'] = tl
    present = {t: [m for m in p if m in mods] for t, p in present.items()}
    # modules whose files were all dropped because none has a selected train
    src_left = {m for m in mods if r.source[m] in dc.all_sources}
    mods = [m for m in mods if m in src_left]
    if not mods:
        return 'skip'
    want_tids = sorted(t for t, p in present.items() if len(p) >= mm)
    if not want_tids:
        raises(ValueError, lambda: cls(dc, **kw), 'no train with {} modules'.format(mm))
        return
    det = cls(dc, **kw)
    require([int(t) for t in det.train_ids] == want_tids, 'trains {} instead of {}', det.train_ids, want_tids)
    require(int(det.frames_per_train) == r.frames, 'frames per train')
    require(sorted(det.modno_to_source) == mods and
            all(det.modno_to_source[m] == r.source[m] for m in mods), 'modules {} instead of {}', det.modno_to_source, mods)
    keys = ['image.data', 'image.pulseId', 'image.cellId', 'image.trainId'] + ([] if r.raw else ['image.gain'])

    def expect(key, pred, tids, modlist):
        want = {}
        for m in modlist:
            for t in tids:
                rows = r.rows(m, key, t)
                if rows is None:
                    continue
                for i, p in enumerate(r.pulses[t]):
                    if pred(p, i):
                        want[m, t, p] = rows[i]
        return want
    for _ in range(4):
        sel, pred, txt = gen_sel(rng, r)
        key = rng.choice(keys)
        where = 'get_array({}, {})'.format(key, txt)
        desc['op'] = where
        # modules without any file overlapping the selected trains
        arr = det.get_array(key) if sel is None else det.get_array(key, pulses=sel)
        check_labelled(arr, expect(key, pred, want_tids, mods), key, mods, (), where)
    arr = det.get_array('header.pulseCount')
    for m in mods:
        for t in want_tids:
            rows = r.rows(m, 'header.pulseCount', t)
            if rows is not None:
                got = arr.sel(module=m, trainId=t).values
                require(float(got) == float(rows[0]), 'header data of module {}, train {}: {} instead of {}', m, t, got, rows)
    for _ in range(2):
        sel, pred, txt = gen_sel(rng, r)
        where = 'trains({})'.format(txt)
        desc['op'] = where
        got_t = []
        for tid, data in (det.trains() if sel is None else det.trains(pulses=sel)):
            got_t.append(int(tid))
            for key in keys:
                require(key in data, '{}: no {}', where, key)
                w = expect(key, pred, [tid], mods)
                check_labelled(data[key], w, key, mods, (), '{} train {} {}'.format(where, tid, key))
        full = [t for t in want_tids if len(present[t]) == len(mods)]
        require(got_t == full, '{}: trains {} instead of {}', where, got_t, full)
    close(dc)


def errors(rng, scratch, desc):
    r = gen_det(rng, complete=True)
    d = scratch.new()
    write_run(r.files, d)
    dc = kd.RunDirectory(d)
    cls = getattr(components, r.cls)
    other = [c for k, (n, c) in DETS.items() if c != r.cls]
    raises(kd.SourceNameError if hasattr(kd, 'SourceNameError') else Exception,
           lambda: getattr(components, rng.choice(other))(dc), 'no such detector in the data')
    raises(Exception, lambda: cls(dc, modules=[99]), 'no such module')
    raises(Exception, lambda: cls(dc, min_modules=len(r.source) + 1), 'too many modules required')
    det = cls(dc)
    for bad in (by_id[::-1], by_index[-1], by_index[-3:], by_id[-1], by_index[[-1, 0]], by_id[np.array([-1])], 'x', slice(0, 2)):
        desc['selection'] = repr(bad)
        raises(Exception, lambda: det.get_array('image.data', pulses=bad), 'unsupported pulse selection {!r}'.format(bad))
        raises(Exception, lambda: list(det.trains(pulses=bad)), 'unsupported pulse selection {!r}'.format(bad))
    close(dc)


PARTS = [('assembly', case, 260), ('errors', errors, 16)]
