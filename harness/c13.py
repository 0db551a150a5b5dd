"""C13 virtual CXI files."""
import h5py
from .common import *
from .detmodel import *
from karabo_data import components


def det_class(r):
    base = getattr(components, r.cls)
    return type(r.cls, (base,), {'module_shape': r.shape})


def case(rng, scratch, desc):
    r = gen_det(rng, varying_pulses=rng.random() < .4)
    desc.update(describe(r))
    if r.raw and rng.random() < .5:
        r.gainaxis = 2
    bad = None
    if len(r.source) > 1 and rng.random() < .2:
        # one module reports another pulse ID somewhere
        cands = [f for f in r.files for g in f.instrument.values() if sum(g['image'].counts)]
        f = rng.choice(cands)
        (src, g), = f.instrument.items()
        a = g['image'].keys['pulseId']
        i = rng.randrange(len(a))
        old = a.flat[i]
        a.flat[i] = rng.choice([int(old) + 1, int(old) + 100, 0 if old else 7])
        t = [t for t, c in zip(f.tids, g['image'].counts) for _ in range(c)][i]
        m = [m for m in r.source if r.source[m] == src][0]
        others = [x for x in r.source if x != m and r.rows(x, 'image.pulseId', t) is not None]
        bad = 'disagree' if others else 'same'
        if bad == 'same':
            a.flat[i] = old
            bad = None
    desc['disagreement'] = bad
    d = scratch.new()
    write_run(r.files, d)
    mode = rng.choice(['abs', 'rel'])
    if mode == 'rel':
        os.chdir(os.path.dirname(d))
    dc = kd.RunDirectory(d if mode == 'abs' else os.path.basename(d))
    mods = sorted(r.source)
    mm = rng.choice([1, 1, len(mods)])
    tids = [t for t in r.all_tids if sum(r.rows(m, 'image.data', t) is not None for m in mods) >= mm]
    if not tids:
        return 'skip'
    if bad and t not in tids:
        bad = None
    if rng.random() < .3:
        keep = rand_train_list(rng, Coll(r.files)) or tids[:1]
        tids = [x for x in tids if x in keep]
        if not tids:
            return 'skip'
        dc = dc.select_trains(by_id[sorted(keep)])
        if bad and t not in tids:
            bad = None
    det = det_class(r)(dc, min_modules=mm)
    out = os.path.join(scratch.new(), 'det.cxi')
    if bad:
        raises(Exception, lambda: det.write_virtual_cxi(out), 'modules disagree on the pulse IDs')
        require(not os.path.exists(out), 'a file was written although the modules disagree on the pulse IDs')
        close(dc)
        return
    det.write_virtual_cxi(out)
    os.chdir('/')
    F = r.frames
    with h5py.File(out, 'r') as f:
        pid, tid = f['entry_1/pulseId'][:], f['entry_1/trainId'][:]
        want_t = [x for x in tids for _ in range(F)]
        want_p = [p for x in tids for p in r.pulses[x]]
        require([int(x) for x in tid] == want_t, 'train IDs {} instead of {}', tid, want_t)
        require([int(x) for x in pid] == want_p, 'pulse IDs {} instead of {}', pid, want_p)
        ei = [x.decode() if isinstance(x, bytes) else x for x in f['entry_1/experiment_identifier'][:]]
        require(ei == ['{}:{}'.format(a, b) for a, b in zip(want_t, want_p)], 'experiment identifiers {}', ei)
        dg = f['entry_1/instrument_1/detector_1']
        dsets = {'data': dg['data'], 'cellId': f['entry_1/cellId']}
        names = ['data'] if r.raw else ['data', 'gain'] + (['mask'] if r.mask else [])
        require({n for n in ('data', 'gain', 'mask') if n in dg} == set(names), 'datasets {}', sorted(dg))
        for n in names:
            dsets[n] = dg[n]
        require(f['entry_1/data_1/data'][()].shape == dg['data'].shape, 'data_1 link')
        for n, ds in dsets.items():
            v = ds[()]
            require(v.shape[:2] == (len(want_t), 16), '{}: shape {}', n, v.shape)
            g = [h for h in r.files[0].instrument.values()][0]['image'].keys[n]
            require(v.dtype == g.dtype, '{}: dtype {} instead of {}', n, v.dtype, g.dtype)
            item = g.shape[1:] if n != 'cellId' else ()
            require(v.shape[2:] == item, '{}: shape {}', n, v.shape)
            fill = ds.fillvalue
            for k, x in enumerate(want_t):
                for m in range(16):
                    rows = None
                    if m in r.source:
                        s = r.source[m]
                        for ff in r.files:
                            if s in ff.instrument and x in ff.tids:
                                i = ff.tids.index(x)
                                grp = ff.instrument[s]['image']
                                rows = grp.keys[n][grp.firsts[i]:grp.firsts[i] + grp.counts[i]]
                    if rows is not None and len(rows):
                        e = rows[k % F] if n != 'cellId' else rows[k % F].reshape(())
                        require(np.array_equal(v[k, m], e), '{}: frame {} (train {}), module {}: {!r} instead of {!r}', n, k, x, m, v[k, m], e)
                    else:
                        e = np.full(item, fill, v.dtype)
                        require(np.array_equal(v[k, m], e, equal_nan=v.dtype.kind == 'f'), '{}: frame {} (train {}), module {} has no data but gives {!r}', n, k, x, m, v[k, m])
                        if v.dtype.kind == 'f':
                            require(np.isnan(v[k, m]).all(), '{}: fill value is not nan', n)
    close(dc)


PARTS = [('cxi', case, 200)]
