"""C07 virtual files and datasets."""
import h5py
from .common import *
from .c06 import digest


def case(rng, scratch, desc):
    files = gen_run(rng, max_seq=3, max_trains=5)
    d = scratch.new()
    write_run(files, d)
    other = scratch.new()
    mode = rng.choice(['abs', 'abs', 'rel', 'cwd'])
    desc['path'] = mode
    if mode == 'abs':
        dc = kd.RunDirectory(d)
    elif mode == 'rel':
        os.chdir(os.path.dirname(d))
        dc = kd.RunDirectory(os.path.basename(d))
    else:
        os.chdir(d)
        dc = _DC().from_paths([f.name for f in files])
    spec = Coll(files)
    for _ in range(rng.randrange(0, 2)):
        dc, spec = select_some_keys(rng, dc, spec, p=.8)
    dc, spec = select_some_trains(rng, dc, spec)
    spec = spec.with_sel({s: spec.sel[s] for s in spec.sel if s in dc.all_sources})
    desc.update(spec.describe())
    before = digest(files)
    outdir = scratch.new()
    out = os.path.join(outdir, 'virt.h5')
    if rng.random() < .2:
        open(out, 'wb').write(b'something else')
    dc.write_virtual(out)
    if rng.random() < .4 and mode == 'abs':
        os.chdir(other)
    # only sources & keys with data are in the virtual file
    sel = {s: {k for k in spec.sel[s] if len(spec.array(s, k)[0])} for s in spec.sel}
    vspec = spec.with_sel({s: k for s, k in sel.items() if k})
    new = kd.H5File(out)
    cwd = os.getcwd()
    if mode != 'abs':
        os.chdir(other)
    check_all(new, vspec)
    for tid, data in new.trains():
        check_train(data, int(tid), vspec)
    for s in vspec.sel:
        for k in sorted(vspec.sel[s]):
            if not spec.item(s, k)[0] and (spec.is_control(s)):
                ser = new.get_series(s, k)
                labels, rows = spec.array(s, k)
                require([int(t) for t in ser.index] == [int(t) for t in labels] and list(ser.values) == list(rows),
                        'get_series({}, {}) of the virtual file', s, k)
    close(new)
    os.chdir(cwd)
    for s in spec.sel:
        for k in sorted(spec.sel[s]):
            labels, rows = spec.array(s, k)
            if not len(labels) or rng.random() < .5:
                continue
            fn = os.path.join(outdir, 'one-%d.h5' % rng.randrange(10**9)) if rng.random() < .7 else None
            os.chdir(cwd)
            ds = dc.get_virtual_dataset(s, k, filename=fn)
            os.chdir(other)
            require(ds.is_virtual if hasattr(ds, 'is_virtual') else True, 'not a virtual dataset')
            require(same(ds[()], rows), 'get_virtual_dataset({}, {}): {!r} instead of {!r}', s, k, ds[()], rows)
            f = ds.file
            name = f.filename
            ids = [int(t) for t in f['INDEX/trainId'][:]]
            require(ids == spec.tids, 'get_virtual_dataset: train IDs {}', ids)
            f.close()
            if fn is None:
                os.unlink(name)
    close(dc)
    require(digest(files) == before, 'a source file was modified')


from .common import _DC
PARTS = [('virtual', case, 130)]
