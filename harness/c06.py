"""C06 write and read back."""
import hashlib
from .common import *
from .model import File


def digest(files):
    return {f.path: (hashlib.sha1(open(f.path, 'rb').read()).hexdigest(), os.stat(f.path).st_mtime_ns) for f in files}


def reduced(rng, files, scratch, desc, **kw):
    dc = open_coll(rng, files, scratch, **kw)
    spec = Coll(files)
    for _ in range(rng.randrange(0, 2)):
        dc, spec = select_some_keys(rng, dc, spec, p=.8)
    dc, spec = select_some_trains(rng, dc, spec)
    spec = spec.with_sel({s: spec.sel[s] for s in spec.sel if s in dc.all_sources})
    desc.update(spec.describe())
    return dc, spec


def case(rng, scratch, desc):
    files = gen_run(rng, max_seq=3, max_trains=5)
    dc, spec = reduced(rng, files, scratch, desc)
    before = digest(files)
    out = os.path.join(scratch.new(), 'out.h5')
    if rng.random() < .2:
        open(out, 'wb').write(b'something else')
    dc.write(out)
    close(dc)
    require(digest(files) == before, 'write() modified a source file')
    new = kd.H5File(out)
    check_all(new, spec)
    got = []
    for tid, data in new.trains():
        check_train(data, int(tid), spec)
        got.append(int(tid))
    require(got == spec.tids, 'iterating the written file: {} instead of {}', got, spec.tids)
    # partial reads of the written file, and writing it once more
    if spec.tids and spec.sel:
        d2, s2 = select_some_trains(rng, new, spec)
        for s in s2.sel:
            for k in sorted(s2.sel[s])[:2]:
                check_array(d2, s2, s, k)
                if not spec.item(s, k)[0] and spec.is_control(s):
                    ser = new.get_series(s, k)
                    labels, rows = spec.array(s, k)
                    require([int(t) for t in ser.index] == [int(t) for t in labels] and list(ser.values) == list(rows),
                            'get_series({}, {}) of the written file', s, k)
        if rng.random() < .3:
            out2 = os.path.join(scratch.new(), 'out2.h5')
            d2.write(out2)
            n2 = kd.H5File(out2)
            check_all(n2, s2.with_sel({s: s2.sel[s] for s in s2.sel if s in d2.all_sources}))
            close(n2)
    from karabo_data.validation import FileValidator
    if spec.tids:
        probs = FileValidator(new.files[0]).run_checks()
        require(not probs, 'validating the written file: {}', probs)
    close(new)


PARTS = [('write', case, 170)]
