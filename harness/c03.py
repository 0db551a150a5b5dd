"""C03 arrays."""
from .common import *


def gen_roi(rng, shape):
    out = []
    for n in shape:
        r = rng.random()
        if r < .3:
            out.append(slice(None))
        elif r < .55:
            a = rng.randrange(0, n + 1)
            out.append(slice(a, rng.randrange(a, n + 1)))
        elif r < .7:
            out.append(slice(0, n, 2))
        elif r < .9:
            out.append(rng.randrange(0, n))
        else:
            break
    return tuple(out)


def case(rng, scratch, desc):
    files = gen_run(rng, max_seq=3, max_trains=6)
    dc = open_coll(rng, files, scratch)
    spec = Coll(files)
    if rng.random() < .25:
        dc, spec = select_some_keys(rng, dc, spec)
    dc, spec = select_some_trains(rng, dc, spec)
    spec = spec.with_sel({s: spec.sel[s] for s in spec.sel if s in dc.all_sources})
    desc.update(spec.describe())
    for s in sorted(spec.sel):
        for k in sorted(spec.sel[s]):
            check_array(dc, spec, s, k)
            shp = spec.item(s, k)[0]
            if shp:
                roi = gen_roi(rng, shp)
                if roi:
                    check_array(dc, spec, s, k, roi if len(roi) > 1 else rng.choice([roi, roi[0]]))
            labels, rows = spec.array(s, k)
            if rng.random() < .5:
                d = dc.get_dask_array(s, k)
                got = d.compute(scheduler='synchronous')
                require(same(got, rows), 'get_dask_array({}, {}): {!r} instead of {!r}', s, k, got, rows)
            if rng.random() < .3 and shp:
                names = ['u', 'v', 'w'][:len(shp)]
                a = dc.get_array(s, k, extra_dims=names)
                require(tuple(a.dims) == ('trainId',) + tuple(names), 'dims {}', a.dims)
                require(names == ['u', 'v', 'w'][:len(shp)], 'extra_dims was modified')
                require(same(a.values, rows), 'get_array with extra_dims: wrong values')
    # a key which is not selected is refused
    for s in sorted(spec.sel):
        raises(KeyError, lambda: dc.get_array(s, 'no.such'), 'get_array of an unknown key')
    raises(KeyError, lambda: dc.get_array('NO/SUCH', 'a.b'), 'get_array of an unknown source')
    close(dc)


def case_fragment(rng, scratch, desc):
    """One instrument source; every subset of trains of a small run."""
    from .model import File, Group, fresh_values, gen_counts
    n = [rng.randrange(1, 4) for _ in range(rng.randrange(1, 3))]
    files, base = [], 10000
    for i, m in enumerate(n):
        f = File('RAW-R0001-DA01-S%05d.h5' % i, list(range(base, base + m)), pad=rng.choice([0, 2]))
        c = gen_counts(rng, m)
        tot = sum(c) + rng.choice([0, 2])
        f.instrument['A/B:out'] = {'g': Group(c, {'v': fresh_values((tot, 2), rng.choice(['f4', 'u2', 'i8', 'u8']))})}
        files.append(f)
        base += m + rng.choice([0, 1])
    for f in files[1:]:
        for g in f.instrument['A/B:out'].values():
            g.keys['v'] = g.keys['v'].astype(files[0].instrument['A/B:out']['g'].keys['v'].dtype)
    files = files[::-1] if rng.random() < .5 else files
    dc = open_coll(rng, files, scratch)
    spec = Coll(files)
    desc.update(spec.describe())
    all_t = spec.tids
    for mask in range(1, 2 ** len(all_t)):
        ts = [t for i, t in enumerate(all_t) if mask >> i & 1]
        desc['trains'] = ts
        d2, s2 = dc.select_trains(by_id[ts]), spec.with_trains(ts)
        check_array(d2, s2, 'A/B:out', 'g.v')
        labels, rows = s2.array('A/B:out', 'g.v')
        got = d2.get_dask_array('A/B:out', 'g.v').compute(scheduler='synchronous')
        require(same(got, rows), 'get_dask_array: {!r} instead of {!r}', got, rows)
    close(dc)


PARTS = [('array', case, 160), ('fragments', case_fragment, 60)]
