"""Executable contracts shared by several properties: comparing the collection
objects of the code under test with the specification-level view."""
import os
import numpy as np
from .base import require, raises, Fail
from .model import Coll, gen_run
import karabo_data as kd
from karabo_data import by_id, by_index


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def write_run(files, dirname):
    for f in files:
        f.write(dirname)
    return dirname


def open_coll(rng, files, scratch, how=None):
    d = scratch.new()
    write_run(files, d)
    how = how or (rng.choice(['dir', 'paths']) if len(files) > 1 else rng.choice(['dir', 'file', 'paths']))
    if how == 'file' and len(files) == 1:
        dc = kd.H5File(files[0].path)
    elif how == 'paths':
        dc = kd.DataCollection.from_paths([f.path for f in files]) if hasattr(kd, 'DataCollection') \
            else _DC().from_paths([f.path for f in files])
    else:
        dc = kd.RunDirectory(d)
    return dc


def _DC():
    from karabo_data.reader import DataCollection
    return DataCollection


def close(dc):
    for f in dc.files:
        f.close()


def check_ids(dc, spec):
    got = [int(t) for t in dc.train_ids]
    require(got == spec.tids, 'train IDs {} instead of {}', got, spec.tids)


def check_names(dc, spec, require_empty=False):
    got = set(dc.all_sources)
    want = set(spec.sel)
    require(got == want, 'sources {} instead of {}', sorted(got), sorted(want))
    for s in want:
        require((s in dc.control_sources) == spec.is_control(s) and
                (s in dc.instrument_sources) == (not spec.is_control(s)),
                'source {} in the wrong category', s)
        k = set(dc.keys_for_source(s))
        require(k == spec.sel[s], 'keys of {}: {} instead of {}', s, sorted(k), sorted(spec.sel[s]))


def squeeze1(rows):
    return rows[0] if len(rows) == 1 else rows


def check_train(dc_data, tid, spec, skip_no_data_sources=False):
    """Contract of one train's data dictionary."""
    want_src = set(spec.sel)
    require(set(dc_data) == want_src, 'train {}: sources {} instead of {}', tid,
            sorted(dc_data), sorted(want_src))
    for s in want_src:
        d = dict(dc_data[s])
        md = d.pop('metadata')
        require(md['source'] == s and int(md['timestamp.tid']) == tid, 'train {}: metadata {}', tid, md)
        want = {k for k in spec.sel[s] if spec.has(s, k, tid)}
        require(set(d) == want, 'train {}, source {}: keys {} instead of {}', tid, s, sorted(d), sorted(want))
        for k in want:
            require(same(d[k], squeeze1(spec.rows(s, k, tid))), 'train {}, {} {}: wrong data {!r}, expected {!r}',
                    tid, s, k, d[k], squeeze1(spec.rows(s, k, tid)))


def check_array(dc, spec, s, k, roi=None):
    labels, rows = spec.array(s, k)
    if roi is None:
        a = dc.get_array(s, k)
    else:
        a = dc.get_array(s, k, roi=by_index[roi])
        full = roi if isinstance(roi, tuple) else (roi,)
        rows = rows[(slice(None),) + full]
    require(a.shape == rows.shape, 'get_array({}, {}, roi={}): shape {} instead of {}', s, k, roi, a.shape, rows.shape)
    require(same(a.values, rows), 'get_array({}, {}, roi={}): wrong values {!r}, expected {!r}', s, k, roi, a.values, rows)
    require(a.dims[0] == 'trainId', 'get_array: first dimension {}', a.dims)
    if len(labels):
        got = a.coords['trainId'].values
        require([int(t) for t in got] == [int(t) for t in labels], 'get_array({}, {}): labels {} instead of {}', s, k, got, labels)


def check_all(dc, spec, rng=None, arrays=True, trains=True):
    """The collection holds exactly what the specification says."""
    check_ids(dc, spec)
    check_names(dc, spec)
    if trains:
        for t in spec.tids:
            tid, data = dc.train_from_id(t)
            require(int(tid) == t, 'train_from_id({}) returned ID {}', t, tid)
            check_train(data, t, spec)
    if arrays:
        for s in sorted(spec.sel):
            for k in sorted(spec.sel[s]):
                check_array(dc, spec, s, k)


def rand_subset(rng, xs, p=.6):
    return [x for x in xs if rng.random() < p]


def rand_train_list(rng, spec):
    return sorted(rand_subset(rng, spec.tids, rng.choice([.3, .6, .9])))


def select_some_trains(rng, dc, spec):
    """Reduce to a random non-empty subset of trains."""
    if not spec.tids or rng.random() < .35:
        return dc, spec
    ts = rand_train_list(rng, spec) or [rng.choice(spec.tids)]
    return dc.select_trains(by_id[ts]), spec.with_trains(ts)


def select_some_keys(rng, dc, spec, p=.5):
    if rng.random() > p or not spec.sel:
        return dc, spec
    sel = {}
    for s in sorted(spec.sel):
        if rng.random() < .75 and spec.sel[s]:
            ks = rand_subset(rng, sorted(spec.sel[s]), .6) or [sorted(spec.sel[s])[0]]
            sel[s] = set(ks)
    if not sel:
        return dc, spec
    return dc.select({s: set(k) for s, k in sel.items()}), spec.with_sel(sel)
