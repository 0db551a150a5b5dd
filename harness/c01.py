"""C01 train selection."""
import numpy as np
from .common import *

UNSPECIFIED = object()


def spec_by_id_slice(tids, start, stop, step):
    """Designated trains of a half-open ID slice; 'error' if it lies entirely
    outside the collection; steps count positions within the range."""
    if not tids:
        return UNSPECIFIED
    if start is not None and start > tids[-1]:
        return 'error'
    if stop is not None and stop < tids[0]:
        return 'error'
    if stop is not None and stop <= tids[0]:
        return UNSPECIFIED  # ends at the first train: empty or ValueError
    sel = [t for t in tids if (start is None or t >= start) and (stop is None or t < stop)]
    return sel[::step]


def near_id(rng, tids):
    if not tids:
        return 10000 + rng.randrange(5)
    r = rng.random()
    if r < .15:
        return None
    if r < .3:
        return tids[0] - rng.choice([0, 1, 2, 10])
    if r < .45:
        return tids[-1] + rng.choice([0, 1, 2, 10])
    return rng.randrange(tids[0] - 2, tids[-1] + 4)


def wrap(rng, v):
    """IDs may be plain or numpy integers"""
    if v is None:
        return None
    return rng.choice([int, int, np.uint64, np.int64])(v)


def one_selection(rng, dc, spec):
    kind = rng.choice(['ids', 'idl', 'ixs', 'ixl'])
    tids = spec.tids
    if kind == 'ids':
        a, b, st = near_id(rng, tids), near_id(rng, tids), rng.choice([None, None, None, 1, 2, 3])
        sel = by_id[slice(wrap(rng, a), wrap(rng, b), st)]
        want = spec_by_id_slice(tids, a, b, st)
    elif kind == 'idl':
        ids = [near_id(rng, tids) for _ in range(rng.randrange(1, 6))]
        ids = [i if i is not None else 10001 for i in ids]
        if rng.random() < .3 and tids:
            ids += [rng.choice(tids)] * 2
        want = sorted(set(tids) & set(ids)) or 'error'
        sel = by_id[np.array(ids, dtype=rng.choice(['u8', 'i8'])) if rng.random() < .5 else ids]
    elif kind == 'ixs':
        n = len(tids)
        f = lambda: rng.choice([None, 0, 1, n - 1, n, n + 2, -1, -2, -n, rng.randrange(0, n + 1)])
        sl = slice(f(), f(), rng.choice([None, None, 1, 2, 3]))
        sel, want = by_index[sl], tids[sl]
    else:
        n = len(tids)
        if not n:
            return dc, spec, 'none'
        ixs = [rng.randrange(-n, n) for _ in range(rng.randrange(1, 5))]
        want = sorted({tids[i] for i in ixs})
        sel = by_index[np.array(ixs) if rng.random() < .5 else ixs]
    label = '{} of {}'.format(sel, tids)
    if want == 'error':
        raises(ValueError, lambda: dc.select_trains(sel), 'selecting ' + label)
        return dc, spec, label
    if want is UNSPECIFIED:
        return dc, spec, label
    before = [int(t) for t in dc.train_ids]
    new = dc.select_trains(sel)
    got = [int(t) for t in new.train_ids]
    require(got == want, 'selecting {}: got {}, expected {}', label, got, want)
    require([int(t) for t in dc.train_ids] == before, 'select_trains changed its operand')
    return new, spec.with_trains(want), label


def case(rng, scratch, desc):
    files = gen_run(rng, max_seq=3, max_trains=5)
    dc = open_coll(rng, files, scratch)
    spec = Coll(files)
    desc.update(spec.describe())
    desc['selections'] = []
    check_ids(dc, spec)
    cur, cs = dc, spec
    for _ in range(rng.randrange(1, 4)):
        cur, cs, label = one_selection(rng, cur, cs)
        desc['selections'].append(label)
        if not cs.tids:
            break
    else:
        # sources present in the files remaining for the selected trains
        keep = {s for f in files if set(f.tids) & set(cs.tids) for s in f.sources()}
        got = set(cur.all_sources)
        require(keep <= got, 'sources with data for the selected trains were lost: {}', sorted(keep - got))
        cs = cs.with_sel({s: cs.sel[s] for s in got if s in cs.sel})
        check_all(cur, cs)
        for _ in range(5):  # trains outside the selection are not readable
            t = rng.randrange(spec.tids[0] - 1, spec.tids[-1] + 2)
            if t not in cs.tids:
                raises(KeyError, lambda: cur.train_from_id(t), 'train_from_id of unselected {}'.format(t))
    close(dc)


def case_big(rng, scratch, desc):
    """Selections on collections with many trains (no data read)."""
    from .model import File, gen_tids, gen_control
    n = rng.randrange(1, 40)
    files = []
    base = 10000
    for seq in range(rng.randrange(1, 4)):
        tids = gen_tids(rng, n, base)
        base = tids[-1] + 1 + rng.choice([0, 3])
        f = File('RAW-R0001-DA01-S%05d.h5' % seq, tids)
        f.control['A/B/C'] = {'x.value': np.arange(n, dtype='f4')}
        files.append(f)
    dc = open_coll(rng, files, scratch)
    spec = Coll(files)
    desc['trains'] = spec.tids
    for _ in range(20):
        cur, cs = dc, spec
        for _ in range(2):
            if cs.tids:
                cur, cs, label = one_selection(rng, cur, cs)
    close(dc)


def case_empty(rng, scratch, desc):
    """Selecting from a collection without trains never returns trains."""
    files = gen_run(rng, max_seq=1, max_trains=4, allow_empty_file=False)
    dc = open_coll(rng, files, scratch)
    desc.update(Coll(files).describe())
    e = dc.select_trains(by_index[:0])
    require(len(e.train_ids) == 0, 'by_index[:0] is not empty')
    e2 = e.select_trains(by_index[0:3])
    require(len(e2.train_ids) == 0, 'selecting from nothing is not empty')
    raises(ValueError, lambda: e.select_trains(by_id[[10001]]), 'ID list on an empty collection')
    raises(ValueError, lambda: e.select_trains(by_id[10000:10005]), 'ID slice on an empty collection')
    close(dc)


PARTS = [('select', case, 150), ('select_many', case_big, 60), ('empty', case_empty, 8)]
