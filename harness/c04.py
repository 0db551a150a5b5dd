"""C04 reading train by train."""
from .common import *


def case(rng, scratch, desc):
    files = gen_run(rng, max_seq=3, max_trains=5)
    dc = open_coll(rng, files, scratch)
    spec = Coll(files)
    if rng.random() < .4:
        dc, spec = select_some_keys(rng, dc, spec)
    dc, spec = select_some_trains(rng, dc, spec)
    spec = spec.with_sel({s: spec.sel[s] for s in spec.sel if s in dc.all_sources})
    desc.update(spec.describe())
    # by ID (in a random order) and by position
    order = list(range(len(spec.tids)))
    rng.shuffle(order)
    for i in order:
        t = spec.tids[i]
        tid, data = dc.train_from_id(rng.choice([int, np.uint64])(t))
        require(int(tid) == t, 'train_from_id({}) -> {}', t, tid)
        check_train(data, t, spec)
        j = i if rng.random() < .6 else i - len(spec.tids)
        tid, data = dc.train_from_index(j)
        require(int(tid) == t, 'train_from_index({}) -> {}', j, tid)
        check_train(data, t, spec)
    # iterating
    got = []
    for tid, data in dc.trains():
        got.append(int(tid))
        check_train(data, int(tid), spec)
    require(got == spec.tids, 'trains() visited {} instead of {}', got, spec.tids)
    got = []
    for tid, data in dc.trains(require_all=True):
        got.append(int(tid))
        check_train(data, int(tid), spec)
    want = [t for t in spec.tids if spec.complete(t)]
    require(got == want, 'trains(require_all=True) visited {} instead of {}', got, want)
    # two interleaved iterators do not disturb each other
    a, b = dc.trains(), dc.trains()
    for tid, data in a:
        t2, d2 = next(b)
        require(int(t2) == int(tid), 'interleaved iteration out of step')
        check_train(d2, int(t2), spec)
    # selection arguments
    if spec.sel:
        sub = {}
        for s in rand_subset(rng, sorted(spec.sel), .5) or [sorted(spec.sel)[0]]:
            if spec.sel[s]:
                sub[s] = set(rand_subset(rng, sorted(spec.sel[s]), .6) or [sorted(spec.sel[s])[0]])
        if sub:
            ss = spec.with_sel(sub)
            for t in spec.tids[:3]:
                _, data = dc.train_from_id(t, devices=sub)
                check_train(data, t, ss)
            n = len(spec.tids)
            a = rng.randrange(0, n + 1)
            b = rng.randrange(a, n + 1)
            ra = rng.random() < .5
            # sources not recorded for any of these trains need not be listed
            rng_t = set(spec.tids[a:b])
            ss = ss.with_sel({s: k for s, k in sub.items()
                              if any(s in f.sources() and rng_t & set(f.tids) for f in files)})
            rec = dc.select_trains(by_index[a:b]) if rng.random() < .3 else None
            if rec is not None:
                require(set(ss.sel) <= set(rec.all_sources), 'recorded sources lost')
            got = []
            for tid, data in dc.trains(devices=sub, train_range=by_index[a:b], require_all=ra):
                got.append(int(tid))
                check_train(data, int(tid), ss)
            want = [t for t in spec.tids[a:b] if not ra or ss.complete(t)]
            require(got == want, 'trains(devices, [{}:{}], require_all={}) visited {} instead of {}', a, b, ra, got, want)
    lo, hi = (min(spec.tids), max(spec.tids)) if spec.tids else (10000, 10001)
    for t in range(lo - 1, hi + 2):
        if t not in spec.tids:
            raises(KeyError, lambda: dc.train_from_id(t), 'train_from_id({})'.format(t))
    close(dc)


PARTS = [('trains', case, 200)]
