"""C09 conflicts."""
from .common import *
from .common import _DC
from .model import File, Group, fresh_values

SRC = ['A/X/1', 'B/Y/2', 'C/Z/3', 'D/CAM/1:out', 'E/CAM/2:out']


def gen(rng):
    files = []
    n = rng.randrange(1, 6)
    style = rng.choice(['free', 'interleave', 'block'])
    for i in range(n):
        if style == 'free':
            tids = sorted(rng.sample(range(10000, 10012), rng.randrange(0, 4)))
        elif style == 'interleave':
            tids = [10000 + i + n * j for j in range(rng.randrange(1, 4))]
            if rng.random() < .2:
                tids = sorted(set(tids + [rng.randrange(10000, 10012)]))
        else:
            tids = list(range(10000 + 3 * i, 10003 + 3 * i + (1 if rng.random() < .2 else 0)))
        f = File('RAW-R0001-DA%02d-S00000.h5' % i, tids, fmt=rng.choice(['0.5', '1.0']), pad=rng.choice([0, 2]))
        for s in rand_subset(rng, SRC, .5) or [SRC[0]]:
            if ':' in s:
                f.instrument[s] = {'g': Group([1] * len(tids), {'v': fresh_values((len(tids),), 'f4')})}
            else:
                f.control[s] = {'x.value': fresh_values((len(tids),), 'f4')}
        files.append(f)
    rng.shuffle(files)
    return files


def conflicts(files):
    bad = set()
    for i, f in enumerate(files):
        for g in files[i + 1:]:
            if set(f.tids) & set(g.tids):
                bad |= f.sources() & g.sources()
    return bad


def expect(fn, files, what):
    bad = conflicts(files)
    try:
        dc = fn()
    except ValueError as e:
        require(bad, '{}: ValueError without a conflict: {}', what, e)
        for s in bad:
            require(s in str(e), '{}: the message does not name {}: {}', what, s, e)
        for s in set(SRC) - bad:
            require(s not in str(e), '{}: the message names {} which has no conflict: {}', what, s, e)
        return None
    require(not bad, '{}: conflicting data for {} accepted', what, sorted(bad))
    return dc


def case(rng, scratch, desc):
    files = gen(rng)
    d = scratch.new()
    write_run(files, d)
    desc.update(Coll(files).describe())
    how = rng.choice(['dir', 'paths', 'union', 'union2'])
    desc['how'] = how
    if how == 'dir':
        dc = expect(lambda: kd.RunDirectory(d), files, 'RunDirectory')
        dc2 = expect(lambda: kd.RunDirectory(d), files, 'RunDirectory with cache')
        close(dc2) if dc2 else None
    elif how == 'paths':
        dc = expect(lambda: _DC().from_paths([f.path for f in files]), files, 'from_paths')
    else:
        parts = [kd.H5File(f.path) for f in files]
        if how == 'union2':   # the same files again: not a conflict
            parts += [parts[0], kd.H5File(files[-1].path)]
        dc = expect(lambda: parts[0].union(*parts[1:]), files, 'union')
    if dc is not None:
        spec = Coll(files)
        check_ids(dc, spec)
        check_names(dc, spec)
        for t in spec.tids:
            check_train(dc.train_from_id(t)[1], t, spec)
        # operations on a conflict-free collection stay conflict-free
        if spec.tids:
            d2, s2 = select_some_trains(rng, dc, spec)
            d3, s3 = select_some_keys(rng, dc, spec)
            u = d2.union(d3)
            check_ids(u, spec)
        close(dc)


PARTS = [('conflict', case, 250)]
