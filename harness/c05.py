"""C05 series, data frames and counts."""
import numpy as np, pandas as pd
from .common import *
from .model import File, Group, fresh_values, gen_counts, gen_tids, gen_control


def gen(rng):
    """Runs with one-dimensional data: control values, at most one entry per
    train, or several entries per train with pulse IDs."""
    files, base = [], 10000
    nmulti = 0              # files with several entries for a train
    multi = rng.random() < .4
    split = rng.random() < .5
    nseq = rng.randrange(1, 4)
    mode = rng.choice(['one', 'zero-one', 'zeros'])
    for agg in (['DA01', 'DA02'] if split else ['DA01']):
        base = 10000 + rng.choice([0, 0, 1, 2])
        for seq in range(nseq if agg == 'DA01' else rng.randrange(1, 3)):
            n = rng.randrange(1, 5) if rng.random() > .05 else 0
            tids = gen_tids(rng, n, base)
            base = (tids[-1] + 1 + rng.choice([0, 0, 2])) if tids else base
            f = File('RAW-R0001-%s-S%05d.h5' % (agg, seq), tids, fmt=rng.choice(['0.5', '1.0']),
                     pad=rng.choice([0, 0, 3]), index_style=rng.choice(['count', 'last']))
            if agg == 'DA01':
                f.control['M/XGM'] = {'ix.value': fresh_values((n,), 'f4'), 'ix.timestamp': fresh_values((n,), 'u8'),
                                      'iy.value': fresh_values((n,), 'i4')}
            if agg == 'DA02' or not split:
                c = {'one': [1] * n, 'zeros': [0] * n}.get(mode) or [rng.choice([0, 1]) for _ in range(n)]
                if mode == 'zeros' and rng.random() < .5:
                    c = [1] * n
                tot = sum(c) + rng.choice([0, 2])
                f.instrument['M/CAM:out'] = {'data': Group(c, {'v': fresh_values((tot,), 'f8'), 'w': fresh_values((tot,), 'u4')})}
                if multi:
                    np_ = rng.randrange(2, 4)
                    c = [rng.choice([np_, np_, 0]) for _ in range(n)]
                    if nmulti and rng.random() < .4:
                        # a file with at most one entry for each train
                        c = [rng.choice([0, 1, 1]) for _ in range(n)]
                    if n and not any(c):
                        c[0] = np_
                    nmulti += max(c, default=0) > 1
                    tot = sum(c) + rng.choice([0, 2])
                    pid = np.concatenate([np.arange(k) * 2 + 1 for k in c] + [np.zeros(tot - sum(c))]).astype('u8')[:, None]
                    f.instrument['D/DET/0CH0:xtdf'] = {'image': Group(c, {
                        'pulseId': pid, 'cellId': fresh_values((tot, 1), 'u2'), 'length': fresh_values((tot, 1), 'u4')})}
            files.append(f)
    rng.shuffle(files)
    return files


def spec_rows(spec, s, k):
    """[(train, value)] in train order"""
    out = []
    for t in spec.tids:
        r = spec.rows(s, k, t)
        if r is not None:
            out += [(t, v) for v in np.asarray(r).reshape(len(r))]
    return out


def check_series(dc, spec, s, k):
    ser = dc.get_series(s, k)
    want = spec_rows(spec, s, k)
    name = s + '/' + (k[:-6] if k.endswith('.value') else k)
    require(ser.name == name, 'series name {} instead of {}', ser.name, name)
    got = list(ser.values)
    if isinstance(ser.index, pd.MultiIndex):
        lab = [int(t) for t in ser.index.get_level_values(0)]
        pul = [int(t) for t in ser.index.get_level_values(1)]
        wp = [int(p) for t in spec.tids if spec.rows(s, 'image.pulseId', t) is not None
              for p in np.ravel(spec.rows(s, 'image.pulseId', t))] if k.startswith('image.') else None
        require(wp is None or pul == wp, 'get_series({}, {}): pulse labels {} instead of {}', s, k, pul, wp)
    else:
        lab = [int(t) for t in ser.index]
    require(lab == [t for t, _ in want], 'get_series({}, {}): train labels {} instead of {}', s, k, lab, [t for t, _ in want])
    require(got == [v for _, v in want], 'get_series({}, {}): values {} instead of {}', s, k, got, [v for _, v in want])


def check_counts(dc, spec, s, k):
    ser = dc.get_data_counts(s, k)
    want = [(t, len(r)) for t in spec.tids for r in [spec.rows(s, k, t)] if r is not None]
    got = [(int(t), int(c)) for t, c in zip(ser.index, ser.values)]
    require(got == want, 'get_data_counts({}, {}): {} instead of {}', s, k, got, want)


def series_allowed(dc, s, k):
    """Data of two dimensions is only a series if some train has several entries"""
    if not k.startswith('image.'):
        return True
    counts = [int(c) for f in dc._source_index[s] for c in f.get_index(s, 'image')[1]]
    return not any(counts) or max(counts) > 1


def case(rng, scratch, desc):
    files = gen(rng)
    dc = open_coll(rng, files, scratch)
    spec = Coll(files)
    dc, spec = select_some_trains(rng, dc, spec)
    spec = spec.with_sel({s: spec.sel[s] for s in spec.sel if s in dc.all_sources})
    desc.update(spec.describe())
    for s in sorted(spec.sel):
        for k in sorted(spec.sel[s]):
            check_counts(dc, spec, s, k)
            if not series_allowed(dc, s, k):
                continue
            check_series(dc, spec, s, k)
    check_frame(rng, dc, spec)
    close(dc)


def check_frame(rng, dc, spec):
    for group in ('single', 'multi'):
        fields = {}
        for s in spec.sel:
            ks = {k for k in spec.sel[s]
                  if (k.startswith('image.')) == (group == 'multi') and series_allowed(dc, s, k) and rng.random() < .8}
            if ks:
                fields[s] = ks
        if not fields:
            continue
        ts = rng.random() < .5
        cols = {(s + '/' + (k[:-6] if k.endswith('.value') else k)): (s, k)
                for s in fields for k in fields[s] if ts or not k.endswith('.timestamp')}
        if not cols:
            continue
        df = dc.get_dataframe(fields, timestamps=ts)
        require(set(df.columns) == set(cols) and len(df.columns) == len(cols),
                'get_dataframe: columns {} instead of {}', sorted(df.columns), sorted(cols))
        lab = {}
        for c, (s, k) in cols.items():
            if group == 'single':
                lab[c] = dict(spec_rows(spec, s, k))
            else:
                lab[c] = {}
                for t in spec.tids:
                    p = spec.rows(s, 'image.pulseId', t)
                    if p is not None:
                        for i, v in zip(np.ravel(p), np.ravel(spec.rows(s, k, t))):
                            lab[c][(t, int(i))] = v
        rows = set().union(*[set(l) for l in lab.values()])
        norm = (lambda x: int(x)) if group == 'single' else (lambda x: (int(x[0]), int(x[1])))
        got_rows = [norm(x) for x in df.index]
        require(sorted(got_rows) == sorted(rows), 'get_dataframe: rows {} instead of {}', got_rows, sorted(rows))
        for c in cols:
            for r, v in zip(got_rows, df[c].values):
                if r in lab[c]:
                    require(not pd.isnull(v) and float(v) == float(lab[c][r]), 'get_dataframe[{}] at {}: {} instead of {}', c, r, v, lab[c][r])
                else:
                    require(pd.isnull(v), 'get_dataframe[{}] at {}: {} where there is no entry', c, r, v)


PARTS = [('tables', case, 200)]
