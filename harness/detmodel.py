"""Runs of multi-module detectors (for C12, C13)."""
from .model import *

DETS = {'AGIPD': ('SPB_DET_AGIPD1M-1', 'AGIPD1M'), 'LPD': ('FXE_DET_LPD1M-1', 'LPD1M'),
        'DSSC': ('SCS_DET_DSSC1M-1', 'DSSC1M')}


class DetRun:
    """{modno: source}, files, frames per train, style"""
    def rows(self, modno, key, tid):
        src = self.source[modno]
        g, _, k = key.partition('.')
        for f in self.files:
            if src in f.instrument and tid in f.tids:
                i = f.tids.index(tid)
                grp = f.instrument[src][g]
                a = grp.keys[k][grp.firsts[i]:grp.firsts[i] + grp.counts[i]]
                if len(a):
                    if a.ndim >= 2 and a.shape[1] == 1:
                        a = a[:, 0]
                    return a
        return None


def gen_det(rng, varying_pulses=None, inconsistent=False, complete=False, clean_pulses=False):
    r = DetRun()
    r.kind = rng.choice(sorted(DETS))
    r.name, r.cls = DETS[r.kind]
    nm = rng.randrange(1, 5)
    mods = sorted(rng.sample(range(16), nm))
    r.source = {m: '{}/DET/{}CH0:xtdf'.format(r.name, m) for m in mods}
    r.frames = rng.randrange(1, 5)
    r.raw = rng.random() < .5
    r.gainaxis = rng.choice([1, 2])
    r.colpulse = r.raw or rng.random() < .3      # pulse IDs with extra dimension
    r.shape = rng.choice([(3, 2), (2, 3), (4, 2)])
    r.mask = rng.random() < .5
    ntr = rng.randrange(1, 8)
    all_tids = gen_tids(rng, ntr, 10000 + rng.randrange(3), gaps=rng.random() < .5)
    varying = rng.random() < .4 if varying_pulses is None else varying_pulses
    base_p = sorted(rng.sample(range(0, 12), r.frames))
    r.pulses = {t: (sorted(rng.sample(range(0, 12), r.frames)) if varying else base_p) for t in all_tids}
    r.files = []
    r.all_tids = all_tids
    missing = complete is False and rng.random() < .7
    empties = not complete and rng.random() < .5
    per_mod = {}
    nodata = rng.choice(mods) if len(mods) > 1 and not complete and rng.random() < .1 else None
    nd_tids = all_tids[:1] if nodata is not None and len(all_tids) > 1 else []
    for m in mods:
        src = r.source[m]
        mt = [t for t in all_tids if not (missing and rng.random() < .25)] or [all_tids[0]]
        if nd_tids:
            mt = nd_tids if m == nodata else [t for t in all_tids if t not in nd_tids]
        # split in sequence files
        cuts = sorted(rng.sample(range(1, len(mt)), min(len(mt) - 1, rng.randrange(0, 3)))) if len(mt) > 1 else []
        parts = [mt[a:b] for a, b in zip([0] + cuts, cuts + [len(mt)])]
        for seq, tids in enumerate(parts):
            f = File('RAW-R0001-{}{:02d}-S{:05d}.h5'.format(r.kind, m, seq), tids,
                     fmt=rng.choice(['0.5', '1.0']), pad=rng.choice([0, 0, 2]),
                     index_style=rng.choice(['count', 'count', 'last']))
            counts = [0 if m == nodata or (empties and rng.random() < .2) else r.frames for _ in tids]
            tot = sum(counts)
            pid = [p for t, c in zip(tids, counts) for p in r.pulses[t][:c]]
            tid_pf = [t for t, c in zip(tids, counts) for _ in range(c)]
            if inconsistent:
                pass
            col = (lambda a: a.reshape(-1, 1)) if r.colpulse else (lambda a: a)
            keys = {'pulseId': col(np.array(pid, dtype='u8')),
                    'trainId': col(np.array(tid_pf, dtype='u8')),
                    'cellId': col(fresh_values((tot,), 'u2'))}
            if r.raw:
                keys['data'] = fresh_values((tot, r.gainaxis) + r.shape, 'u2')
            else:
                keys['data'] = fresh_values((tot,) + r.shape, 'f4')
                keys['gain'] = fresh_values((tot,) + r.shape, 'u1')
                if r.mask:
                    keys['mask'] = fresh_values((tot,) + r.shape, 'u4')
            hdr = Group([1 if c else 0 for c in counts],
                        {'pulseCount': fresh_values((sum(1 for c in counts if c),), 'u8')})
            f.instrument[src] = {'image': Group(counts, keys), 'header': hdr}
            r.files.append(f)
    rng.shuffle(r.files)
    return r


def describe(r):
    return {'detector': r.name, 'modules': sorted(r.source), 'frames': r.frames, 'raw': r.raw,
            'pulse IDs': r.pulses,
            'files': [{'name': f.name, 'trains': f.tids, 'frames': [g['image'].counts for g in f.instrument.values()][0]}
                      for f in r.files]}
