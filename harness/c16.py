"""C16 assembling images on the pixel grid."""
from .common import *
from .geomodel import *
from .model import fresh_values


def snapped_geom(rng, kind):
    """Non-overlapping tiles with random orientations near the pixel grid."""
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    gx, gy = GRID[kind]
    n = nm * nt
    cell = max(tss, tfs) + 2
    cols = int(np.ceil(np.sqrt(n)))
    off = (rng.randrange(-3000, 3000), rng.randrange(-3000, 3000))
    slots = list(range(cols * cols))
    rng.shuffle(slots)
    mods, place = [], {}
    same_orient = rng.random() < .2
    o0 = None
    for m in range(nm):
        tiles = []
        for t in range(nt):
            k = slots[m * nt + t]
            lx, ly = off[0] + (k % cols) * cell + rng.randrange(0, 3), off[1] + (k // cols) * cell + rng.randrange(0, 3)
            if o0 is None or not same_orient:
                o0 = (rng.random() < .5, rng.choice([1, -1]), rng.choice([1, -1]))
            swap, so, fo = o0
            # (x, y) unit steps
            fsv, ssv = ((fo, 0), (0, so)) if not swap else ((0, fo), (so, 0))
            w, h = (tfs, tss) if not swap else (tss, tfs)
            cx = lx + (w if (fsv[0] + ssv[0]) < 0 else 0)
            cy = ly + (h if (fsv[1] + ssv[1]) < 0 else 0)
            place[m, t] = (cx, cy, fsv, ssv)
            j = lambda: rng.uniform(-.45, .45)
            jv = lambda: rng.uniform(-.3, .3)
            corner = np.array([(cx + j()) * gx, (cy + j()) * gy, rng.uniform(-1, 1)])
            ss = np.array([(ssv[0] + jv()) * gx, (ssv[1] + jv()) * gy, rng.uniform(-1, 1) * px])
            fs = np.array([(fsv[0] + jv()) * gx, (fsv[1] + jv()) * gy, rng.uniform(-1, 1) * px])
            tiles.append(GeometryFragment(corner, ss, fs, tss, tfs))
        mods.append(tiles)
    return CLASSES[kind](mods), place


def expected(kind, place, data, target, centre, blank):
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    out = np.array(target)
    iy, ix = np.mgrid[0:tss, 0:tfs]
    for (m, t), (cx, cy, fsv, ssv) in place.items():
        a, b = tile_origin(kind, t)
        # the pixel occupies the cell between its corner and the corner one
        # step on in both directions
        x = cx + iy * ssv[0] + ix * fsv[0] + min(ssv[0] + fsv[0], 0)
        y = cy + iy * ssv[1] + ix * fsv[1] + min(ssv[1] + fsv[1], 0)
        out[..., y + centre[0], x + centre[1]] = data[..., m, a:a + tss, b:b + tfs]
    return out


def bounds(kind, place):
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    xs, ys = [], []
    for cx, cy, fsv, ssv in place.values():
        xs += [cx, cx + tss * ssv[0] + tfs * fsv[0]]
        ys += [cy, cy + tss * ssv[1] + tfs * fsv[1]]
    return min(ys), max(ys), min(xs), max(xs)


def case(rng, scratch, desc):
    kind = ['AGIPD', 'LPD', 'DSSC'][rng.index % 3]
    desc['detector'] = kind
    g, place = snapped_geom(rng, kind)
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    y0, y1, x0, x1 = bounds(kind, place)
    for rep in range(2):
        extra = rng.choice([(), (), (2,), (1, 2), (0,)])
        dt = rng.choice(['f4', 'f8', 'u2', 'i4'])
        nprng = np.random.default_rng(rng.randrange(2**32))
        data = nprng.integers(1, 60000 if dt == 'u2' else 2**22, extra + (nm,) + mshape).astype(dt)
        if dt == 'f4' and rng.random() < .3:
            data.flat[::7] = np.nan
        how = rng.choice(['new', 'out', 'own', 'wider'])
        desc.update(rep=rep, extra=extra, dtype=dt, out=how)
        blank = None
        if how == 'new' or (how in ('out',) and dt[0] != 'f'):
            how = 'new'
            got, centre = g.position_modules_fast(data)
            target = np.full(got.shape, np.nan if dt[0] == 'f' else 0, dt)
        else:
            odt = dt if how != 'wider' else {'f4': 'f8', 'u2': 'i4', 'i4': 'i8', 'f8': 'f8'}[dt]
            if how == 'out':
                o = g.output_array_for_position_fast(extra_shape=extra, dtype=np.dtype(odt))
                require(np.isnan(o).all() and o.dtype == np.dtype(odt), 'output_array_for_position_fast: not empty')
            else:
                o = nprng.integers(-9, -1, extra + (y1 - y0, x1 - x0)).astype('i8')
                o = (o % 251).astype(odt)
            target = o.copy()
            got, centre = g.position_modules_fast(data, out=o)
            require(got is o, 'the output array passed in was not used')
        require(got.shape == extra + (y1 - y0, x1 - x0), 'shape {} instead of {}', got.shape, extra + (y1 - y0, x1 - x0))
        require(tuple(int(v) for v in centre) == (-y0, -x0), 'centre {} instead of {}', centre, (-y0, -x0))
        if how == 'new':
            require(got.dtype == data.dtype, 'dtype {}', got.dtype)
        want = expected(kind, place, data, target, (-y0, -x0), blank)
        if how == 'new' and dt[0] != 'f':
            # integers have no nan: only the covered cells are specified
            mask = expected(kind, place, np.ones((nm,) + mshape), np.zeros((y1 - y0, x1 - x0)), (-y0, -x0), 0) > 0
            ok = (got == want) | ~mask
        else:
            ok = (got == want) | (np.isnan(want) & np.isnan(got) if dt[0] == 'f' else False)
        bad = np.argwhere(~ok)
        require(len(bad) == 0, 'wrong value at {} of {}', bad[:3], got.shape)
        if rng.random() < .3:
            # the same data again, into an array already used
            again, c2 = g.position_modules_fast(data, out=got.copy())
            require(np.array_equal(again[..., :, :], got, equal_nan=dt[0] == 'f'), 'assembling again differs')
    raises(TypeError, lambda: g.position_modules_fast(np.zeros((nm,) + mshape, 'f8'),
                                                     out=np.zeros((y1 - y0, x1 - x0), 'f4')), 'unsafe output type')
    raises(AssertionError, lambda: g.position_modules_fast(np.zeros((nm,) + mshape, 'f4'),
                                                          out=np.zeros((y1 - y0 + 1, x1 - x0), 'f4')), 'output shape')


PARTS = [('assemble', case, 48)]
