"""C15 geometry position views."""
from .common import *
from .geomodel import *

HEX = [(4 / 3 * a, b) for a, b in [(0, .5), (.25, 1), (.75, 1), (1, .5), (.75, 0), (.25, 0)]]
SQUARE = [(0, 0), (1, 0), (1, 1), (0, 1)]


def expected_positions(kind, c, s, f, centre):
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    out = np.full((nm,) + mshape + (3,), np.nan)
    y = np.arange(tss, dtype=float)[:, None].repeat(tfs, 1)
    x = np.arange(tfs, dtype=float)[None, :].repeat(tss, 0)
    if kind == 'DSSC':
        x[1::2] -= .5
        if centre:
            y += 2 / 3
            x += .5
    elif centre:
        y += .5
        x += .5
    for m in range(nm):
        for t in range(nt):
            a, b = tile_origin(kind, t)
            out[m, a:a + tss, b:b + tfs] = c[m, t] + y[..., None] * s[m, t] + x[..., None] * f[m, t]
    return out


def case(rng, scratch, desc):
    kind = ['AGIPD', 'LPD', 'DSSC'][rng.index % 3]
    desc['detector'] = kind
    g, c, s, f = random_geom(rng, kind)
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    order = rng.choice([(True, False), (False, True), (None, True, False)])
    for centre in order:
        want = expected_positions(kind, c, s, f, centre is not False)
        got = g.get_pixel_positions() if centre is None else g.get_pixel_positions(centre=centre)
        require(got.shape == want.shape, 'positions: shape {}', got.shape)
        bad = np.argwhere(~np.isclose(got, want, rtol=0, atol=1e-9))
        require(len(bad) == 0, 'get_pixel_positions(centre={}): wrong at {}', centre, bad[:3])
    # tiles of a module
    data = np.arange(mshape[0] * mshape[1]).reshape(mshape)
    extra = rng.choice([(), (2,), (2, 1)])
    data = np.broadcast_to(data, extra + mshape)
    tiles = g.split_tiles(data)
    require(len(tiles) == nt, 'split_tiles: {} tiles', len(tiles))
    for t in range(nt):
        a, b = tile_origin(kind, t)
        require(np.array_equal(tiles[t], data[..., a:a + tss, b:b + tfs]), 'split_tiles: tile {} is another region', t)
    # distortion array
    pos = expected_positions(kind, c, s, f, False).reshape(-1, mshape[1], 3)
    vs = np.zeros((nm,) + mshape + (3,))
    vf = np.zeros((nm,) + mshape + (3,))
    for m in range(nm):
        for t in range(nt):
            a, b = tile_origin(kind, t)
            vs[m, a:a + tss, b:b + tfs] = s[m, t]
            vf[m, a:a + tss, b:b + tfs] = f[m, t]
    vs, vf = vs.reshape(pos.shape), vf.reshape(pos.shape)
    corners = HEX if kind == 'DSSC' else SQUARE
    want = np.stack([pos + a * vs + b * vf for a, b in corners], axis=2)[..., ::-1]
    neg = rng.random() < .5
    got = g.to_distortion_array(allow_negative_xy=True) if neg else g.to_distortion_array()
    if not neg:
        want = want.copy()
        want[..., 1:] -= want[..., 1:].min(axis=(0, 1, 2))
    require(got.shape == want.shape, 'distortion array: shape {}', got.shape)
    require(got.dtype == np.float32, 'distortion array: type {}', got.dtype)
    bad = np.argwhere(~np.isclose(got, want, rtol=0, atol=1e-6))
    require(len(bad) == 0, 'distortion array (allow_negative_xy={}): wrong at {}', neg, bad[:3])
    if not neg:
        require((got[..., 1:] >= 0).all(), 'negative x or y')
    # data coordinates
    if kind != 'DSSC':
        n = rng.choice([1, 5, 300])
        shape = (n,) if rng.random() < .6 else (n, 2)
        nprng = np.random.default_rng(rng.randrange(2**32))
        mno = nprng.integers(0, nm, shape).astype(rng.choice(['i8', 'i4', 'i2', 'i1', 'u1', 'u8'])
                                                  if rng.random() < .7 else 'i8')
        mode = rng.choice(['real', 'int', 'half', 'edges'])
        if mode == 'real':
            ss, fs = nprng.uniform(0, mshape[0], shape), nprng.uniform(0, mshape[1], shape)
        elif mode == 'edges':
            ss = nprng.integers(0, mshape[0] // tss, shape) * float(tss)
            fs = nprng.integers(0, mshape[1] // tfs, shape) * float(tfs)
        else:
            ss, fs = nprng.integers(0, mshape[0], shape), nprng.integers(0, mshape[1], shape)
            if mode == 'half':
                ss, fs = ss + .5, fs + .5
        got = g.data_coords_to_positions(mno, ss, fs)
        require(got.shape == shape + (3,), 'data_coords_to_positions: shape {}', got.shape)
        for ix in np.ndindex(*shape):
            for t in range(nt):
                a, b = tile_origin(kind, t)
                if a <= ss[ix] < a + tss and b <= fs[ix] < b + tfs:
                    break
            m = int(mno[ix])
            w = c[m, t] + (ss[ix] - a) * s[m, t] + (fs[ix] - b) * f[m, t]
            require(np.allclose(got[ix], w, rtol=0, atol=1e-9),
                    'data_coords_to_positions: module {}, ss {}, fs {} ({}): {} instead of {}', m, ss[ix], fs[ix], mno.dtype, got[ix], w)
            if mode == 'half':
                require(np.allclose(got[ix], expected_positions_at(kind, c, s, f, m, int(ss[ix]), int(fs[ix])), rtol=0, atol=1e-9),
                        'pixel centre differs')


def expected_positions_at(kind, c, s, f, m, ss, fs):
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    for t in range(nt):
        a, b = tile_origin(kind, t)
        if a <= ss < a + tss and b <= fs < b + tfs:
            y, x = pixel_coords(kind, ss - a, fs - b, True)
            return c[m, t] + y * s[m, t] + x * f[m, t]


PARTS = [('views', case, 48)]
