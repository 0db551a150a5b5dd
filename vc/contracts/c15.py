"""C15: geometry views"""
from ._geo import *

G = load('geometry2')
HALF = R(Fraction(1, 2))


def tile_origin(kind, t):
    """(ss, fs) of the first pixel of tile t in its module's data"""
    if kind == 'AGIPD':
        return 64 * t, 0
    if kind == 'LPD':
        return ((7 - t) * 32, 0) if t < 8 else ((t - 8) * 32, 128)
    return 0, 256 * t


def geometry(kind):
    """An arbitrary geometry, and its vectors: [m][t] -> corner, ss, fs"""
    nm, nt, (tss, tfs), _, px = LAYOUT[kind]
    mods, vecs = [], []
    for m in range(nm):
        mods.append([])
        vecs.append([])
        for t in range(nt):
            v = [[sreal('%s%s_%d_%d' % (w, c, m, t)) for c in 'xyz'] for w in ('corner_', 'ss_', 'fs_')]
            mods[-1].append(G.GeometryFragment(*[np_array(x) for x in v], tss, tfs))
            vecs[-1].append([[R(c) for c in x] for x in v])
    return getattr(G, CLASSNAME[kind])(mods), vecs


def in_tile(kind, i, j, centre):
    """Coordinates within the tile of its pixel i, j, in steps"""
    y, x = z3.ToReal(i), z3.ToReal(j)
    if kind == 'DSSC':
        x = x - z3.If(i % 2 == 1, HALF, R(0))
        if centre:
            y, x = y + R(2 / 3), x + HALF
    elif centre:
        y, x = y + HALF, x + HALF
    return y, x


def shape_is(a, shape):
    return isinstance(a, (Arr, np.ndarray)) and tuple(a._shape if isinstance(a, Arr) else a.shape) == tuple(shape)


def position_views(kind):
    nm, nt, (tss, tfs), dshape, px = LAYOUT[kind]
    for centre in (True, False):
        g, vecs = geometry(kind)
        with no_exception(kind):
            # twice: one call must not influence the other
            g.get_pixel_positions(centre=not centre)
            pos = g.get_pixel_positions(centre=centre) if not centre else g.get_pixel_positions()
        prove(kind + ' positions: shape', shape_is(pos, dshape + (3,)))
        for m in range(nm):
            for t in range(nt):
                with scope():
                    i, j = skolem('i', 0, tss), skolem('j', 0, tfs)
                    y, x = in_tile(kind, i, j, centre)
                    a, b = tile_origin(kind, t)
                    corner, ss, fs = vecs[m][t]
                    for c in range(3):
                        prove('%s positions (centre=%s): module %d tile %d %s' % (kind, centre, m, t, 'xyz'[c]),
                              at(pos, m, i + a, j + b, c) == corner[c] + y * ss[c] + x * fs[c])


@contract('C15', 'geometry2.DetectorGeometryBase.get_pixel_positions', 'geometry2.AGIPD_1MGeometry._tile_slice',
          'geometry2.DetectorGeometryBase._adjust_pixel_coords')
def agipd_positions(eng):
    position_views('AGIPD')


@contract('C15', 'geometry2.DetectorGeometryBase.get_pixel_positions', 'geometry2.LPD_1MGeometry._tile_slice',
          'geometry2.DetectorGeometryBase._adjust_pixel_coords')
def lpd_positions(eng):
    position_views('LPD')


@contract('C15', 'geometry2.DetectorGeometryBase.get_pixel_positions', 'geometry2.DSSC_1MGeometry._tile_slice',
          'geometry2.DSSC_1MGeometry._adjust_pixel_coords')
def dssc_positions(eng):
    position_views('DSSC')


def elem_any(a, *idx):
    return at(a, *idx)


def tiles_of(kind):
    """split_tiles gives the regions which _tile_slice (and the positions)
    refer to, for one frame or any number"""
    nm, nt, (tss, tfs), dshape, px = LAYOUT[kind]
    lead = E().choose('leading dimensions')
    N = sint('nframes', 0)
    shape = ((N.t,) if lead else ()) + dshape[1:]
    f = E().fresh_fn('data', [ISORT] * len(shape), RSORT)
    data = new(shape, np.dtype('f4'), lambda idx: f(*[I(i) for i in idx]))
    g, _ = geometry(kind)
    with no_exception(kind + ' split_tiles'):
        tiles = g.split_tiles(data)
    prove(kind + ' split_tiles: number of tiles', sym_len_is(tiles, nt))
    for t in range(nt):
        a, b = tile_origin(kind, t)
        prove('%s split_tiles: shape of tile %d' % (kind, t), z3.And(*[I(x) == I(y) for x, y in zip(
            tiles[t]._shape, shape[:lead] + (tss, tfs))]) if len(tiles[t]._shape) == len(shape) else False)
        with scope():
            q = [skolem('frame', 0, N.t)] if lead else []
            i, j = skolem('i', 0, tss), skolem('j', 0, tfs)
            prove('%s split_tiles: tile %d' % (kind, t), at(tiles[t], *q, i, j) == f(*q, i + a, j + b))


def sym_len_is(x, n):
    if isinstance(x, VList):
        return I(as_seq(x).n) == n
    return len(x) == n


@contract('C15 C16', 'geometry2.AGIPD_1MGeometry.split_tiles', 'geometry2.LPD_1MGeometry.split_tiles',
          'geometry2.DSSC_1MGeometry.split_tiles')
def split_tiles(eng):
    tiles_of('AGIPD' if eng.choose('AGIPD') else 'LPD' if eng.choose('LPD') else 'DSSC')


def coordinates(kind):
    nm, nt, (tss, tfs), dshape, px = LAYOUT[kind]
    N = sint('n', 0)
    dt = np.dtype('u1' if E().choose('8-bit module numbers') else 'i8')
    mno = sarr('module_no', N.t, dt, 0, nm)
    cdt = 'i8' if E().choose('integer coordinates') else 'f8'
    ss = sarr('slow_scan', N.t, cdt, 0, dshape[1])
    fs = sarr('fast_scan', N.t, cdt, 0, dshape[2])
    g, vecs = geometry(kind)
    with no_exception(kind + ' data_coords_to_positions'):
        pos = g.data_coords_to_positions(mno, ss, fs)
    prove(kind + ' coordinates: shape', z3.And(I(pos._shape[0]) == N.t, I(pos._shape[1]) == 3) if pos.ndim == 2 else False)
    for t in range(nt):
        a, b = tile_origin(kind, t)
        with scope():
            k = skolem('k', 0, N.t)
            y, x = R(at(ss, k)), R(at(fs, k))
            suppose(z3.And(y >= a, y < a + tss, x >= b, x < b + tfs))
            eqs = []
            for v, size, first in ((at(ss, k), tss, a), (at(fs, k), tfs, b)):
                q = v / size if v.sort() == ISORT else z3.ToInt(v / size)
                have('%s coordinates: tile coordinate' % kind, q == first // size)
                eqs.append((q, I(first // size)))
            for m in range(nm):
                corner, sv, fv = vecs[m][t]
                with scope():
                    suppose(at(mno, k) == m)
                    prove_with('%s coordinates: module %d tile %d' % (kind, m, t), z3.And(*[
                        at(pos, k, c) == corner[c] + (y - a) * sv[c] + (x - b) * fv[c] for c in range(3)]),
                        eqs + [(at(mno, k), I(m))])


@contract('C15', 'geometry2.DetectorGeometryBase.data_coords_to_positions', 'geometry2.AGIPD_1MGeometry._module_coords_to_tile')
def agipd_coordinates(eng):
    coordinates('AGIPD')


@contract('C15', 'geometry2.DetectorGeometryBase.data_coords_to_positions', 'geometry2.LPD_1MGeometry._module_coords_to_tile')
def lpd_coordinates(eng):
    coordinates('LPD')


SQUARE = [(0, 0), (1, 0), (1, 1), (0, 1)]
HEX = [(4 / 3 * a, b) for a, b in [(0, .5), (.25, 1), (.75, 1), (1, .5), (.75, 0), (.25, 0)]]


def distortion(kind):
    """Given positions P of the first corners (get_pixel_positions by its
    contract), the distortion array has the corners of every pixel"""
    nm, nt, (tss, tfs), dshape, px = LAYOUT[kind]
    g, vecs = geometry(kind)
    P = E().fresh_fn('P', [ISORT] * 4, RSORT)

    def positions(self, centre=True):
        prove(kind + ' distortion: from the first corners', self is g and not centre)
        return new(dshape + (3,), np.dtype('f8'), lambda idx: P(*[I(i) for i in idx]))
    shifted = E().choose('allow_negative_xy=False')
    with patched(type(g), get_pixel_positions=positions):
        with no_exception(kind + ' distortion'):
            out = g.to_distortion_array() if shifted else g.to_distortion_array(allow_negative_xy=True)
    corners = HEX if kind == 'DSSC' else SQUARE
    nc = len(corners)
    prove(kind + ' distortion: shape', shape_is(out, (nm * dshape[1], dshape[2], nc, 3)))
    prove(kind + ' distortion: type', out.dtype == np.float32)

    def corner(m, t, i, j, k, c):
        a, b = tile_origin(kind, t)
        o, ss, fs = vecs[m][t]
        # c: 0 is z
        return P(m, i + a, j + b, 2 - c) + R(corners[k][0]) * ss[2 - c] + R(corners[k][1]) * fs[2 - c]
    off = [R(0)] * 3
    if shifted:
        # the common offset: that of some pixel
        a, b = tile_origin(kind, 0)
        for c in (1, 2):
            off[c] = corner(0, 0, I(0), I(0), 0, c) - at(out, a, b, 0, c)
    for m in range(nm):
        for t in range(nt):
            a, b = tile_origin(kind, t)
            with scope():
                i, j = skolem('i', 0, tss), skolem('j', 0, tfs)
                y, x = i + (a + m * dshape[1]), j + b
                for k in range(nc):
                    got = [at(out, y, x, k, c) for c in range(3)]
                    prove('%s distortion: module %d tile %d corner %d' % (kind, m, t, k), z3.And(*[
                        got[c] == corner(m, t, i, j, k, c) - off[c] for c in range(3)]))
                    if shifted:
                        for e in E().path.log.get('extrema', []):
                            if tuple(e.shape) in ((nm * dshape[1], dshape[2], nc, 2), (nm * dshape[1], dshape[2], nc, 3)):
                                for c in range(e.shape[3]):
                                    e.bounds((y, x, k), (c,))
                            elif tuple(e.shape) == (nm * dshape[1], dshape[2], nc):
                                e.bounds((y, x, k), ())
                        prove('%s distortion: module %d tile %d corner %d not negative' % (kind, m, t, k),
                              z3.And(got[1] >= 0, got[2] >= 0))


@contract('C15', 'geometry2.DetectorGeometryBase.to_distortion_array', 'geometry2.DetectorGeometryBase._distortion_array_slice',
          'geometry2.AGIPD_1MGeometry.to_distortion_array')
def agipd_distortion(eng):
    distortion('AGIPD')


@contract('C15', 'geometry2.DetectorGeometryBase.to_distortion_array', 'geometry2.DetectorGeometryBase._distortion_array_slice',
          'geometry2.LPD_1MGeometry.to_distortion_array')
def lpd_distortion(eng):
    distortion('LPD')


@contract('C15', 'geometry2.DetectorGeometryBase.to_distortion_array', 'geometry2.DetectorGeometryBase._distortion_array_slice',
          'geometry2.DSSC_1MGeometry.to_distortion_array')
def dssc_distortion(eng):
    distortion('DSSC')
