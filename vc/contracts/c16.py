"""C16: image assembly on the pixel grid"""
from ._geo import *
from .c15 import geometry, tile_origin, shape_is

G = load('geometry2')
GRID = {'AGIPD': (2e-4, 2e-4), 'LPD': (5e-4, 5e-4), 'DSSC': (236e-6, 236e-6 * 1.5 / 3 ** .5)}
HALF = R(Fraction(1, 2))
SMALL = R(Fraction(1, 10 ** 9))


def close(got, want):
    d = R(got) - want
    return z3.And(d <= SMALL, -d <= SMALL)


def cell_of(swap, so, fo, nss, nfs, i, j):
    """Cell of pixel i, j within the rectangle which the tile covers"""
    s = i if so > 0 else nss - 1 - i
    f = j if fo > 0 else nfs - 1 - j
    return (f, s) if swap else (s, f)


@contract('C16', 'geometry2.GeometryFragment.snap', 'geometry2.GridGeometryFragment.__init__',
          assumes=('the pixel step vectors of a tile round to axis-aligned unit vectors (property: tiles snap to '
                   'axis-aligned places)',))
def snap(eng):
    kind = 'AGIPD' if eng.choose('AGIPD') else 'LPD' if eng.choose('LPD') else 'DSSC'
    gx, gy = GRID[kind]
    grid = getattr(G, CLASSNAME[kind])([])._pixel_shape
    for a, b in zip(grid, (gx, gy)):
        prove(kind + ': size of the pixels of the grid', abs(float(a) / b - 1) < 1e-9)
    # (the code's own numbers from here on)
    gx, gy = R(float(grid[0])), R(float(grid[1]))
    swap = eng.choose('fast scan vertical')
    so, fo = (1 if eng.choose('slow scan forwards') else -1), (1 if eng.choose('fast scan forwards') else -1)
    ssv, fsv = ((so, 0), (0, fo)) if swap else ((0, so), (fo, 0))
    vecs = []
    for w, unit in (('corner', None), ('ss', ssv), ('fs', fsv)):
        v = [sreal(w + c) for c in 'xyz']
        if unit:
            for c in (0, 1):
                r = v[c].t / (gx, gy)[c]
                fact(z3.And(r > unit[c] - HALF, r < unit[c] + HALF))
        vecs.append(v)
    nss, nfs = sint('ss_pixels', 1), sint('fs_pixels', 1)
    tile = G.GeometryFragment(*[np_array(v) for v in vecs], nss, nfs)
    with no_exception('snap'):
        s = tile.snap(px_shape=grid)
    dims = (nfs.t, nss.t) if swap else (nss.t, nfs.t)
    prove('snap: size of the rectangle', z3.And(*[I(V.term(s.pixel_dims[c])) == dims[c] for c in (0, 1)]))
    dirs = (fo, so) if swap else (so, fo)   # y, x
    corner = [I(V.term(s.corner_idx[c])) + (0 if dirs[c] > 0 else dims[c]) for c in (0, 1)]
    for c, size in ((0, gy), (1, gx)):
        x = vecs[0][1 - c].t / size
        d = x - z3.ToReal(corner[c])
        prove('snap: the corner is rounded to the grid', z3.And(d <= HALF, -d <= HALF))
        prove('snap: opposite corner', I(V.term(s.opp_corner_idx[c])) == I(V.term(s.corner_idx[c])) + dims[c])
    n = eng.choose('leading dimension')
    N = sint('N', 0)
    shape = ((N.t,) if n else ()) + (nss.t, nfs.t)
    D = eng.fresh_fn('data', [ISORT] * len(shape), RSORT)
    data = new(shape, np.dtype('f4'), lambda idx: D(*[I(i) for i in idx]))
    with no_exception('transform'):
        out = s.transform(data)
    prove('transform: shape', z3.And(*[I(x) == I(y) for x, y in zip(out._shape, shape[:n] + dims)])
          if out.ndim == len(shape) else False)
    with scope():
        q = [skolem('frame', 0, N.t)] if n else []
        i, j = skolem('i', 0, nss.t), skolem('j', 0, nfs.t)
        y, x = cell_of(swap, so, fo, nss.t, nfs.t, i, j)
        prove('transform: inside the rectangle', z3.And(y >= 0, y < dims[0], x >= 0, x < dims[1]))
        prove('transform: every pixel in its cell', at(out, *q, y, x) == D(*q, i, j))


class Tile:
    """A tile on the grid, as the contract of snap describes it"""
    def __init__(self, name, tss, tfs):
        eng = E()
        self.name = name
        self.swap = eng.fresh(name + '_transposed', BSORT)
        self.cy, self.cx = eng.fresh(name + '_y'), eng.fresh(name + '_x')
        self.h, self.w = z3.If(self.swap, I(tfs), I(tss)), z3.If(self.swap, I(tss), I(tfs))
        self.ss_pixels, self.fs_pixels = tss, tfs
        mk = lambda *v: np_array([mk_int(x) for x in v])
        self.corner_idx = mk(self.cy, self.cx)
        self.pixel_dims = mk(self.h, self.w)
        self.opp_corner_idx = mk(self.cy + self.h, self.cx + self.w)
        # the cell of a pixel, and the pixel of a cell
        self.src = [eng.fresh_fn(name + '_src', [ISORT, ISORT], ISORT) for _ in 'ij']
        self.dst = [eng.fresh_fn(name + '_dst', [ISORT, ISORT], ISORT) for _ in 'yx']

    def transform(self, arr):
        sh = arr._shape
        prove('only tiles are transformed', len(sh) >= 2 and (sh[-2], sh[-1]) == (self.ss_pixels, self.fs_pixels))
        f = arr.fn()
        si, sj = self.src
        return new(sh[:-2] + (self.h, self.w), arr.dtype,
                   lambda idx: f(idx[:-2] + (si(I(idx[-2]), I(idx[-1])), sj(I(idx[-2]), I(idx[-1])))))

    def pixel(self, i, j):
        """Cell (within the rectangle) of pixel i, j; learn the contract"""
        y, x = self.dst[0](i, j), self.dst[1](i, j)
        fact(z3.Implies(z3.And(i >= 0, i < self.ss_pixels, j >= 0, j < self.fs_pixels),
                        z3.And(y >= 0, y < self.h, x >= 0, x < self.w, self.src[0](y, x) == i, self.src[1](y, x) == j)))
        return y, x

    def covers(self, y, x):
        return z3.And(y >= self.cy, y < self.cy + self.h, x >= self.cx, x < self.cx + self.w)


def assembly(kind, full=True):
    eng = E()
    nm, nt, (tss, tfs), dshape, px = LAYOUT[kind]
    tiles = [[Tile('t%d_%d' % (m, t), tss, tfs) for t in range(nt)] for m in range(nm)]
    flat = [t for mod in tiles for t in mod]
    geom = getattr(G, CLASSNAME[kind])([])
    with no_exception(kind + ' grid'):
        s = G.SnappedGeometry(tiles, geom)
    cen = [I(V.term(s.centre[c])) for c in (0, 1)]
    size = [I(V.term(s.size_yx[c])) for c in (0, 1)]
    for t in flat:
        prove(kind + ' grid: room for every tile', z3.And(t.cy + cen[0] >= 0, t.cy + t.h + cen[0] <= size[0],
                                                         t.cx + cen[1] >= 0, t.cx + t.w + cen[1] <= size[1]))
    prove(kind + ' grid: no larger than needed', z3.And(
        z3.Or(*[t.cy + cen[0] == 0 for t in flat]), z3.Or(*[t.cx + cen[1] == 0 for t in flat]),
        z3.Or(*[t.cy + t.h + cen[0] == size[0] for t in flat]), z3.Or(*[t.cx + t.w + cen[1] == size[1] for t in flat])))
    lead = not full or eng.choose('leading dimension')
    N = sint('N', 0)
    n = (N.t,) if lead else ()
    dt = np.dtype('f4')
    D = eng.fresh_fn('data', [ISORT] * (len(n) + 3), RSORT)
    data = new(n + dshape, dt, lambda idx: D(*[I(i) for i in idx]))
    given = eng.choose('output array given')
    if given:
        O = eng.fresh_fn('old', [ISORT] * (len(n) + 2), RSORT)
        out = new(n + tuple(size), np.dtype('f8' if full and eng.choose('wider') else 'f4'), lambda idx: O(*[I(i) for i in idx]))
    with no_exception(kind + ' assembly'):
        got, centre = s.position_modules(data, out=out) if given else s.position_modules(data)
    if given:
        prove(kind + ' assembly: into the array given', got is out)
    else:
        prove(kind + ' assembly: type', got.dtype == dt)
    prove(kind + ' assembly: shape', z3.And(*[I(x) == I(y) for x, y in zip(got._shape, n + tuple(size))])
          if got.ndim == len(n) + 2 else False)
    prove(kind + ' assembly: centre', z3.And(*[I(V.term(centre[c])) == cen[c] for c in (0, 1)]))
    # the value of any one cell
    var = [eng.fresh('any_' + c) for c in ('frame', 'y', 'x')[0 if lead else 1:]]
    any_cell = at(got, *var)
    cell = lambda *idx: z3.substitute(any_cell, *zip(var, [I(k) for k in idx]))
    yx = [eng.fresh('any_' + c) for c in 'yx']
    free = [(o, z3.Not(o.covers(*yx))) for o in flat]
    for m in range(nm):
        for t in range(nt):
            with scope():
                q = [skolem('frame', 0, N.t)] if lead else []
                i, j = skolem('i', 0, tss), skolem('j', 0, tfs)
                tile = tiles[m][t]
                y, x = tile.pixel(i, j)
                y, x = y + tile.cy, x + tile.cx
                # tiles do not overlap (property)
                suppose(z3.And(*[z3.substitute(c, (yx[0], y), (yx[1], x)) for o, c in free if o is not tile]))
                a, b = tile_origin(kind, t)
                prove('%s assembly: pixels of module %d tile %d' % (kind, m, t),
                      cell(*q, y + cen[0], x + cen[1]) == D(*q, m, i + a, j + b))
    with scope():
        q = [skolem('frame', 0, N.t)] if lead else []
        y, x = skolem('y', 0, size[0]), skolem('x', 0, size[1])
        suppose(z3.And(*[z3.substitute(c, (yx[0], y - cen[0]), (yx[1], x - cen[1])) for o, c in free]))
        prove(kind + ' assembly: other cells', cell(*q, y, x) == (O(*q, y, x) if given else V.nan_term()))


@contract('C16', 'geometry2.SnappedGeometry.__init__', 'geometry2.SnappedGeometry._get_dimensions',
          'geometry2.SnappedGeometry.position_modules', 'geometry2.SnappedGeometry.make_output_array',
          assumes=('no two tiles cover the same cell (property)',))
def dssc_assembly(eng):
    assembly('DSSC')


@contract('C16', 'geometry2.SnappedGeometry.position_modules', assumes=('no two tiles cover the same cell (property)',))
def agipd_assembly(eng):
    assembly('AGIPD', False)


@contract('C16', 'geometry2.SnappedGeometry.position_modules', assumes=('no two tiles cover the same cell (property)',))
def lpd_assembly(eng):
    assembly('LPD', False)
