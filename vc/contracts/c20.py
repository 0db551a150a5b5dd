"""C20: geometry constructors"""
from ._geo import *

G = load('geometry2')


def check(name, g, kind, want):
    """want(module, tile) -> corner, ss, fs, scale"""
    nm, nt, (tss, tfs), _, px = LAYOUT[kind]
    prove(name + ': class', type(g) is getattr(G, CLASSNAME[kind]))
    prove(name + ': number of modules', len(g.modules) == nm)
    for m in range(nm):
        prove(name + ': number of tiles', len(g.modules[m]) == nt)
        for t in range(nt):
            tile = g.modules[m][t]
            w = '%s: module %d tile %d ' % (name, m, t)
            prove(w + 'size', (tile.ss_pixels == tss) & (tile.fs_pixels == tfs) if isinstance(tile.ss_pixels, Sym)
                  or isinstance(tile.fs_pixels, Sym) else (tile.ss_pixels, tile.fs_pixels) == (tss, tfs))
            for v in (tile.corner_pos, tile.ss_vec, tile.fs_vec):
                prove(w + 'vectors of length 3', is_vec3(v))
            corner, ss, fs, scale = want(m, t)
            prove(w + 'corner', z3.And(*[near(a, b, *scale) for a, b in zip(vec(tile.corner_pos), corner)]))
            prove(w + 'slow-scan step', z3.And(*[near(a, b) for a, b in zip(vec(tile.ss_vec), ss)]))
            prove(w + 'fast-scan step', z3.And(*[near(a, b) for a, b in zip(vec(tile.fs_vec), fs)]))


def quads():
    return [(sreal('qx%d' % q), sreal('qy%d' % q)) for q in range(4)]


def inputs(qp):
    # a list of pairs or an array
    kind = E().choose('quad_pos array')
    return np_array(qp) if kind else qp


def options(unit0, **gaps):
    """Keyword arguments given or not, and the values which apply"""
    kw, val = {}, {}
    if E().choose('unit given'):
        u = val['unit'] = sreal('unit')
        fact(u.t > 0)
        kw['unit'] = u
    else:
        val['unit'] = unit0
    for n, v in gaps.items():
        if E().choose(n + ' given'):
            g = val[n] = sreal(n)
            fact(g.t >= 0)
            kw[n] = g
        else:
            val[n] = v
    return kw, val


def agipd_spec(qx, qy, unit, ag, pg, m, t):
    px = R(2e-4)
    xo, yo = [(1, -1), (1, -1), (-1, 1), (-1, 1)][m // 4]
    corner = (qx * unit + xo * t * (64 * px + ag * unit), qy * unit - (m % 4) * (128 * px + pg * unit), 0)
    return corner, (xo * px, 0, 0), (0, yo * px, 0)


@contract('C20', 'geometry2.AGIPD_1MGeometry.from_quad_positions', 'geometry2.GeometryFragment.__init__',
          'geometry2.DetectorGeometryBase.__init__')
def agipd_from_quad_positions(eng):
    qp = quads()
    kw, val = options(2e-4, asic_gap=2, panel_gap=29)
    arg = inputs(qp)
    with no_exception('AGIPD'):
        g = G.AGIPD_1MGeometry.from_quad_positions(arg, **kw)
    u, ag, pg = R(val['unit']), R(val['asic_gap']), R(val['panel_gap'])

    def want(m, t):
        qx, qy = R(qp[m // 4][0]), R(qp[m // 4][1])
        return agipd_spec(qx, qy, u, ag, pg, m, t) + ((qx * u, qy * u, 1000 * ag * u, 1000 * pg * u, 1),)
    check('AGIPD', g, 'AGIPD', want)


def lpd_spec(qx, qy, unit, ag, pg, m, t):
    """ag, pg in metres"""
    px = R(5e-4)
    # modules run down the column with larger x, and up the other one
    col, row = [(1, 0), (1, 1), (0, 1), (0, 0)][m % 4]
    mx = qx * unit - col * (256 * px + ag + pg)
    my = qy * unit - row * (256 * px + 7 * ag + pg)
    # so do the tiles of a module
    c, r = (1, t) if t < 8 else (0, 15 - t)
    corner = (mx - c * (128 * px + ag) - 128 * px, my - r * (32 * px + ag) - 32 * px, 0)
    return corner, (0, px, 0), (px, 0, 0)


@contract('C20', 'geometry2.LPD_1MGeometry.from_quad_positions', 'geometry2.GeometryFragment.__init__',
          'geometry2.DetectorGeometryBase.__init__')
def lpd_from_quad_positions(eng):
    qp = quads()
    kw, val = options(1e-3, asic_gap=None, panel_gap=None)
    arg = inputs(qp)
    with no_exception('LPD'):
        g = G.LPD_1MGeometry.from_quad_positions(arg, **kw)
    u = R(val['unit'])
    ag, pg = [R(4 * 5e-4) if val[k] is None else R(val[k]) * u for k in ('asic_gap', 'panel_gap')]

    def want(m, t):
        qx, qy = R(qp[m // 4][0]), R(qp[m // 4][1])
        return lpd_spec(qx, qy, u, ag, pg, m, t) + ((qx * u, qy * u, 1000 * ag, 1000 * pg, 1),)
    check('LPD', g, 'LPD', want)


def h5_positions(kind):
    nm, nt = LAYOUT[kind][:2]
    data, mp, tp = {}, {}, {}
    for m in range(nm):
        q, i = m // 4 + 1, m % 4 + 1
        for t in range(nt + 1):
            name = 'Q%d/M%d/' % (q, i) + ('T%02d/' % t if t else '') + 'Position'
            v = [sreal('pos_%d_%d_%s' % (m, t, c)) for c in 'xyz']
            data[name] = np_array(v)
            if t:
                tp[m, t - 1] = v
            else:
                mp[m] = v
    return data, mp, tp


class FakeH5:
    def __init__(self, data):
        self.data = data

    def File(self, path, mode='r', **kw):
        if mode != 'r':
            prove('the geometry file is only read', False)
        E().path.log['opened'] = path
        return Group(self.data)


def from_h5(kind, spec):
    data, mp, tp = h5_positions(kind)
    qp = quads()
    kw, val = options(1e-3)
    cls = getattr(G, CLASSNAME[kind])
    with patched(G, h5py=FakeH5(data)):
        with no_exception(kind + ' file'):
            g = cls.from_h5_file_and_quad_positions('geom.h5', inputs(qp), **kw)
    prove(kind + ' file: the file given is read', E().path.log.get('opened') == 'geom.h5')
    u = R(val['unit'])

    def want(m, t):
        x, y = [(R(qp[m // 4][c]) + R(mp[m][c]) + R(tp[m, t][c])) * u for c in (0, 1)]
        terms = [R(v[c]) * u for c in (0, 1) for v in (qp[m // 4], mp[m], tp[m, t])]
        return spec(x, y, m, t) + ((*terms, 1),)
    check(kind + ' file', g, kind, want)


@contract('C20', 'geometry2.LPD_1MGeometry.from_h5_file_and_quad_positions', 'geometry2.GeometryFragment.__init__',
          assumes=('h5py: reading a dataset of a geometry file gives its content',))
def lpd_from_h5(eng):
    px = R(5e-4)
    # positions are those of the last corner of a tile
    from_h5('LPD', lambda x, y, m, t: ((x - 128 * px, y - 32 * px, 0), (0, px, 0), (px, 0, 0)))


@contract('C20', 'geometry2.DSSC_1MGeometry.from_h5_file_and_quad_positions', 'geometry2.GeometryFragment.__init__',
          assumes=('h5py: reading a dataset of a geometry file gives its content',))
def dssc_from_h5(eng):
    px = R(236e-6)
    row = R(236e-6 * 1.5 / 3 ** .5)

    def spec(x, y, m, t):
        # positions are those of the corner with the lowest x and y
        xo, yo = [(-1, 1), (-1, 1), (1, -1), (1, -1)][m // 4]
        corner = (x + 256 * px, y, 0) if xo < 0 else (x, y + 128 * row, 0)
        return corner, (0, yo * row, 0), (xo * px, 0, 0)
    from_h5('DSSC', spec)


@contract('C20', 'lemma')
def unit_invariance(eng):
    """Lemma on the postconditions above: another unit with the numbers
    scaled to match gives the same geometry"""
    qx, qy, u, ag, pg, k = [sreal(n).t for n in ('qx', 'qy', 'unit', 'asic_gap', 'panel_gap', 'k')]
    fact(k > 0)
    for m in (0, 1, 4, 5, 8, 11, 15):
        for t in (0, 3, 7):
            a = agipd_spec(qx, qy, u, ag, pg, m, t)[0]
            b = agipd_spec(qx * k, qy * k, u / k, ag * k, pg * k, m, t)[0]
            prove('AGIPD: unit', z3.And(*[R(x) == R(y) for x, y in zip(a, b)]))
            a = lpd_spec(qx, qy, u, ag * u, pg * u, m, t)[0]
            b = lpd_spec(qx * k, qy * k, u / k, (ag * k) * (u / k), (pg * k) * (u / k), m, t)[0]
            prove('LPD: unit', z3.And(*[R(x) == R(y) for x, y in zip(a, b)]))
