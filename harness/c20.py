"""C20 geometry constructors."""
import h5py
from .common import *
from .geomodel import *


def close_to(a, b, what):
    require(np.shape(a) == (3,) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-12),
            '{}: {} instead of {}', what, a, b)


def check_frag(g, kind, m, t, corner, ss, fs):
    nm, nt, (tss, tfs), _, px = LAYOUT[kind]
    tile = g.modules[m][t]
    w = '{} module {}, tile {} '.format(kind, m, t)
    close_to(tile.corner_pos, corner, w + 'corner')
    close_to(tile.ss_vec, ss, w + 'slow-scan step')
    close_to(tile.fs_vec, fs, w + 'fast-scan step')
    require((tile.ss_pixels, tile.fs_pixels) == (tss, tfs), w + 'size')


def check_count(g, kind):
    nm, nt = LAYOUT[kind][:2]
    require(len(g.modules) == nm and all(len(m) == nt for m in g.modules), '{}: modules/tiles', kind)


def agipd(rng, scratch, desc):
    px = 2e-4
    quad = [(rng.uniform(-600, 600), rng.uniform(-600, 600)) for _ in range(4)]
    kw = {}
    unit = px
    ag, pg = 2, 29
    if rng.random() < .7:
        unit = kw['unit'] = rng.choice([px, 1e-3, 1., rng.uniform(1e-5, 2)])
    if rng.random() < .7:
        ag = kw['asic_gap'] = rng.uniform(0, 5)
    if rng.random() < .7:
        pg = kw['panel_gap'] = rng.uniform(0, 50)
    desc.update(quad_pos=quad, args=kw)
    arg = rng.choice([list, np.array])(quad)
    g = AGIPD_1MGeometry.from_quad_positions(arg, **kw)
    check_count(g, 'AGIPD')
    for m in range(16):
        q, i = divmod(m, 4)
        xo = 1 if q < 2 else -1
        yo = -1 if q < 2 else 1
        for t in range(8):
            corner = (quad[q][0] * unit + xo * t * (64 * px + ag * unit),
                      quad[q][1] * unit - i * (128 * px + pg * unit), 0)
            check_frag(g, 'AGIPD', m, t, corner, (xo * px, 0, 0), (0, yo * px, 0))
    # another unit, same lengths
    k = rng.choice([10, 1000, .5])
    g2 = AGIPD_1MGeometry.from_quad_positions([(x * k, y * k) for x, y in quad], asic_gap=ag * k, panel_gap=pg * k, unit=unit / k)
    a, b = g.get_pixel_positions(), g2.get_pixel_positions()
    require(np.allclose(a, b, rtol=1e-9, atol=1e-12), 'AGIPD: changing the unit changes the geometry')


def lpd(rng, scratch, desc):
    px = 5e-4
    quad = [(rng.uniform(-600, 600), rng.uniform(-600, 600)) for _ in range(4)]
    kw = {}
    unit = 1e-3
    ag = pg = 4 * px
    if rng.random() < .7:
        unit = kw['unit'] = rng.choice([px, 1e-3, 1., rng.uniform(1e-5, 2)])
    if rng.random() < .7:
        kw['asic_gap'] = rng.choice([0, rng.uniform(0, 5)])
        ag = kw['asic_gap'] * unit
    if rng.random() < .7:
        kw['panel_gap'] = rng.choice([0, rng.uniform(0, 5)])
        pg = kw['panel_gap'] * unit
    desc.update(quad_pos=quad, args=kw)
    g = LPD_1MGeometry.from_quad_positions(rng.choice([list, np.array])(quad), **kw)
    check_count(g, 'LPD')
    for m in range(16):
        q, i = divmod(m, 4)
        # last corner of the module, relative to the quadrant: modules run
        # down the far column, then up the near one
        col, row = [(1, 0), (1, 1), (0, 1), (0, 0)][i]
        mx = quad[q][0] * unit - col * (256 * px + ag + pg)
        my = quad[q][1] * unit - row * (256 * px + 7 * ag + pg)
        for t in range(16):
            c, r = (1, t) if t < 8 else (0, 15 - t)
            corner = (mx - c * (128 * px + ag) - 128 * px, my - r * (32 * px + ag) - 32 * px, 0)
            check_frag(g, 'LPD', m, t, corner, (0, px, 0), (px, 0, 0))
    k = rng.choice([10, 1000, .5])
    kw2 = {n: v * k for n, v in kw.items() if n.endswith('gap')}
    g2 = LPD_1MGeometry.from_quad_positions([(x * k, y * k) for x, y in quad], unit=unit / k, **kw2)
    require(np.allclose(g.get_pixel_positions(), g2.get_pixel_positions(), rtol=1e-9, atol=1e-12),
            'LPD: changing the unit changes the geometry')


def h5(rng, scratch, desc):
    kind = rng.choice(['LPD', 'DSSC'])
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    path = os.path.join(scratch.new(), 'geom.h5')
    quad = [(rng.uniform(-600, 600), rng.uniform(-600, 600)) for _ in range(4)]
    k = rng.choice([10, 1000, .5])
    path2 = os.path.join(os.path.dirname(path), 'geom2.h5')
    mp, tp = {}, {}
    nz = rng.choice([2, 3])
    with h5py.File(path, 'w') as f, h5py.File(path2, 'w') as f2:
        for q in range(4):
            for i in range(4):
                mp[q, i] = [rng.uniform(-200, 200) for _ in range(nz)]
                f['Q{}/M{}/Position'.format(q + 1, i + 1)] = mp[q, i]
                f2['Q{}/M{}/Position'.format(q + 1, i + 1)] = np.array(mp[q, i]) * k
                for t in range(nt):
                    tp[q, i, t] = [rng.uniform(-200, 200) for _ in range(nz)]
                    f['Q{}/M{}/T{:02}/Position'.format(q + 1, i + 1, t + 1)] = tp[q, i, t]
                    f2['Q{}/M{}/T{:02}/Position'.format(q + 1, i + 1, t + 1)] = np.array(tp[q, i, t]) * k
    unit = 1e-3
    kw = {}
    if rng.random() < .6:
        unit = kw['unit'] = rng.choice([1e-3, 1., rng.uniform(1e-5, 2)])
    desc.update(detector=kind, quad_pos=quad, args=kw)
    g = CLASSES[kind].from_h5_file_and_quad_positions(path, quad, **kw)
    check_count(g, kind)
    row = px * 1.5 / np.sqrt(3)
    for m in range(16):
        q, i = divmod(m, 4)
        for t in range(nt):
            x = (quad[q][0] + mp[q, i][0] + tp[q, i, t][0]) * unit
            y = (quad[q][1] + mp[q, i][1] + tp[q, i, t][1]) * unit
            if kind == 'LPD':
                check_frag(g, kind, m, t, (x - 128 * px, y - 32 * px, 0), (0, px, 0), (px, 0, 0))
            elif q < 2:
                check_frag(g, kind, m, t, (x + 256 * px, y, 0), (0, row, 0), (-px, 0, 0))
            else:
                check_frag(g, kind, m, t, (x, y + 128 * row, 0), (0, -row, 0), (px, 0, 0))
    g2 = CLASSES[kind].from_h5_file_and_quad_positions(path2, [(x * k, y * k) for x, y in quad], unit=unit / k)
    require(np.allclose(g.get_pixel_positions(), g2.get_pixel_positions(), rtol=1e-9, atol=1e-12),
            '{}: changing the unit changes the geometry', kind)
    raises(AssertionError, lambda: CLASSES[kind].from_h5_file_and_quad_positions(path, quad[:3]), 'three quadrants')


PARTS = [('agipd', agipd, 40), ('lpd', lpd, 40), ('h5', h5, 40)]
