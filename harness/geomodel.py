"""Independent description of the detectors' data layouts and random geometries."""
import numpy as np
from karabo_data.geometry2 import AGIPD_1MGeometry, LPD_1MGeometry, DSSC_1MGeometry, GeometryFragment

CLASSES = {'AGIPD': AGIPD_1MGeometry, 'LPD': LPD_1MGeometry, 'DSSC': DSSC_1MGeometry}
# modules, tiles per module, tile pixels (ss, fs), module pixels (ss, fs), pixel size (m)
LAYOUT = {'AGIPD': (16, 8, (64, 128), (512, 128), 2e-4),
          'LPD': (16, 16, (32, 128), (256, 256), 5e-4),
          'DSSC': (16, 2, (128, 256), (128, 512), 236e-6)}
# aspect of the pixel grid (x, y) for assembled images
GRID = {'AGIPD': (2e-4, 2e-4), 'LPD': (5e-4, 5e-4), 'DSSC': (236e-6, 236e-6 * 1.5 / np.sqrt(3))}


def tile_origin(kind, t):
    """(ss, fs) of the first pixel of tile t in its module's data"""
    if kind == 'AGIPD':
        return 64 * t, 0
    if kind == 'LPD':
        return ((7 - t) * 32, 0) if t < 8 else ((t - 8) * 32, 128)
    return 0, 256 * t


def random_geom(rng, kind, z=True):
    nprng = np.random.default_rng(rng.randrange(2**32))
    nm, nt, (tss, tfs), _, px = LAYOUT[kind]
    c = nprng.normal(0, .1, (nm, nt, 3))
    s = nprng.normal(0, px, (nm, nt, 3))
    f = nprng.normal(0, px, (nm, nt, 3))
    if not z:
        c[..., 2] = s[..., 2] = f[..., 2] = 0
    mods = [[GeometryFragment(c[m, t], s[m, t], f[m, t], tss, tfs) for t in range(nt)] for m in range(nm)]
    return CLASSES[kind](mods), c, s, f


def pixel_coords(kind, ss, fs, centre):
    """Coordinates within the tile of pixel (ss, fs), in steps"""
    y, x = float(ss), float(fs)
    if kind == 'DSSC':
        if ss % 2:
            x -= .5
        if centre:
            y += 2 / 3
            x += .5
    elif centre:
        y += .5
        x += .5
    return y, x
