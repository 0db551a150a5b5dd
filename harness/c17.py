"""C17 CrystFEL geometry files."""
import re
from .common import *
from .geomodel import *


def parse_geom(path):
    """Independent reader: {key: value string}, panels {name: {key: value}}, in
    the syntax of the CrystFEL manual."""
    top, panels = {}, {}
    for line in open(path):
        line = line.split(';')[0].strip()
        if not line:
            continue
        k, _, v = line.partition('=')
        k, v = k.strip(), v.strip()
        if '/' in k and not k.startswith('rigid'):
            p, _, kk = k.partition('/')
            require(kk not in panels.setdefault(p, {}), 'panel {}: {} given twice', p, kk)
            panels[p][kk] = v
        else:
            require(k not in top, '{} given twice', k)
            top[k] = v
    return top, panels


NUM = r'[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?'


def parse_vec(s):
    out = {'x': 0., 'y': 0., 'z': 0.}
    rest = s.replace(' ', '')
    while rest:
        m = re.match(r'(%s|[+-]?)([xyz])' % NUM, rest)
        require(m, 'cannot parse direction {!r}', s)
        n = m.group(1)
        out[m.group(2)] += float(n + '1' if n in ('', '+', '-') else n)
        rest = rest[m.end():]
    return np.array([out['x'], out['y'], out['z']])


def tweak(rng, kind, g):
    """Geometries whose numbers have special forms"""
    mode = rng.choice(['random', 'tiny', 'huge', 'flat', 'zero', 'exact'])
    for m, mod in enumerate(g.modules):
        for t, tile in enumerate(mod):
            if mode == 'tiny':
                tile.ss_vec[rng.randrange(3)] *= 10. ** -rng.randrange(3, 18)
                tile.fs_vec[rng.randrange(3)] *= 10. ** -rng.randrange(3, 18)
                tile.corner_pos[rng.randrange(3)] *= 10. ** -rng.randrange(3, 18)
            elif mode == 'huge':
                tile.corner_pos *= 1000
            elif mode == 'flat':
                tile.ss_vec[2] = tile.fs_vec[2] = 0
            elif mode == 'zero':
                tile.ss_vec[rng.randrange(3)] = 0.
                tile.corner_pos[2] = 0
            elif mode == 'exact':
                px = LAYOUT[kind][4]
                tile.ss_vec = np.array([0, 1, 0]) * px
                tile.fs_vec = np.array([-1, 0, 0]) * px
    return mode


DIMS = [('frame', 'modno', 'ss', 'fs'), ('frame', 'modno', 0, 'ss', 'fs'), ('frame', 'ss', 'fs'),
        ('modno', 'frame', 'ss', 'fs'), ('frame', 'modno', 'fs', 'ss'), ('ss', 'fs', 'frame'),
        ('frame', 1, 'ss', 'fs'), ('fs', 'ss', 'modno', 'frame'), ('frame', 'modno', 'ss', 'fs', 0)]


def case(rng, scratch, desc):
    kind = rng.choice(['AGIPD', 'LPD'])
    nm, nt, (tss, tfs), mshape, px = LAYOUT[kind]
    g, *_ = random_geom(rng, kind)
    mode = tweak(rng, kind, g)
    orig = [[(t.corner_pos.copy(), t.ss_vec.copy(), t.fs_vec.copy()) for t in m] for m in g.modules]
    kw = {}
    dims = ('frame', 'modno', 'ss', 'fs')
    if rng.random() < .8:
        dims = kw['dims'] = rng.choice(DIMS)
    data = '/entry_1/instrument_1/detector_1/data'
    if rng.random() < .5:
        data = kw['data_path'] = '/some/where/data_%d' % rng.randrange(9)
    for n, v in (('mask_path', '/some/mask'), ('adu_per_ev', rng.uniform(0, 1)), ('clen', rng.uniform(0, 6)),
                 ('photon_energy', rng.randrange(1000, 20000))):
        if rng.random() < .5:
            kw[n] = v
            if n == 'adu_per_ev' and rng.random() < .3:
                kw[n] = 1e-7
    desc.update(detector=kind, numbers=mode, args=repr(kw))
    path = os.path.join(scratch.new(), 'x.geom')
    g.write_crystfel_geom(path, **kw)
    top, panels = parse_geom(path)
    require(set(panels) == {'p{}a{}'.format(m, t) for m in range(nm) for t in range(nt)}, 'panels {}', sorted(panels)[:3])
    require(top.get('data') == data, 'data path {}', top.get('data'))
    require(top.get('mask') == kw.get('mask_path'), 'mask path {}', top.get('mask'))
    for n, k in (('adu_per_eV', 'adu_per_ev'), ('clen', 'clen'), ('photon_energy', 'photon_energy')):
        if k in kw:
            require(n in top and float(top[n]) == float(kw[k]), '{}: {} instead of {}', n, top.get(n), kw[k])
        else:
            require(n not in top, '{} = {} was not given', n, top.get(n))
    res = float(top['res'])
    require(np.isclose(res, 1 / px, rtol=1e-9), 'res = {}', res)
    tol = dict(rtol=1e-9, atol=1e-13)
    for m in range(nm):
        for t in range(nt):
            name = 'p{}a{}'.format(m, t)
            p = panels[name]
            c, s, f = orig[m][t]
            a, b = tile_origin(kind, t)
            if 'modno' not in dims:
                a += m * mshape[0]
            got = tuple(int(p[k]) for k in ('min_ss', 'max_ss', 'min_fs', 'max_fs'))
            require(got == (a, a + tss - 1, b, b + tfs - 1), '{}: data region {} instead of {}', name, got, (a, a + tss - 1, b, b + tfs - 1))
            require(np.allclose([float(p['corner_x']) / res, float(p['corner_y']) / res], c[:2], **tol), '{}: corner', name)
            # coffset is in metres in the CrystFEL format
            require(np.isclose(float(p['coffset']), c[2], **tol), '{}: coffset {} instead of {}', name, p['coffset'], c[2])
            for k, v in (('ss', s), ('fs', f)):
                require(np.allclose(parse_vec(p[k]) / res, v, **tol), '{}: {} = {} instead of {}', name, k, p[k], v / px)
            for i, d in enumerate(dims):
                gd = p.get('dim%d' % i, top.get('dim%d' % i))
                e = '%' if d == 'frame' else str(m) if d == 'modno' else str(d)
                require(gd == e, '{}: dim{} = {} instead of {}', name, i, gd, e)
            require(not any(k.startswith('dim') and int(k[3:]) >= len(dims) for k in p), '{}: extra dimensions', name)
    # CrystFEL requires the detector distance and the gain
    with open(path) as fh:
        text = fh.read()
    if 'clen' not in kw:
        text = 'clen = 1\n' + text
    if 'adu_per_ev' not in kw:
        text = 'adu_per_eV = 1\n' + text
    path3 = os.path.join(os.path.dirname(path), 'z.geom')
    with open(path3, 'w') as fh:
        fh.write(text)
    new = CLASSES[kind].from_crystfel_geom(path3)
    for m in range(nm):
        for t in range(nt):
            tile = new.modules[m][t]
            c, s, f = orig[m][t]
            w = 'loaded module {}, tile {}: '.format(m, t)
            require((tile.ss_pixels, tile.fs_pixels) == (tss, tfs), w + 'size')
            require(np.allclose(tile.corner_pos, c, **tol), w + 'corner {} instead of {}', tile.corner_pos, c)
            require(np.allclose(tile.ss_vec, s, **tol), w + 'ss {} instead of {}', tile.ss_vec, s)
            require(np.allclose(tile.fs_vec, f, **tol), w + 'fs {} instead of {}', tile.fs_vec, f)
    for m in range(nm):
        for t in range(nt):
            tile = g.modules[m][t]
            require(all(np.array_equal(x, y) for x, y in zip(orig[m][t], (tile.corner_pos, tile.ss_vec, tile.fs_vec))),
                    'writing changed the geometry')
    path2 = os.path.join(os.path.dirname(path), 'y.geom')
    raises(ValueError, lambda: g.write_crystfel_geom(path2, dims=('modno', 'ss', 'fs')), 'no frame dimension')
    require(not os.path.exists(path2), 'file written without a frame dimension')


PARTS = [('crystfel', case, 40)]
