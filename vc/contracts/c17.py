"""C17: CrystFEL geometry files.

The text written is collected; numbers in it are symbolic. It is read by the
rules of the CrystFEL format as cfelpyutils implements them (assumed; the
bounded part uses the real cfelpyutils)."""
import re
from ..bshim import Text
from ._geo import *
from .c15 import tile_origin

G = load('geometry2')
FMT = load('geometry2.crystfel_fmt')

NUM = re.compile('\x01(\\d+)\x02$')
PLAIN = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$')


def number(text, positional=False):
    """float(text); numbers of a vector are written without exponent"""
    text = text.strip()
    m = NUM.match(text.lstrip('+')) if not text.startswith('+-') else None
    if m:
        kind, spec, v = Text.table[int(m.group(1))]
        if kind == 'num' and spec in (('positional',) if positional else ('', '+', 'r', 'positional', 'scientific')):
            return V.term(v)
        if kind == 'num' and isinstance(v, SInt) and spec in ('', '+', 'd'):
            return V.term(v)
        return E().fresh('rounded', RSORT)          # written with limited precision: only close to it
    if not PLAIN.match(text) or positional and 'e' in text.lower():
        raise ValueError('not a number: %r' % text)
    return R(Fraction(text))


def integer(text):
    m = NUM.match(text.strip())
    if m:
        kind, spec, v = Text.table[int(m.group(1))]
        assert kind == 'num' and isinstance(v, SInt) and spec in ('', 'd'), 'not an integer'
        return v
    return int(text)


VEC = re.compile('\\s*([+-]?(?:\x01\\d+\x02|[0-9.]+))\\s*([xyz])')


def vector(text):
    r, pos = {'x': R(0), 'y': R(0), 'z': R(0)}, 0
    while text[pos:].strip():
        m = VEC.match(text, pos)
        if not m:
            raise ValueError('not a vector: %r' % text)
        r[m.group(2)] = number(m.group(1), True)
        pos = m.end()
    return [r['x'], r['y'], r['z']]


def parse(text):
    """Global values and panels of a .geom file"""
    base = {'res': None, 'coffset': R(0), 'fs': [R(1), R(0), R(0)], 'ss': [R(0), R(1), R(0)], 'clen': None,
            'adu_per_eV': None, 'data': None, 'mask': None, 'cnx': None, 'cny': None}
    panels, top = {}, {}
    for line in text.split('\n'):
        line = line.split(';', 1)[0].strip()
        if not line:
            continue
        key, eq, value = [x.strip() for x in line.partition('=')]
        assert eq, 'not a line of a geometry file: %r' % line
        d = base
        if '/' in key:
            name, key = key.split('/')
            if name not in panels:
                panels[name] = dict(base)
            d = panels[name]
        elif key.startswith('rigid_group') or key in ('photon_energy',):
            d = top
        if key in ('min_ss', 'max_ss', 'min_fs', 'max_fs'):
            d[key] = integer(value)
        elif key in ('ss', 'fs'):
            d[key] = vector(value)
        elif key in ('corner_x', 'corner_y'):
            d['cn' + key[-1]] = number(value)
        elif key in ('res', 'coffset', 'clen', 'adu_per_eV', 'photon_energy'):
            d[key] = number(value)
        else:
            d[key] = value
    return panels, base, top


class File:
    def __init__(self, name, log):
        self.name, self.log = name, log
        log.append(('open', name))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def write(self, text):
        self.log.append(('write', text))

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def close(self):
        self.log.append(('close', self.name))


def opener(log):
    def open(name, mode='r', *a, **k):
        assert mode in ('w', 'wt', 'x'), 'opened to write text'
        return File(name, log)
    return open


def panel_dict(d):
    """What load_crystfel_geometry returns for a panel (assumed)"""
    r = lambda t: V.SReal(t)
    out = {'res': r(d['res']), 'cnx': r(d['cnx']), 'cny': r(d['cny']), 'coffset': r(d['coffset']),
           'clen': r(d['clen']) if d['clen'] is not None else None}
    for v in ('ss', 'fs'):
        for c, x in zip('xyz', d[v]):
            out[v + c] = r(x)
    for k in ('min_ss', 'max_ss', 'min_fs', 'max_fs'):
        out[k] = d[k]
    return out


DIMS = [('frame', 'modno', 'ss', 'fs'), ('frame', 'ss', 'fs'), ('modno', 0, 'frame', 'ss', 'fs'),
        ('frame', 'modno', 1, 'fs', 'ss')]


def options(eng):
    kw = {}
    for n in ('adu_per_ev', 'clen', 'photon_energy'):
        if eng.choose(n):
            kw[n] = sreal(n)
    return kw


def check_text(name, panels, base, top, tiles, kind, dims, kw, data, mask):
    nm, nt, (tss, tfs), (_, mss, mfs), px = LAYOUT[kind]
    prove(name + ': a panel for each tile', set(panels) == {'p%da%d' % k for k in tiles})
    fr = dims.index('frame')
    for (m, t), _ in tiles.items():
        d = panels.get('p%da%d' % (m, t))
        if d is None:
            return
        w = '%s: ' % name
        prove(w + 'data path', d['data'] == data)
        prove(w + 'mask path', d['mask'] == mask)
        for k, n in (('clen', 'clen'), ('adu_per_eV', 'adu_per_ev')):
            prove(w + k, d[k] is None if n not in kw else d[k] is not None and d[k] == kw[n].t)
        want = ['%' if i == fr else str(m) if x == 'modno' else str(x) for i, x in enumerate(dims)]
        prove(w + 'dimensions', [d.get('dim%d' % i) for i in range(10)] == want + [None] * (10 - len(dims)))
        a, b = tile_origin(kind, t)
        a += 0 if 'modno' in dims else m * mss
        for k, want in (('min_ss', a), ('max_ss', a + tss - 1), ('min_fs', b), ('max_fs', b + tfs - 1)):
            prove(w + 'slices of the tile', I(V.term(d[k])) == want if isinstance(d.get(k), Sym) else d.get(k) == want)
        prove(w + 'resolution', near(d['res'], R(1 / px), R(1 / px)))
    prove(name + ': photon energy', 'photon_energy' not in top if 'photon_energy' not in kw else
          'photon_energy' in top and top['photon_energy'] == kw['photon_energy'].t)


def check_tiles(name, modules, tiles, kind):
    """modules (read back) are the tiles written"""
    nm, nt, (tss, tfs), _, px = LAYOUT[kind]
    for (m, t), (corner, ss, fs) in tiles.items():
        got = modules(m, t)
        w = '%s: ' % name
        prove(w + 'tile size', (got.ss_pixels, got.fs_pixels) == (tss, tfs))
        trio = ((got.corner_pos, corner), (got.ss_vec, ss), (got.fs_vec, fs))
        prove(w + 'vectors of length 3', all(is_vec3(g) for g, v in trio))
        prove(w + 'corner and steps', z3.And(*[near0(x, y) for g, v in trio for x, y in zip(vec(g), v)]))


def near0(got, want):
    """Equal to a relative error of 1e-12"""
    d = R(got) - R(want)
    s = R(TOL) * absr(R(want))
    return z3.And(d <= s, -d <= s)


def write(geom, kw, dims, data, mask, log):
    k = dict(kw)
    if data != '/entry_1/instrument_1/detector_1/data':
        k['data_path'] = data
    if mask:
        k['mask_path'] = mask
    if dims != DIMS[0]:
        k['dims'] = dims
    with patched(FMT, open=opener(log)), patched(G, open=opener(log)):
        return geom.write_crystfel_geom('x.geom', **k)


def vectors(n, z):
    v = [sreal('%s_%s' % (n, c)) for c in 'xyz']
    if z is not None:
        fact(v[2].t == 0 if not z else v[2].t != 0)
    return v


def text_of(log):
    prove('written to the file given, which is closed', log[0] == ('open', 'x.geom') and log[-1] == ('close', 'x.geom')
          and all(k == 'write' for k, _ in log[1:-1]))
    return ''.join(x for k, x in log if k == 'write')


def crystfel(kind):
    """Write and read a whole geometry"""
    eng = E()
    eng.path.log['text'] = True
    nm, nt, (tss, tfs), _, px = LAYOUT[kind]
    cls = getattr(G, CLASSNAME[kind])
    z = eng.choose('vectors have a z component')
    tiles, modules = {}, []
    for m in range(nm):
        modules.append([])
        for t in range(nt):
            n = 'm%dt%d' % (m, t)
            c, ss, fs = vectors(n + 'c', None), vectors(n + 'ss', z), vectors(n + 'fs', z)
            tiles[m, t] = c, ss, fs
            modules[-1].append(G.GeometryFragment(np_array(c), np_array(ss), np_array(fs), tss, tfs))
    geom = cls(modules)
    dims = DIMS[1] if z else DIMS[0]
    kw = {'adu_per_ev': sreal('adu'), 'clen': sreal('clen')}
    log = []
    with no_exception('write'):
        write(geom, kw, dims, '/data/x', None, log)
    text = text_of(log)
    try:
        panels, base, top = parse(text)
    except (ValueError, AssertionError) as e:
        prove('the file can be read: %s' % str(e)[:60].replace('\x01', '<').replace('\x02', '>'), False)
        return
    check_text('file', panels, base, top, tiles, kind, dims, kw, '/data/x', None)
    asked = []

    def load_geometry(name):
        asked.append(name)
        return {'panels': {k: panel_dict(v) for k, v in panels.items()}, 'beam': {}, 'clen': None}
    with patched(G, load_crystfel_geometry=load_geometry):
        with no_exception('read'):
            g2 = cls.from_crystfel_geom('x.geom')
    prove('read from the file given', asked == ['x.geom'])
    prove('class', type(g2) is cls)
    prove('number of modules and tiles', [len(m) for m in g2.modules] == [nt] * nm)
    check_tiles('read back', lambda m, t: g2.modules[m][t], tiles, kind)


FN = ('geometry2.crystfel_fmt.write_crystfel_geom', 'geometry2.crystfel_fmt.frag_to_crystfel',
      'geometry2.crystfel_fmt._crystfel_format_vec', 'geometry2.crystfel_fmt.get_rigid_groups',
      'geometry2.DetectorGeometryBase.write_crystfel_geom', 'geometry2.DetectorGeometryBase.from_crystfel_geom',
      'geometry2.GeometryFragment.from_panel_dict')
ASSUME = ('str of a float and format_float_positional without precision read back as the same number',
          'load_crystfel_geometry reads a file by the rules of the format')


@contract('C17', *FN, 'geometry2.AGIPD_1MGeometry._tile_slice', assumes=ASSUME)
def agipd_crystfel(eng):
    crystfel('AGIPD')


@contract('C17', *FN, 'geometry2.LPD_1MGeometry._tile_slice', assumes=ASSUME)
def lpd_crystfel(eng):
    crystfel('LPD')


@contract('C17', *FN, 'geometry2.DSSC_1MGeometry._tile_slice', assumes=ASSUME)
def dssc_crystfel(eng):
    crystfel('DSSC')


@contract('C17', *FN[:3], assumes=ASSUME + ('representative paths and lists of dimensions (4)',))
def one_tile(eng):
    """All options, for a single tile whose vectors are any"""
    eng.path.log['text'] = True
    kind = 'AGIPD'
    tss, tfs = LAYOUT[kind][2]
    c, ss, fs = vectors('c', None), vectors('ss', None), vectors('fs', None)
    geom = G.AGIPD_1MGeometry([[G.GeometryFragment(np_array(c), np_array(ss), np_array(fs), tss, tfs)]])
    kw = options(eng)
    k = 0
    while k < len(DIMS) - 1 and not eng.choose('dims %d' % k):
        k += 1
    dims = DIMS[k]
    data = '/a/b' if eng.choose('data path') else '/entry_1/instrument_1/detector_1/data'
    mask = '/c/d' if eng.choose('mask path') else None
    log = []
    with no_exception('write'):
        write(geom, kw, dims, data, mask, log)
    try:
        panels, base, top = parse(text_of(log))
    except (ValueError, AssertionError) as e:
        prove('the file can be read: %s' % str(e)[:60].replace('\x01', '<').replace('\x02', '>'), False)
        return
    tiles = {(0, 0): (c, ss, fs)}
    check_text('file', panels, base, top, tiles, kind, dims, kw, data, mask)
    if 'p0a0' in panels:
        with no_exception('tile'):
            t = G.GeometryFragment.from_panel_dict(panel_dict(panels['p0a0']))
        check_tiles('read back', lambda m, t_: t, tiles, kind)
    prove('name of the file remembered', geom.filename == 'x.geom')


@contract('C17', *FN[:1])
def no_frame(eng):
    """Without frame dimension nothing is written"""
    eng.path.log['text'] = True
    geom = G.AGIPD_1MGeometry([[G.GeometryFragment(*[np_array(vectors(n, None)) for n in ('c', 's', 'f')], 64, 128)]])
    log = []
    dims = [('modno', 'ss', 'fs'), ('ss', 'fs'), ('modno', 0, 'ss', 'fs')][
        0 if eng.choose('a') else 1 if eng.choose('b') else 2]
    try:
        write(geom, {}, dims, '/a', None, log)
    except ValueError:
        prove('no frame: nothing written', not any(k == 'write' for k, _ in log))
        return
    except Exception as e:
        prove('no frame: ValueError, not %s' % type(e).__name__, False)
        return
    prove('no frame: ValueError', False)
