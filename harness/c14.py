"""C14 stacking."""
import re
from .common import *
from .model import fresh_values
from karabo_data import stack_data, stack_detector_data

DTYPES = ['f4', 'f8', 'u2', 'u4', 'i2', 'i4', 'i8', 'u1']


def default_fill(dt):
    return np.nan if np.dtype(dt).kind == 'f' else 0


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and \
        np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def gen_train(rng):
    nmod = rng.choice([16, 16, 1, 2, 4, 8, 20])
    present = sorted(rng.sample(range(nmod), rng.randrange(1, min(nmod, 6) + 1)))
    nd = rng.randrange(1, 5)
    shape = tuple(rng.randrange(1, 4) for _ in range(nd))
    dt = rng.choice(DTYPES)
    arrays, train = {}, {}
    order = present[:]
    for m in rng.sample(range(nmod), rng.randrange(0, min(3, nmod) + 1)):
        if m not in order:
            order.append(m)
    rng.shuffle(order)
    empties = rng.random() < .4
    for m in order:
        src = 'SPB_DET_AGIPD1M-{}/DET/{}CH0:xtdf'.format(rng.choice([1, 1, 7]), m)
        d = train[src] = {'metadata': {'source': src}}
        if m in present:
            d['image.data'] = arrays[m] = fresh_values(shape, dt)
        elif empties and rng.random() < .7:
            d['image.data'] = np.zeros((0,) + shape[1:], dt)
    return nmod, shape, dt, arrays, train


def reference(nmod, shape, dt, arrays, axis, fill):
    full = [arrays[m] if m in arrays else np.full(shape, fill, dt) for m in range(nmod)]
    return np.stack(full, axis=axis)


def rand_index(rng, n):
    """An index for an ordinary dimension of length n"""
    k = rng.random()
    if k < .3:
        return slice(None)
    if k < .5 and n:
        v = rng.randrange(-n, n)
        return v
    a = rng.choice([None, rng.randrange(-n - 1, n + 2)])
    b = rng.choice([None, rng.randrange(-n - 1, n + 2)])
    return slice(a, b, rng.choice([None, 1, 2, -1]))


def rand_expr(rng, shape, sax, allow_mod=True):
    """(index tuple, still has the module axis?)"""
    nmod = shape[sax]
    idx = [rand_index(rng, n) for n in shape]
    if allow_mod and rng.random() < .4:
        idx[sax] = rng.randrange(-nmod, nmod)
    else:
        idx[sax] = slice(None)
    form = rng.choice(['full', 'short', 'ellipsis', 'scalar'])
    if form == 'short':
        idx = idx[:rng.randrange(1, len(idx) + 1)]
    elif form == 'ellipsis':
        a = rng.randrange(0, len(idx) + 1)
        b = rng.randrange(a, len(idx) + 1)
        idx = idx[:a] + [Ellipsis] + idx[b:]
    elif form == 'scalar':
        return idx[0]
    return tuple(idx)


def asarr(x):
    return x.asarray() if hasattr(x, 'asarray') else x


def view(rng, scratch, desc):
    nmod, shape, dt, arrays, train = gen_train(rng)
    nd = len(shape) + 1
    axis = rng.randrange(-nd, nd)
    if rng.random() < .5 and nd >= 3:
        axis = -3
    fill = rng.choice(['default', 22, 0, 'nan'])
    if fill == 'nan' and np.dtype(dt).kind != 'f':
        fill = 5
    fv = default_fill(dt) if fill == 'default' else np.nan if fill == 'nan' else fill
    kw = {'axis': axis} if (axis != -3 or rng.random() < .5) else {}
    if fill != 'default':
        kw['fillvalue'] = fv
    if nmod != 16:
        kw['modules'] = nmod
    desc.update(modules=nmod, shape=shape, dtype=dt, present=sorted(arrays), args=repr(kw),
                sources=list(train))
    want = reference(nmod, shape, dt, arrays, axis, fv)
    before = {m: a.copy() for m, a in arrays.items()}
    got = stack_detector_data(train, 'image.data', **kw)
    require(isinstance(got, np.ndarray) and eq(got, want), 'stack_detector_data({}): wrong array', kw)
    sv = stack_detector_data(train, 'image.data', real_array=False, **kw)
    require(tuple(sv.shape) == want.shape and sv.ndim == want.ndim and np.dtype(sv.dtype) == want.dtype,
            'view: shape {} instead of {}', sv.shape, want.shape)
    sax = axis % nd
    ops = desc['ops'] = []
    for _ in range(6):
        if rng.random() < .3:
            ops.append('asarray')
            require(eq(sv.asarray(), want), 'view.asarray() differs from the copied array')
            continue
        e = rand_expr(rng, want.shape, sax)
        ops.append(repr(e))
        r, w = sv[e], want[e]
        require(tuple(r.shape) == w.shape, 'view[{}]: shape {} instead of {}', e, r.shape, w.shape)
        require(eq(asarr(r), w), 'view[{}]: {!r} instead of {!r}', e, asarr(r), w)
        # repeated indexing of the result
        if hasattr(r, 'asarray'):
            ee = e if isinstance(e, tuple) else (e,)
            if Ellipsis in ee:
                k = ee.index(Ellipsis)
                ee = ee[:k] + (slice(None),) * (nd - len(ee) + 1) + ee[k + 1:]
            ee = ee + (slice(None),) * (nd - len(ee))
            nax = sum(not isinstance(x, int) for x in ee[:sax])
            for _ in range(2):
                e2 = rand_expr(rng, w.shape, nax)
                ops.append('[{}][{}]'.format(e, e2))
                require(eq(asarr(r[e2]), w[e2]), 'view[{}][{}]: {!r} instead of {!r}', e, e2, asarr(r[e2]), w[e2])
    # indexes past the end, either way
    for m in (nmod, nmod + 3, -nmod - 1, -nmod - 4):
        e = tuple(slice(None) for _ in range(sax)) + (m,)
        raises(IndexError, lambda: sv[e], 'view[module {} of {}]'.format(m, nmod))
    require(eq(sv.asarray(), want), 'view.asarray() differs after indexing')
    require(all(np.array_equal(before[m], arrays[m]) for m in arrays), 'the data was modified')


def detector_errors(rng, scratch, desc):
    nmod, shape, dt, arrays, train = gen_train(rng)
    srcs = [s for s in train if 'image.data' in train[s] and train[s]['image.data'].shape == shape]
    raises(ValueError, lambda: stack_detector_data({}, 'image.data'), 'no data')
    for real in (True, False):
        kw = dict(modules=nmod, real_array=real)
        if len(srcs) > 1:
            t = {s: dict(d) for s, d in train.items()}
            s = rng.choice(srcs)
            t[s]['image.data'] = t[s]['image.data'].astype('f8' if dt != 'f8' else 'f4')
            raises(ValueError, lambda: stack_detector_data(t, 'image.data', **kw), 'mismatched dtypes')
            t = {s: dict(d) for s, d in train.items()}
            bad = rng.choice([shape + (1,), (shape[0] + 1,) + shape[1:], shape[:-1] + (shape[-1] + 2,), shape[1:] if len(shape) > 1 else shape + (2,)])
            t[s]['image.data'] = np.zeros(bad, dt)
            desc['shapes'] = [repr(x['image.data'].shape) for x in t.values() if 'image.data' in x]
            raises(ValueError, lambda: stack_detector_data(t, 'image.data', **kw), 'mismatched shapes')
            # an empty array is only acceptable if the other dimensions agree
            if len(shape) > 1:
                t = {s: dict(d) for s, d in train.items()}
                t[s]['image.data'] = np.zeros((0,) + shape[1:-1] + (shape[-1] + 1,), dt)
                raises(ValueError, lambda: stack_detector_data(t, 'image.data', **kw), 'empty array of another shape')
        t = dict(train)
        t['SA1_XTD2_XGM/DOOCS/MAIN'] = {'image.data': np.zeros(shape, dt)}
        raises(ValueError, lambda: stack_detector_data(t, 'image.data', **kw), 'non-detector source')
        t = dict(train)
        t['SPB_DET_AGIPD1M-1/DET/{}CH0:xtdf'.format(nmod + rng.randrange(3))] = {'image.data': np.zeros(shape, dt)}
        raises(IndexError, lambda: stack_detector_data(t, 'image.data', **kw), 'module out of range')
        t = {s: {k: v for k, v in d.items() if k != 'image.data'} for s, d in train.items()}
        raises(ValueError, lambda: stack_detector_data(t, 'image.data', **kw), 'no module has data')


def plain(rng, scratch, desc):
    n = rng.randrange(1, 7)
    shape = tuple(rng.randrange(1, 4) for _ in range(rng.randrange(0, 4)))
    dt = rng.choice(DTYPES)
    names = {}
    used = set()
    while len(names) < n:
        nums = tuple(rng.choice([0, 1, 2, 9, 10, 11, 100]) for _ in range(rng.choice([1, 2, 2])))
        if nums in used:
            continue
        used.add(nums)
        pre = rng.choice(['A', 'B', 'Z_Q', 'det'])
        names[pre + '_'.join(str(x).zfill(rng.choice([1, 1, 3])) + rng.choice('/xy') for x in nums)] = nums
    order = list(names)
    rng.shuffle(order)
    train = {s: {'image.data': fresh_values(shape, dt)} for s in order}
    xc = rng.sample(order, rng.randrange(0, len(order)))
    axis = rng.randrange(-len(shape) - 1, len(shape) + 1)
    kw = {'axis': axis}
    if xc:
        kw['xcept'] = xc
        for s in xc:
            if rng.random() < .5:
                train[s] = {'other': 1}
    desc.update(devices=order, xcept=xc, shape=shape, axis=axis, dtype=dt)
    left = sorted((s for s in order if s not in xc), key=lambda s: names[s])
    got = stack_data(train, 'image.data', **kw)
    want = np.stack([train[s]['image.data'] for s in left], axis=axis)
    require(same(got, want), 'stack_data: wrong array')
    raises(ValueError, lambda: stack_data(train, 'image.data', xcept=order), 'everything excluded')
    raises(ValueError, lambda: stack_data({}, 'image.data'), 'no data')
    if len(left) > 1:
        t = {s: dict(train[s]) for s in left}
        t[left[0]]['image.data'] = t[left[0]]['image.data'].astype('f8' if dt != 'f8' else 'u1')
        raises(ValueError, lambda: stack_data(t, 'image.data', axis=axis), 'mismatched dtypes')
        t = {s: dict(train[s]) for s in left}
        t[left[-1]]['image.data'] = np.zeros(shape + (2,), dt)
        raises(ValueError, lambda: stack_data(t, 'image.data', axis=axis), 'mismatched shapes')


PARTS = [('view', view, 700), ('errors', detector_errors, 150), ('plain', plain, 200)]
