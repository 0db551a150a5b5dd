"""C14: stacking module data.

Modules are named by concrete numbers (a representative detector), their data
are arrays of any shape and content."""
import itertools
from ..api import *

ST = load('stacking')
NAME = 'SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf'
DTYPES = ('f4', 'u2', 'i4')
ASSUME = ('representative numbers of modules and dimensions, and names of devices',)


def module(name, shape, dt):
    dt = np.dtype(dt)
    sort = {'b': BSORT, 'f': RSORT}.get(dt.kind, ISORT)
    f = E().fresh_fn(name, [ISORT] * len(shape), sort)
    a = new(tuple(shape), dt, lambda idx: f(*[I(i) for i in idx]))
    a.elem_fn = f
    return a


def dims(n, prefix='dim', lo=0):
    return tuple(sint('%s%d' % (prefix, i), lo, 2 ** 31) for i in range(n))


def fill_term(v, dt):
    """The element a fill value becomes"""
    return at(NPM.full((1,), v, dtype=dt), 0)


def stacked(arrays, nmod, shape, dt, axis, fill):
    """The full array: module m at index m of the axis"""
    nd = len(shape) + 1
    ax = axis % nd
    ft = fill_term(fill, dt)

    def el(idx):
        rest = [I(i) for i in idx[:ax] + idx[ax + 1:]]
        r = ft
        for m, a in arrays.items():
            r = z3.If(I(idx[ax]) == m, a.elem_fn(*rest), r)
        return r
    return new(tuple(dim(d) for d in shape[:ax] + (nmod,) + shape[ax:]), np.dtype(dt), lambda idx: el(tuple(idx)))


def same_array(name, got, want):
    prove(name + ': an array', isinstance(got, (Arr, np.ndarray)) and got.ndim == want.ndim)
    prove(name + ': type', got.dtype == want.dtype)
    for i, (a, b) in enumerate(zip(got.shape, want.shape)):
        prove(name + ': size of dimension %d' % i, I(dim(a)) == I(dim(b)))
    with scope():
        idx = [skolem('i%d' % i, 0, I(dim(d))) for i, d in enumerate(want.shape)]
        prove(name + ': elements', at(got, *idx) == at(want, *idx))


def fill_of(eng, dt):
    if eng.choose('default fill'):
        return None, np.nan if np.dtype(dt).kind == 'f' else 0
    v = sreal('fillvalue') if np.dtype(dt).kind == 'f' else sint('fillvalue', 0, 2 ** 15)
    return v, v


def choice(eng, what, options):
    for o in options[:-1]:
        if eng.choose('%s %s' % (what, o)):
            return o
    return options[-1]


def detector_case(eng, nd, ax, dt, nmod, others):
    shape = dims(nd)
    mods = choice(eng, 'modules', ['0', 'last', 'last and 0'] if nmod > 1 else ['0'])
    arrays = {m: module('data_m%d' % m, shape, dt) for m in
              {'0': [0], 'last': [nmod - 1], 'last and 0': [nmod - 1, 0]}[mods]}
    fill, fv = fill_of(eng, dt)
    other = choice(eng, 'another module', others) if nmod > 3 else 'no'
    train = {}
    if other != 'no':
        train[NAME % 3] = {'metadata': {}}
        if other == 'empty':
            train[NAME % 3]['image.data'] = module('data_empty', (0,) + shape[1:], dt)
            # if all are empty nothing is left out
            fact(T(shape[0]) > 0)
    for m in arrays:
        train[NAME % m] = {'image.data': arrays[m], 'metadata': {}}
    kw = {} if fill is None else {'fillvalue': fill}
    if nmod != 16:
        kw['modules'] = nmod
    if ax is not None:
        kw['axis'] = ax
    else:
        ax = -3
    view = bool(eng.choose('view'))
    want = stacked(arrays, nmod, shape, dt, ax, fv)
    with no_exception('stack_detector_data'):
        res = ST.stack_detector_data(VDict(train), 'image.data', real_array=not view, **kw)
        if view:
            prove('view: size', isinstance(res, ST.StackView) and res.ndim == nd + 1 and res.dtype == np.dtype(dt))
            for i, d in enumerate(want.shape):
                prove('view: size of dimension %d' % i, I(dim(res.shape[i])) == I(dim(d)))
            res = res.asarray()
    same_array('stack', res, want)


FN = ('stacking.stack_detector_data', 'stacking.StackView.__init__', 'stacking.StackView.asarray')


@contract('C14', *FN, assumes=ASSUME)
def detector(eng):
    """Any axis"""
    nd = choice(eng, 'dimensions', [1, 2, 3])
    ax = choice(eng, 'axis', ([None] if nd > 1 else []) + list(range(-nd - 1, nd + 1)))
    detector_case(eng, nd, ax, 'f4', choice(eng, 'modules of the detector', [16, 1]), ['no'])


@contract('C14', *FN, assumes=ASSUME)
def detector_types(eng):
    """Other types of data, modules without data"""
    detector_case(eng, 3, None, choice(eng, 'type', ['f4', 'u2', 'i4', 'f8']), 16, ['no', 'lacks the key', 'empty'])


@contract('C14', *FN, assumes=ASSUME)
def detector_errors(eng):
    what = choice(eng, 'case', ['nothing', 'other source', 'types', 'out of range', 'no data', 'shapes'])
    shape = dims(2)
    train = {NAME % 5: {'image.data': module('data_m5', shape, 'f4')}}
    real = bool(eng.choose('real'))
    kw = {}
    error = ValueError
    if what == 'nothing':
        train = {}
    elif what == 'other source':
        name = choice(eng, 'name', ['SA1_XTD2_XGM/DOOCS/MAIN', 'DET/3CH0:xtdf', 'A/DET/XCH0'])
        new_ = {name: {'image.data': module('data_x', shape, 'f4')}}
        train = dict(new_, **train) if eng.choose('first') else dict(train, **new_)
    elif what == 'types':
        train[NAME % 3] = {'image.data': module('data_m3', shape, choice(eng, 'type', ['f8', 'u2']))}
    elif what == 'out of range':
        kw['modules'] = choice(eng, 'modules', [5, 3, 1])
        train[NAME % 0] = {'image.data': module('data_m0', shape, 'f4')}
        error = IndexError
    elif what == 'no data':
        train = {NAME % 5: {'other': module('data_x', shape, 'f4')}, NAME % 3: {}}
    else:
        return shapes(eng, real)
    try:
        ST.stack_detector_data(VDict(train), 'image.data', real_array=real, **kw)
    except error:
        prove('error: for ' + what, True)
        return
    prove('error: for ' + what, False)


def shapes(eng, real):
    n = choice(eng, 'modules', [2, 3])
    mods = [7, 0, 3][:n]
    nds = [2] * n
    if eng.choose('dimensions differ'):
        nds[choice(eng, 'which', list(range(n)))] = choice(eng, 'to', [1, 3])
    sh = {m: dims(nd, 'd%d_' % m) for m, nd in zip(mods, nds)}
    arrays = {m: module('data_m%d' % m, sh[m], 'i4') for m in mods}
    train = VDict({NAME % m: {'image.data': arrays[m]} for m in mods})
    first = lambda m: T(sh[m][0])
    tails = z3.And(*[T(x) == T(y) for m in mods[1:] for x, y in zip(sh[mods[0]][1:], sh[m][1:])]) \
        if len(set(nds)) == 1 else z3.BoolVal(False)
    ok = z3.And(tails, *[z3.Or(first(a) == first(b), first(a) == 0, first(b) == 0)
                         for a, b in itertools.combinations(mods, 2)])
    try:
        res = ST.stack_detector_data(train, 'image.data', axis=0, real_array=real)
    except ValueError:
        prove('shapes: an error only if they do not match', z3.Not(ok))
        return
    prove('shapes: accepted only if they match', ok)
    if not real:
        return
    for i in range(1, 3):
        prove('shapes: dimension %d of the result' % i, z3.And(*[z3.Or(
            I(dim(res.shape[i])) == T(sh[m][i - 1]), first(m) == 0 if i == 1 else False) for m in mods]))
    with scope():
        idx = [skolem('i%d' % i, 0, I(dim(d))) for i, d in enumerate(res.shape)]
        e = z3.IntVal(0)
        for m in mods:
            e = z3.If(z3.And(idx[0] == m, first(m) > 0), arrays[m].elem_fn(*idx[1:]), e)
        prove('shapes: modules without entries are filled', at(res, *idx) == e)


def component(eng, name, n):
    """An index for a dimension of n"""
    k = choice(eng, name, ['all', 'one', 'from', 'to', 'part'])
    if k == 'all':
        return slice(None)
    if k == 'one':
        v = sint(name + '_ix')
        fact(z3.And(T(v) >= -T(n), T(v) < T(n)))
        return v
    a = sint(name + '_from') if k in ('from', 'part') else None
    b = sint(name + '_to') if k in ('to', 'part') else None
    return slice(a, b)


VIEWS = ('stacking.StackView.__init__', 'stacking.StackView.__getitem__', 'stacking.StackView._get_single_mod',
         'stacking.StackView._get_all_mods', 'stacking.StackView.asarray')


def view(eng, nd, ax, ixs):
    nmod = 4
    shape = dims(nd)
    arrays = {m: module('data_m%d' % m, shape, 'f4') for m in (3, 0)}
    fv = sreal('fillvalue')
    v = ST.stack_detector_data(VDict({NAME % m: {'d': a} for m, a in arrays.items()}), 'd', axis=ax, modules=nmod,
                               fillvalue=fv, real_array=False)
    return v, stacked(arrays, nmod, shape, 'f4', ax, fv)


def compare(name, got, want):
    if isinstance(got, ST.StackView):
        prove(name + ': dimensions of the view', len(got.shape) == want.ndim == got.ndim and got.dtype == want.dtype)
        for i, (a, b) in enumerate(zip(got.shape, want.shape)):
            prove(name + ': size of dimension %d of the view' % i, I(dim(a)) == I(dim(b)))
        with no_exception(name + ': asarray'):
            got = got.asarray()
    if not want.ndim:
        prove(name + ': element', T(got) == T(want))
        return
    same_array(name, got, want)


@contract('C14', *VIEWS, assumes=ASSUME)
def view_once(eng):
    """Any index, any axis"""
    nd = choice(eng, 'dimensions', [1, 2])
    ax = choice(eng, 'axis', list(range(nd + 1)))
    v, full = view(eng, nd, ax, None)
    comp = [component(eng, 'ix%d' % i, full.shape[i]) for i in range(nd + 1) if i != ax]
    comp.insert(ax, choice(eng, 'module', [slice(None), 0, 1, -1, -4]))
    ix = tuple(comp)
    with no_exception('indexing'):
        got = v[ix]
    compare('view', got, full[ix])


@contract('C14', *VIEWS, assumes=ASSUME)
def view_forms(eng):
    """Ellipsis, fewer indexes than dimensions; access to the same module again"""
    nd = 3
    ax = choice(eng, 'axis', [0, 1, 2, 3])
    v, full = view(eng, nd, ax, None)
    modno = choice(eng, 'module', [slice(None), 0, 1, -1])
    comp = lambda i: modno if i == ax else slice(sint('from%d' % i), None)
    form = choice(eng, 'form', ['...', 'a', 'a...', '...a', 'a...a', 'ab', 'ab...', '...ab', 'abcd', '...abcd'])
    before, _, after = form.partition('...')
    ix = tuple(comp(i) for i in range(len(before)))
    if '...' in form:
        ix += (Ellipsis,) + tuple(comp(4 - len(after) + i) for i in range(len(after)))
    if len(ix) == 1 and eng.choose('not a tuple'):
        ix = ix[0]
    if eng.choose('read before'):
        with no_exception('first access'):
            first = v[(slice(None),) * ax + (1,)]
    with no_exception('indexing'):
        got = v[ix]
    compare('view', got, full[ix])
    if eng.choose('again'):
        with no_exception('second access'):
            got = v[ix]
        compare('second access', got, full[ix])


@contract('C14', *VIEWS, assumes=ASSUME)
def view_twice(eng):
    """An index of what another index gives"""
    nd = 2
    ax = choice(eng, 'axis', [0, 1, 2])
    v, full = view(eng, nd, ax, None)
    ix1 = [choice(eng, 'first%d' % i, [slice(None), slice(sint('f%d' % i), None), 'one']) for i in range(nd)]
    for i, c in enumerate(ix1):
        if c == 'one':
            ix1[i] = sint('one%d' % i)
            n = [d for j, d in enumerate(full.shape) if j != ax][i]
            fact(z3.And(T(ix1[i]) >= -T(n), T(ix1[i]) < T(n)))
    ix1.insert(ax, slice(None))
    with no_exception('first index'):
        v = v[tuple(ix1)]
    full = full[tuple(ix1)]
    ax = sum(isinstance(c, slice) for c in ix1[:ax])
    ix2 = [slice(None, sint('g%d' % i)) for i in range(full.ndim - 1)]
    ix2.insert(ax, choice(eng, 'module', [slice(None), 0, 2, -1]))
    with no_exception('second index'):
        got = v[tuple(ix2)]
    compare('view', got, full[tuple(ix2)])


@contract('C14', *VIEWS, assumes=ASSUME)
def view_errors(eng):
    ax = choice(eng, 'axis', [0, 2])
    v, full = view(eng, 2, ax, None)
    m = sint('module')
    out = z3.Or(T(m) < -4, T(m) >= 4)
    bad = choice(eng, 'index', ['number', 'slice', 'list'])
    if bad == 'number':
        ix = m
        fact(out)
        error = IndexError
    else:
        ix = slice(0, 2) if bad == 'slice' else [0, 1]
        error = Exception
    try:
        v[(slice(None),) * ax + (ix,)]
    except error:
        prove('error: for this index', True)
        return
    prove('error: for this index', False)


@contract('C14', 'stacking.stack_data', assumes=ASSUME)
def plain(eng):
    """Devices in the order of the numbers in their names"""
    names = {'A_12_1': [12, 1], 'B_7_0/x2y': [7, 0, 2], 'A_12_0': [12, 0], 'C_007': [7]}
    nd = choice(eng, 'dimensions', [0, 1, 2])
    shape = dims(nd)
    axis = choice(eng, 'axis', list(range(-nd - 1, nd + 1)))
    train, xc = {}, []
    for i, s in enumerate(names):
        k = choice(eng, 'device %d' % i, ['there', 'left out', 'missing']) if i != 1 else 'there'
        if k == 'there':
            train[s] = {'d': module('data_%d' % i, shape, 'f4')}
        elif k == 'left out':
            train[s] = {'other': 1}
            xc.append(s)
    kw = {'xcept': xc} if xc else {}
    if axis != -3:
        kw['axis'] = axis
    with no_exception('stack_data'):
        res = ST.stack_data(VDict(train), 'd', **kw)
    left = sorted((s for s in train if s not in xc), key=lambda s: names[s])
    arrays = {i: train[s]['d'] for i, s in enumerate(left)}
    same_array('stack_data', res, stacked(arrays, len(left), shape, 'f4', axis, 0))


@contract('C14', 'stacking.stack_data', assumes=ASSUME)
def plain_errors(eng):
    what = choice(eng, 'case', ['empty', 'all left out', 'types', 'shapes'])
    shape = dims(2)
    train = {'A1': {'d': module('data_1', shape, 'f4')}, 'A2': {'d': module('data_2', shape, 'f4')}}
    kw = {}
    if what == 'empty':
        train = {}
    elif what == 'all left out':
        kw['xcept'] = ['A2', 'A1']
    elif what == 'types':
        train['A2']['d'] = module('data_2', shape, choice(eng, 'type', ['f8', 'u4']))
    else:
        other = dims(choice(eng, 'dimensions', [1, 2, 3]), 'other')
        train['A2']['d'] = module('data_2', other, 'f4')
        if len(other) == 2:
            fact(z3.Or(*[T(a) != T(b) for a, b in zip(shape, other)]))
    try:
        ST.stack_data(VDict(train), 'd', axis=0, **kw)
    except ValueError:
        prove('error: ' + what, True)
        return
    prove('error: ' + what, False)
