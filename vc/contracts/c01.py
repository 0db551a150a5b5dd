"""C01: selecting trains"""
from ..api import *
from ._model import *


@contract('C01', 'read_machinery._tid_to_slice_ix')
def tid_to_slice_ix(eng):
    rm = load('read_machinery')
    tr = Trains()
    tid = sint('want')
    stop = bool(sbool('stop'))
    f = tr.f
    N, W = tr.n, T(tid)
    try:
        r = rm._tid_to_slice_ix(tid, tr.list, stop=stop)
    except ValueError:
        if stop:
            prove('error-only-if-nothing-before', z3.Or(N == 0, W < f(0)))
        else:
            prove('error-only-if-nothing-after', z3.Or(N == 0, W > f(N - 1)))
        return
    if r is None:
        prove('not-empty', N > 0)
        with scope():
            k = skolem('k', 0, N)
            prove('open-end' if stop else 'open-start', f(k) < W if stop else f(k) >= W)
        return
    R = T(r)
    prove('in-range', z3.And(R >= 0, R < N))
    with scope():
        k = skolem('k', 0, N)
        prove('splits', (k < R) == (f(k) < W))


class NewCollection:
    """Stands for DataCollection.__init__ (contract of that name)"""
    def __init__(self, files, selection=None, train_ids=None, ctx_closes=False):
        self.files, self.selection, self.train_ids, self.ctx_closes = files, selection, train_ids, ctx_closes


def select_trains(eng, kind):
    rd = load('reader')
    fs, tr = Files(), Trains()
    dc = collection(fs, tr)
    N, f = tr.n, tr.f
    if kind == 'id_slice':
        lo, hi = sint('lo'), sint('hi')
        open_lo, open_hi = bool(sbool('open_lo')), bool(sbool('open_hi'))
        sel = rd.by_id[(None if open_lo else lo):(None if open_hi else hi)]
        want = lambda i: z3.And(*([] if open_lo else [f(i) >= T(lo)]) + ([] if open_hi else [f(i) < T(hi)]))
    elif kind == 'ix_slice':
        lo, hi = sint('lo'), sint('hi')
        open_lo, open_hi = bool(sbool('open_lo')), bool(sbool('open_hi'))
        sel = rd.by_index[(None if open_lo else lo):(None if open_hi else hi)]
        norm = lambda x: z3.If(x < 0, z3.If(x + N < 0, z3.IntVal(0), x + N), z3.If(x > N, N, x))
        want = lambda i: z3.And(*([] if open_lo else [i >= norm(T(lo))]) + ([] if open_hi else [i < norm(T(hi))]))
    elif kind == 'id_list':
        n = sint('m', 0)
        ids = sarr('ids', n, 'u8')
        sel = rd.by_id[ids if eng.choose('array') else ids.tolist()]
        j = z3.Int('wj')
        want = lambda i: z3.Exists([j], z3.And(j >= 0, j < T(n), ids.elem_fn(j) == f(i)))
    elif kind == 'ix_list':
        n = sint('m', 0)
        ids = sarr('ixs', n, 'i8')
        q = bound_var()
        fact(z3.And(ids.elem_fn(q) >= -N, ids.elem_fn(q) < N), [q], [q >= 0, q < T(n)], [(ids.elem_fn(q),)])
        sel = rd.by_index[ids if eng.choose('array') else ids.tolist()]
        j = z3.Int('wj')
        want = lambda i: z3.Exists([j], z3.And(j >= 0, j < T(n), z3.Or(ids.elem_fn(j) == i, ids.elem_fn(j) + N == i)))
    with patched(rd, DataCollection=NewCollection):
        try:
            new_dc = dc.select_trains(sel)
        except ValueError:
            if kind == 'id_slice':
                a = z3.And(z3.BoolVal(not open_hi), z3.Or(N == 0, T(hi) <= f(0)))
                b = z3.And(z3.BoolVal(not open_lo), z3.Or(N == 0, T(lo) > f(N - 1)))
                prove('error-only-if-outside', z3.Or(a, b))
            elif kind == 'id_list':
                with scope():
                    i = skolem('i', 0, N)
                    prove('error-only-if-unknown', z3.Not(want(i)))
            else:
                prove('no-error', False)
            return
        except IndexError:
            if kind == 'ix_list':
                prove('no-index-error', False)
            raise
    s = as_seq(new_dc.train_ids)
    M = I(s.n)
    g = lambda k: elem_term(s, I(k))
    prove('selection-kept', bool(new_dc.selection is dc.selection))
    with scope():
        a, b = skolem('a', 0, M), skolem('b', 0, M)
        prove('increasing', z3.Implies(a < b, g(a) < g(b)))
    fl = as_seq(new_dc.files)
    with scope():
        # each is a train of the collection that is designated, ...
        a = skolem('a', 0, M)
        ix = tr.inv(g(a))
        have('subset', tr.has(g(a)))
        prove('designated', want(ix))
        # files with a selected train are kept
        fk = skolem('fk', 0, fs.NF)
        p = skolem('fp', 0, fs.ntr(fk))
        suppose(fs.tid(fk, p) == g(a))
        if isinstance(fl, LoopSeq) and not fl.flat:
            w = fl.ps.at(I(fl.ps.lo) + fk) - fl.ps.at(fl.ps.lo)
            have('file-kept', z3.And(w >= 0, w < I(fl.n)))
            prove('file-is-it', fl.at(w).k == fk)
        else:
            prove('file-is-it', z3.And(fk < I(fl.n), fl.at(fk).k == fk))
    with scope():
        # ... and no other is
        i = skolem('i', 0, N)
        if kind == 'id_list':
            w = skolem('w', 0, T(n))
            suppose(ids.elem_fn(w) == f(i))
        elif kind == 'ix_list':
            w = skolem('w', 0, T(n))
            suppose(z3.Or(ids.elem_fn(w) == i, ids.elem_fn(w) + N == i))
        else:
            suppose(want(i))
        k = z3.Int('found')
        prove('complete', z3.Exists([k], z3.And(k >= 0, k < M, g(k) == f(i))))
    with scope():
        x = skolem('fx', 0, I(fl.n))
        kx = fl.at(x).k
        prove('files-subset', z3.And(kx >= 0, kx < fs.NF))
    if kind == 'id_slice' and not open_hi:
        prove('before-raises', z3.Not(z3.Or(N == 0, T(hi) < f(0))))
    if kind == 'id_slice' and not open_lo:
        prove('after-raises', z3.Not(z3.Or(N == 0, T(lo) > f(N - 1))))
    if kind == 'id_list':
        prove('unknown-raises', M > 0)


for _k in ('id_slice', 'ix_slice', 'id_list', 'ix_list'):
    def _c(eng, _k=_k):
        select_trains(eng, _k)
    _c.__name__ = 'select_trains_' + _k
    contract('C01', 'reader.DataCollection.select_trains',
             *(['read_machinery._tid_to_slice_ix'] if _k == 'id_slice' else []))(_c)
