"""Lists, sets and dictionaries with parts of symbolic size"""
from .core import *
from .values import *
from . import values as V
from . import psum
from .loops import vsubst, Loop


_tmp = [0]


def ident(t):
    return t


def inst(fn, k, sub):
    """fn(k) with the stored parts of it substituted by sub"""
    if sub is ident:
        return fn(k if isinstance(k, z3.ExprRef) else I(k))
    _tmp[0] += 1
    T = z3.Const('tmp!%d' % _tmp[0], z3.IntSort())
    t = fn(T)
    if isinstance(t, int):
        return t
    return z3.substitute(sub(t), (T, I(k)))


class Seq:
    """n: length (dim), at(k, sub): k-th element, with stored terms
    substituted"""
    def at(self, k, sub=ident):
        raise NotImplementedError

    def length(self, sub=ident):
        n = self.n
        return n if isinstance(n, int) else dim(sub(n))

    def _subst(self, sub):
        return SubSeq(self, sub)

    def sub(self, sub):
        return self if sub is ident else SubSeq(self, sub)


class SubSeq(Seq):
    def __init__(self, seq, sub):
        self.seq, self.s = seq, sub
        self.n = seq.length(sub)

    def at(self, k, sub=ident):
        s = self.s
        return self.seq.at(k, s if sub is ident else (lambda t: sub(s(t))))


class ListSeq(Seq):
    def __init__(self, items):
        self.items = list(items)
        self.n = len(self.items)

    def at(self, k, sub=ident):
        k = dim(k)
        if isinstance(k, int):
            v = self.items[k]
        else:
            v = None
            for i in range(self.n - 1):
                if E().fork(k == i):
                    v = self.items[i]
                    break
            else:
                v = self.items[-1]
        return v if sub is ident else vsubst(v, sub)


class FnSeq(Seq):
    """Elements given by a function of the index term"""
    def __init__(self, n, fn):
        self.n, self.fn = dim(n), fn

    def at(self, k, sub=ident):
        if sub is ident:
            return self.fn(dim(k))
        _tmp[0] += 1
        T = z3.Const('tmp!%d' % _tmp[0], z3.IntSort())
        v = self.fn(T)
        kk = I(k)
        return vsubst(v, lambda t: z3.substitute(sub(t), (T, kk)))


class ArrSeq(Seq):
    def __init__(self, a, py=False):
        self.a, self.n, self.py = a, a._shape[0], py

    def at(self, k, sub=ident):
        from . import arr
        a = self.a if sub is ident else self.a._subst(sub)
        v = arr.Arr(a.buf, a._shape[1:], _fix0(a.axes, dim(k)))
        if v._shape:
            return v
        r = V.mk_scalar(v.elem(), v.dtype)
        if self.py:
            return r.item() if isinstance(r, SInt) else (r.item() if isinstance(r, np.generic) else r)
        return r


def _fix0(axes, k):
    from .arr import _lin
    out = []
    for ax in axes:
        if ax[0] == 'c':
            out.append(ax)
        elif ax[1] == 0:
            out.append(('c', _lin(ax[2], ax[3], k)))
        else:
            out.append(('a', ax[1] - 1, ax[2], ax[3]))
    return out


class ZipSeq(Seq):
    def __init__(self, seqs):
        self.seqs = seqs
        n = seqs[0].n
        for s in seqs[1:]:
            if not same_dim(n, s.n):
                n = dim(z3.If(I(n) <= I(s.n), I(n), I(s.n)))
        self.n = n

    def at(self, k, sub=ident):
        return tuple(s.at(k, sub) for s in self.seqs)


class EnumSeq(Seq):
    def __init__(self, seq, start=0):
        self.seq, self.n, self.start = seq, seq.n, start

    def at(self, k, sub=ident):
        return (mk_int(I(k) + self.start), self.seq.at(k, sub))


class RangeSeq(Seq):
    def __init__(self, lo, n, step=1):
        self.lo, self.n, self.step = dim(lo), dim(n), step

    def at(self, k, sub=ident):
        lo = self.lo if isinstance(self.lo, int) else sub(self.lo)
        return mk_int(I(lo) + self.step * I(k))


class SliceSeq(Seq):
    def __init__(self, seq, lo, n):
        self.seq, self.lo, self.n = seq, lo, n

    def at(self, k, sub=ident):
        lo = self.lo if isinstance(self.lo, int) else sub(self.lo)
        return self.seq.at(dim(I(lo) + I(k)), sub)


class CatSeq(Seq):
    """Concatenation of sequences"""
    def __init__(self, seqs):
        self.seqs = seqs
        n = 0
        for s in seqs:
            n = dim(I(n) + I(s.n)) if not (isinstance(n, int) and n == 0) else s.n
        self.n = n

    def at(self, k, sub=ident):
        k = dim(k)
        base = 0
        for i, s in enumerate(self.seqs):
            ln = s.length(sub)
            end = dim(I(base) + I(ln))
            if i == len(self.seqs) - 1:
                return s.at(dim(I(k) - I(base)), sub)
            if isinstance(k, int) and isinstance(end, int):
                inside = k < end
            else:
                inside = E().fork(I(k) < I(end))
            if inside:
                return s.at(dim(I(k) - I(base)), sub)
            base = end


class LoopSeq(Seq):
    """What a loop appended to a list"""
    def __init__(self, lp, n, guards, pieces):
        # pieces: per body path, [('one', v) | ('seq', Seq)]
        self.lp, self.guards, self.pieces = lp, guards, pieces
        j = lp.j
        counts = []
        for ps in pieces:
            c = 0
            for kind, v in ps:
                c = dim(I(c) + (1 if kind == 'one' else I(v.n)))
            counts.append(c)
        c = I(counts[-1])
        for g, x in zip(guards[-2::-1], counts[-2::-1]):
            c = V.ite(simp(g), I(x), c)
        self.c = c = simp(c)
        if z3.is_int_value(c) and c.as_long() == 1:
            self.flat = True
            self.n = dim(n)
        else:
            self.flat = False
            cj = lp._at(c, j)
            self.ps = psum.window(lambda k: z3.substitute(cj, (j, I(k))), n)
            self.n = dim(self.ps.at(self.ps.hi) - self.ps.at(self.ps.lo))
            self.loopn = dim(n)

    def locate(self, e, sub):
        """(iteration, offset) of element e"""
        if self.flat:
            return dim(e), 0
        ps = self.ps
        base = lambda T: T + ps.at(ps.lo)
        b = inst(lambda T: ps.blk(T + ps.at(ps.lo)) - I(ps.lo), e, sub)
        b = dim(b)
        off = inst(lambda T: T + ps.at(ps.lo) - ps.at(ps.blk(T + ps.at(ps.lo))), e, sub)
        return b, dim(off)

    def at(self, k, sub=ident):
        eng = E()
        b, off = self.locate(k, sub)
        lp = self.lp
        alts = [i for i, p in enumerate(self.pieces) if p]
        i = alts[-1]
        for a in alts[:-1]:
            if eng.fork(inst(lambda T: lp._at(self.guards[a], T), b, sub)):
                i = a
                break
        else:
            if len(self.pieces) > 1:
                eng.fact(inst(lambda T: lp._at(self.guards[i], T), b, sub))
        S = self._isub(b, sub)
        pcs = self.pieces[i]
        if len(pcs) == 1:
            kind, v = pcs[0]
            return vsubst(v, S) if kind == 'one' else v.at(off, S)
        base = 0
        for pi, (kind, v) in enumerate(pcs):
            ln = 1 if kind == 'one' else v.length(S)
            last = pi == len(pcs) - 1
            end = dim(I(base) + I(ln))
            if last:
                inside = True
            elif isinstance(off, int) and isinstance(end, int):
                inside = off < end
            else:
                inside = eng.fork(I(off) < I(end))
            if inside:
                return vsubst(v, S) if kind == 'one' else v.at(dim(I(off) - I(base)), S)
            base = end

    def _isub(self, b, sub):
        lp = self.lp
        bb = I(b)

        def S(t):
            if isinstance(t, int):
                return t
            return inst(lambda T: lp._at(t, T), bb, sub)
        return S


class SortedSeq(Seq):
    def __init__(self, seq, perm):
        self.seq, self.n, self.perm = seq, seq.n, perm

    def at(self, k, sub=ident):
        return self.seq.at(inst(self.perm, k, sub), sub)


# ------------------------------------------------------------------ helpers

def is_symseq(x):
    """Must iteration over x be symbolic?"""
    if isinstance(x, VList):
        return x.segs is not None
    from .arr import Arr
    if isinstance(x, Arr):
        return not isinstance(x._shape[0], int) if x._shape else False
    return isinstance(x, Seq) or (hasattr(x, '_as_seq') and x._is_symbolic())


def as_seq(x):
    from .arr import Arr
    if isinstance(x, VList):
        return x.as_seq()
    if isinstance(x, Arr):
        return ArrSeq(x)
    if isinstance(x, Seq):
        return x
    if hasattr(x, '_as_seq'):
        return x._as_seq()
    if isinstance(x, (list, tuple, range)):
        return ListSeq(x)
    if isinstance(x, np.ndarray):
        return ListSeq(list(x))
    return ListSeq(list(x))


def register(o):
    eng = current.eng
    if eng is None or eng.path is None:
        o.uid, o.epoch = 'static', 0
        return
    o.uid = eng.new_uid()
    o.epoch = eng.epoch
    eng.path.__dict__.setdefault('objects', {})[o.uid] = o


def record(o, ef):
    """In a loop body, on an object made before: an effect"""
    eng = current.eng
    if eng is None or eng.path is None:
        return False
    if o.uid == 'static':
        raise OutOfSubset('a module-level object is changed')
    for fr in reversed(eng.path.frames):
        if o.epoch < fr.epoch:
            fr.effects.append(ef)
            return True
        break
    return False


def note_read(o):
    eng = current.eng
    if eng is None or eng.path is None or o.uid == 'static':
        return
    for fr in eng.path.frames:
        if o.epoch < fr.epoch:
            fr.reads.add(o.uid)


class VList(list):
    """List; segs is None while it is concrete"""
    def __init__(self, it=()):
        list.__init__(self, it)
        self.segs = None
        register(self)

    @classmethod
    def from_seq(cls, seq):
        r = cls()
        r.segs = [seq]
        return r

    def as_seq(self):
        note_read(self)
        if self.segs is None:
            return ListSeq(list.__iter__(self))
        if len(self.segs) == 1:
            return self.segs[0]
        return CatSeq(self.segs)

    def _add_seg(self, s):
        if isinstance(s.n, int) and s.n == 0:
            return
        if self.segs is None:
            self.segs = []
            if list.__len__(self):
                self.segs.append(ListSeq(list.__iter__(self)))
                list.clear(self)
        self.segs.append(s)

    def append(self, x):
        if record(self, ('append', self.uid, x)):
            return
        if self.segs is None:
            list.append(self, x)
        else:
            self._add_seg(ListSeq([x]))

    def extend(self, xs):
        if is_symseq(xs):
            if record(self, ('extend', self.uid, as_seq(xs))):
                return
            self._add_seg(as_seq(xs))
        else:
            for x in list(xs):
                self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        r = VList()
        r.extend(self)
        r.extend(xs)
        return r

    def __mul__(self, k):
        if isinstance(k, SInt):
            if self.segs is not None or list.__len__(self) != 1:
                raise OutOfSubset('repetition of a list')
            x = list.__getitem__(self, 0)
            n = k.t
            return VList.from_seq(FnSeq(n if E().implied(n >= 0) else z3.If(n > 0, n, z3.IntVal(0)), lambda i: x))
        note_read(self)
        if self.segs is not None:
            raise OutOfSubset('repetition of a list')
        return VList(list.__mul__(self, k))

    __rmul__ = __mul__

    def insert(self, i, x):
        if self.segs is not None or E().path.frames and self.epoch < E().path.frames[-1].epoch:
            raise OutOfSubset('list.insert')
        list.insert(self, i, x)

    def _native(self):
        note_read(self)
        if self.segs is not None:
            raise OutOfSubset('native use of a symbolic list')

    def __iter__(self):
        self._native()
        return list.__iter__(self)

    def __len__(self):
        self._native()
        return list.__len__(self)

    def sym_len(self):
        if self.segs is None:
            return len(self)
        return mk_int(self.as_seq().n)

    def __bool__(self):
        if self.segs is None:
            self._native()
            return list.__len__(self) > 0
        r = bool(self.sym_len() > 0)
        eng = E()
        for s in self.segs:
            if isinstance(s, LoopSeq) and not s.flat and s.ps.mono:
                lo, hi = I(s.ps.lo), I(s.ps.hi)
                if not r:        # nothing was added in any iteration
                    q = bound_var(hint='z')
                    d = s.ps.d(q)
                    from .arr import _auto_pats
                    eng.fact(d == 0, [q], [q >= lo, q < hi], _auto_pats(d, q))
                elif len(self.segs) == 1:
                    w = eng.fresh('some')
                    eng.fact(z3.And(w >= lo, w < hi, s.ps.d(w) > 0))
        return r

    def __getitem__(self, i):
        note_read(self)
        if isinstance(i, slice):
            if self.segs is None and not any(isinstance(x, SInt) for x in (i.start, i.stop, i.step)):
                return VList(list.__getitem__(self, i))
            from .arr import norm_slice
            s = self.as_seq()
            lo, ln, step = norm_slice(i, s.n)
            if step == 1:
                return VList.from_seq(SliceSeq(s, lo, ln))
            return VList.from_seq(FnSeq(ln, lambda k: s.at(dim(I(lo) + step * I(k)))))
        if self.segs is None and not isinstance(i, SInt):
            return list.__getitem__(self, i)
        from .arr import norm_index
        s = self.as_seq()
        return s.at(norm_index(i, s.n))

    def __setitem__(self, i, v):
        if self.segs is not None or isinstance(i, SInt):
            raise OutOfSubset('assignment into a symbolic list')
        if E().path.frames and self.epoch < E().path.frames[-1].epoch:
            raise OutOfSubset('assignment into a list in a loop')
        list.__setitem__(self, i, v)

    def __contains__(self, x):
        if self.segs is None:
            self._native()
            return any(bool(y is x or y == x) for y in list.__iter__(self))
        s = self.as_seq()
        q = bound_var(hint='m')
        e = elem_term(s, q)
        return E().fork(z3.Exists([q], z3.And(q >= 0, q < I(s.n), compare_eq(e, x))))

    def index(self, x, *a):
        if a:
            raise OutOfSubset('list.index with bounds')
        eng = E()
        if self.segs is None and not isinstance(x, Sym) and not any(isinstance(v, Sym) for v in list.__iter__(self)):
            return list.index(self, x)
        s = self.as_seq()
        q = bound_var(hint='m')
        here = compare_eq(elem_term(s, q), x)
        if not eng.fork(z3.Exists([q], z3.And(q >= 0, q < I(s.n), here))):
            raise ValueError('not in list')
        k = eng.fresh('index')
        eng.fact(z3.And(k >= 0, k < I(s.n), z3.substitute(here, (q, k))))
        q2 = bound_var(hint='m')
        eng.fact(z3.Not(z3.substitute(here, (q, q2))), [q2], [q2 >= 0, q2 < k])
        return mk_int(k)

    def sort(self, key=None, reverse=False):
        from .bshim import b_sorted
        r = b_sorted(self, key, reverse)
        list.clear(self)
        self.segs = None
        self.extend(r)

    def copy(self):
        r = VList()
        r.extend(self)
        return r

    def pop(self, *a):
        if self.segs is not None:
            raise OutOfSubset('pop from a symbolic list')
        if E().path.frames and self.epoch < E().path.frames[-1].epoch:
            raise OutOfSubset('pop in a loop')
        return list.pop(self, *a)

    def __repr__(self):
        return 'VList(%s)' % (list.__repr__(self) if self.segs is None else 'n=%s' % self.as_seq().n)

    def __eq__(self, o):
        if self.segs is None and isinstance(o, list):
            return list(list.__iter__(self)) == list(o)
        for a, b in ((self, o), (o, self)):
            if isinstance(b, list) and getattr(b, 'segs', None) is None and list.__len__(b) == 0:
                from .core import I
                return mk_bool(I(as_seq(a).n) == 0)
        raise OutOfSubset('comparison of symbolic lists')

    __hash__ = None

    def _subst(self, sub):
        r = VList()
        if self.segs is None:
            list.extend(r, [vsubst(x, sub) for x in list.__iter__(self)])
        else:
            r.segs = [s.sub(sub) for s in self.segs]
        return r

    def _loop_effects(self, lp, n, guards, per_path):
        pieces = []
        for efs in per_path:
            ps = []
            for ef in efs:
                if ef[0] == 'append':
                    ps.append(('one', ef[2]))
                elif ef[0] == 'extend':
                    ps.append(('seq', ef[2]))
                else:
                    raise OutOfSubset('effect ' + ef[0])
            pieces.append(ps)
        seq = LoopSeq(lp, n, guards, pieces)
        if record(self, ('extend', self.uid, seq)):
            return
        self._add_seg(seq)


def has_sym(x):
    if isinstance(x, Sym) or hasattr(x, '_ident'):
        return True
    if isinstance(x, VList):
        return x.segs is not None or any(has_sym(y) for y in list.__iter__(x))
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, slice):
        return any(isinstance(y, Sym) for y in (x.start, x.stop, x.step))
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    return False


def elem_term(seq, q, sub=ident):
    """Term of a numeric element, as a function of the (bound) index q; no
    forking: alternatives become conditional terms"""
    if isinstance(seq, LoopSeq):
        b, off = seq.locate(q, sub)
        lp = seq.lp
        r = None
        for i in reversed([i for i, p in enumerate(seq.pieces) if p]):
            pcs = seq.pieces[i]
            S = seq._isub(b, sub)
            if len(pcs) != 1:
                raise OutOfSubset('element of a mixed list')
            kind, v = pcs[0]
            t = scalar_term(vsubst(v, S)) if kind == 'one' else elem_term(v, off, S)
            r = t if r is None else z3.If(inst(lambda T: lp._at(seq.guards[i], T), b, sub), t, r)
        return r
    if isinstance(seq, SubSeq):
        return elem_term(seq.seq, q, seq.s if sub is ident else (lambda t: sub(seq.s(t))))
    if isinstance(seq, CatSeq):
        base, r, parts = 0, None, []
        for s in seq.seqs:
            parts.append((base, s))
            base = dim(I(base) + I(s.length(sub)))
        for base, s in reversed(parts):
            t = elem_term(s, I(q) - I(base), sub)
            r = t if r is None else z3.If(I(q) < I(base) + I(s.length(sub)), t, r)
        return r
    if isinstance(seq, ListSeq):
        r = None
        for i in range(seq.n - 1, -1, -1):
            v = seq.items[i]
            t = scalar_term(v if sub is ident else vsubst(v, sub))
            r = t if r is None else z3.If(I(q) == i, t, r)
        return r if r is not None else z3.IntVal(0)
    if isinstance(seq, SortedSeq):
        return elem_term(seq.seq, inst(seq.perm, q, sub), sub)
    if isinstance(seq, SliceSeq):
        lo = seq.lo if isinstance(seq.lo, int) else sub(seq.lo)
        return elem_term(seq.seq, I(lo) + I(q), sub)
    return scalar_term(seq.at(q, sub))


def scalar_term(v):
    return v._ident() if hasattr(v, '_ident') else V.term(v)


def compare_eq(t, x):
    if hasattr(x, '_ident'):
        return t == x._ident()
    return V.compare_term('eq', t, V.term(x))


def sym_eq(a, b):
    """Equality of two values as a term"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return conj([sym_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = a == b
        if r is NotImplemented:
            raise OutOfSubset('comparison')
        return r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))
    if hasattr(a, '_ident') and hasattr(b, '_ident'):
        return a._ident() == b._ident()
    return z3.BoolVal(bool(a == b))


def set_seqs(x):
    """The members of a set or collection, as sequences"""
    if isinstance(x, VSet):
        vals, segs = x.members()
        return ([ListSeq(vals)] if vals else []) + list(segs)
    s = as_seq(x)
    return [s] if not (isinstance(s.n, int) and s.n == 0) else []


def _pats_of(t, v):
    from .arr import _auto_pats
    return _auto_pats(t, v)


def filter_set(a, b):
    """Members of a (order as in a) that are in b"""
    eng = E()
    out = VSet()
    bs = set_seqs(b)
    for s in set_seqs(a):
        n = eng.fresh('flt_n')
        src, pos = eng.fresh_fn('flt_src', [z3.IntSort()], z3.IntSort()), eng.fresh_fn('flt_pos', [z3.IntSort()], z3.IntSort())
        k, i = bound_var(hint='k'), bound_var(hint='i')
        eng.fact(z3.And(n >= 0, n <= I(s.n)))
        k2 = bound_var(hint='k2')
        eng.fact(src(k) < src(k2), [k, k2], [k >= 0, k < k2, k2 < n], [(src(k), src(k2))])
        alts = []
        for bi, t in enumerate(bs):
            w = eng.fresh_fn('flt_wit%d' % bi, [z3.IntSort()], z3.IntSort())
            alts.append(z3.And(w(k) >= 0, w(k) < I(t.n), elem_term(t, w(k)) == elem_term(s, src(k))))
            q = bound_var(hint='q')
            ei, eq = elem_term(s, i), elem_term(t, q)
            eng.fact(z3.And(pos(i) >= 0, pos(i) < n, src(pos(i)) == i), [i, q],
                     [i >= 0, i < I(s.n), q >= 0, q < I(t.n), ei == eq],
                     [(x[0], y[0]) for x in _pats_of(ei, i)[:1] for y in _pats_of(eq, q)[:1]])
        eng.fact(z3.And(src(k) >= 0, src(k) < I(s.n), pos(src(k)) == k, disj(alts)), [k], [k >= 0, k < n], [(src(k),)])
        out.segs.append(FnSeq(n, lambda k, s=s, src=src: s.at(src(I(k)))))
    return out


def sorted_set(x):
    """sorted() of a set with symbolic members: strictly increasing"""
    eng = E()
    ss = set_seqs(x)
    samples = [s.at(0) for s in ss]
    t0 = V.term(samples[0])
    n = eng.fresh('ss_n')
    g = eng.fresh_fn('ss', [z3.IntSort()], t0.sort())
    inv = eng.fresh_fn('ss_pos', [t0.sort()], z3.IntSort())
    k, k2 = bound_var(hint='k'), bound_var(hint='k2')
    eng.fact(n >= 0)
    eng.fact(g(k) < g(k2), [k, k2], [k >= 0, k < k2, k2 < n], [(g(k), g(k2))])
    alts = []
    for si, s in enumerate(ss):
        w = eng.fresh_fn('ss_wit%d' % si, [z3.IntSort()], z3.IntSort())
        alts.append(z3.And(w(k) >= 0, w(k) < I(s.n), elem_term(s, w(k)) == g(k)))
        i = bound_var(hint='i')
        e = elem_term(s, i)
        eng.fact(z3.And(inv(e) >= 0, inv(e) < n, g(inv(e)) == e), [i], [i >= 0, i < I(s.n)], _pats_of(e, i)[:1])
    eng.fact(z3.And(disj(alts), inv(g(k)) == k), [k], [k >= 0, k < n], [(g(k),)])
    eng.fact(disj([n > 0] + []) if False else z3.Implies(n == 0, conj([I(s.n) <= 0 for s in ss])))
    dt = getattr(samples[0], 'dt', None)
    if all(isinstance(v, np.generic) for v in samples):
        dt = samples[0].dtype
    mk = (lambda t: mk_int(t, dt)) if t0.sort() == z3.IntSort() else (lambda t: SReal(t, dt))
    return VList.from_seq(FnSeq(n, lambda k: mk(g(I(k)))))


class VSet(set):
    """Set; symbolic members in .sym (values) and .segs (sequences)"""
    def __init__(self, it=()):
        set.__init__(self)
        self.sym, self.segs = [], []
        register(self)
        if is_symseq(it):
            self.segs.append(as_seq(it))
        else:
            for x in it:
                self.add(x)

    def _concrete(self):
        return not self.sym and not self.segs

    def add(self, x):
        if record(self, ('add', self.uid, x)):
            return
        self._add(x)

    def _add(self, x):
        if has_sym(x):
            for y in self.sym:
                if y is x or E().implied(sym_eq(x, y)):
                    return
            self.sym.append(x)
        else:
            set.add(self, x)

    def update(self, *its):
        if any(isinstance(it, CSet) for it in its):
            if not self._concrete() or E().path.frames:
                raise OutOfSubset('update with a conditional set')
            self.__class__ = CSet
            self.mem = {x: z3.BoolVal(True) for x in set.__iter__(self)}
            set.clear(self)
            return self.update(*its)
        for it in its:
            if is_symseq(it):
                if not record(self, ('addseq', self.uid, as_seq(it))):
                    self.segs.append(as_seq(it))
            elif isinstance(it, VSet):
                for x in set.__iter__(it):
                    self.add(x)
                for x in it.sym:
                    self.add(x)
                for s in it.segs:
                    if not record(self, ('addseq', self.uid, s)):
                        self.segs.append(s)
            else:
                for x in it:
                    self.add(x)

    def union(self, *its):
        r = VSet()
        r.update(self)
        r.update(*its)
        return r

    def _native(self):
        note_read(self)
        if not self._concrete():
            raise OutOfSubset('native use of a symbolic set')

    def __iter__(self):
        self._native()
        return iter(sorted(set.__iter__(self), key=repr))

    def __len__(self):
        self._native()
        return set.__len__(self)

    def copy(self):
        return self.union()

    def members(self):
        """[(values)], [(seqs)]"""
        return list(set.__iter__(self)) + self.sym, self.segs

    def _tuples(self):
        """Single members, some of them tuples: tell them apart (each equality
        is a branch), in an unspecified order"""
        if self.segs or not any(isinstance(x, tuple) for x in self.sym):
            return None
        eng = E()
        out = []
        for x in list(set.__iter__(self)) + self.sym:
            for y in out:
                if eng.fork(sym_eq(x, y)):
                    break
            else:
                out.append(x)
        return out

    def sym_len(self):
        note_read(self)
        if self._concrete():
            return set.__len__(self)
        tup = self._tuples()
        if tup is not None:
            return len(tup)
        rep = self._uniform()
        if rep is None:
            eng = E()
            t = eng.fresh('setlen')
            eng.fact(t >= 2)
            return mk_int(t)
        return len(rep)

    def _uniform(self):
        """[] or [the single member], or None if there are several"""
        eng = E()
        vals, segs = self.members()
        nonempty = [s for s in segs if not (isinstance(s.n, int) and s.n == 0)]
        live = []
        for s in nonempty:
            if eng.fork(I(s.n) > 0):
                live.append(s)
        if not vals and not live:
            return []
        rep = vals[0] if vals else live[0].at(0)
        conds = [sym_eq(v, rep) for v in vals[1:]]
        for s in live:
            k = eng.fresh('uni')
            v = s.at(k)
            same = sym_eq(v, rep)
            if mentions(same, k):
                q = bound_var(hint='u')
                conds.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < I(s.n)), z3.substitute(same, (k, q)))))
            else:
                conds.append(same)
        c = conj(conds)
        if z3.is_true(simp(c)) or eng.fork(c):
            return [rep]
        return None

    def __bool__(self):
        if self._concrete():
            self._native()
            return set.__len__(self) > 0
        vals, segs = self.members()
        if vals:
            return True
        return E().fork(disj([I(s.n) > 0 for s in segs]))

    def isdisjoint(self, o):
        return not filter_set(self, o)

    def issubset(self, o):
        if self._concrete() and isinstance(o, VSet) and o._concrete():
            return set.issubset(self, o)
        if isinstance(o, VSet):
            return mk_bool(self.within(o))
        raise OutOfSubset('issubset')

    def pop(self):
        if E().path.frames and self.epoch < E().path.frames[-1].epoch:
            raise OutOfSubset('pop in a loop')
        if self._concrete():
            return set.pop(self)
        tup = self._tuples()
        if tup is not None and len(tup) > 1:
            raise OutOfSubset('pop from a set of several symbolic members')
        rep = tup if tup is not None else self._uniform()
        if rep is None:
            raise OutOfSubset('pop from a set of several symbolic members')
        if not rep:
            raise KeyError('pop from an empty set')
        set.clear(self)
        self.sym, self.segs = [], []
        return rep[0]

    def remove(self, x):
        if self._concrete() and not has_sym(x):
            if E().path.frames:
                raise OutOfSubset('remove in a loop')
            return set.remove(self, x)
        tup = self._tuples()
        if tup is None or E().path.frames:
            raise OutOfSubset('remove from a symbolic set')
        left = [y for y in tup if not E().fork(sym_eq(x, y))]
        if len(left) == len(tup):
            raise KeyError(x)
        set.clear(self)
        self.sym = []
        for y in left:
            self._add(y)

    def has(self, x):
        """Membership as a term"""
        note_read(self)
        cs = []
        if has_sym(x) or not self._concrete():
            for y in list(set.__iter__(self)) + self.sym:
                cs.append(sym_eq(x, y))
        else:
            return z3.BoolVal(set.__contains__(self, x))
        for s in self.segs:
            q = bound_var(hint='m')
            cs.append(z3.Exists([q], z3.And(q >= 0, q < I(s.n), compare_eq(elem_term(s, q), x))))
        return disj([simp(c) for c in cs])

    def __contains__(self, x):
        if self._concrete() and not has_sym(x):
            note_read(self)
            return set.__contains__(self, x)
        return E().fork(self.has(x))

    def intersection(self, *others):
        if any(isinstance(o, CSet) for o in others):
            return CSet.of(self).intersection(*others)
        if self._concrete() and all(not is_symseq(o) and not (isinstance(o, VSet) and not o._concrete()) for o in others):
            r = VSet()
            for x in set.__iter__(self):
                if all(x in (o if not hasattr(o, '__next__') else list(o)) for o in others):
                    r.add(x)
            return r
        if len(others) == 1:
            note_read(self)
            return filter_set(self, others[0])
        raise OutOfSubset('intersection of symbolic sets')

    def __and__(self, o):
        return self.intersection(o)

    def __or__(self, o):
        return self.union(o)

    def __sub__(self, o):
        if isinstance(o, CSet):
            return CSet.of(self) - o
        if self._concrete() and (not isinstance(o, VSet) or o._concrete()):
            return VSet(x for x in self if x not in o)
        if isinstance(o, (set, frozenset)) and (not isinstance(o, VSet) or o._concrete()) and not has_sym(list(set.__iter__(o))):
            from .arr import positions
            note_read(self)
            r = VSet()
            out = lambda v: conj([z3.Not(sym_eq(v, x)) for x in sorted(set.__iter__(o))])
            vals, segs = self.members()
            for v in vals:
                if not has_sym(v):
                    if v not in o:
                        set.add(r, v)
                elif E().fork(out(v)):
                    r.sym.append(v)
            for sg in segs:
                ps = positions(lambda i, sg=sg: out(sg.at(i)), sg.n, 'rest')
                r.segs.append(FnSeq(ps.count, lambda k, sg=sg, ps=ps: sg.at(ps.ix(I(k)))))
            return r
        raise OutOfSubset('difference of symbolic sets')

    difference = __sub__

    def __eq__(self, o):
        if isinstance(o, CSet):
            return o == self
        if self._concrete() and isinstance(o, (set, frozenset)) and (not isinstance(o, VSet) or o._concrete()):
            return set(set.__iter__(self)) == set(set.__iter__(o))
        if not isinstance(o, (set, frozenset)) and not isinstance(o, Sym):
            return False
        if isinstance(o, VSet):
            return mk_bool(conj([self.within(o), o.within(self)]))
        raise OutOfSubset('comparison of symbolic sets')

    def within(self, o):
        """Subset, as a term"""
        vals, segs = self.members()
        cs = [o.has(v) for v in vals]
        for s in segs:
            k = E().fresh('sub')
            c = o.has(elem_term(s, k))
            q = bound_var(hint='u')
            cs.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < I(s.n)), z3.substitute(c, (k, q)))))
        return conj(cs)

    def __ne__(self, o):
        r = self == o
        return mk_bool(z3.Not(r.t)) if isinstance(r, SBool) else not r

    __hash__ = None

    def __repr__(self):
        return 'VSet(%s, %d sym, %d segs)' % (list(set.__iter__(self)), len(self.sym), len(self.segs))

    def _subst(self, sub):
        r = VSet()
        for x in set.__iter__(self):
            set.add(r, x)
        r.sym = [vsubst(x, sub) for x in self.sym]
        r.segs = [s.sub(sub) for s in self.segs]
        return r

    def _loop_effects(self, lp, n, guards, per_path):
        eng = E()
        pieces = []
        for efs in per_path:
            ps = []
            for ef in efs:
                if ef[0] == 'add':
                    ps.append(('one', ef[2]))
                elif ef[0] == 'addseq':
                    ps.append(('seq', ef[2]))
                else:
                    raise OutOfSubset('effect ' + ef[0])
            pieces.append(ps)
        consts = [v for ps in pieces for k, v in ps if k == 'one' and not has_sym(v)]
        if all(k == 'one' and not has_sym(v) for ps in pieces for k, v in ps):
            # constants: added if some iteration takes the path
            for v in {repr(v): v for v in consts}.values():
                q = bound_var(hint='s')
                hit = [any(k == 'one' and x == v for k, x in ps) for ps in pieces]
                g = disj([g for g, h in zip(guards, hit) if h])
                if all(hit):
                    if eng.fork(I(n) > 0):
                        self.add(v)
                    continue
                if eng.fork(z3.Exists([q], z3.And(q >= 0, q < I(n), lp._at(g, q)))):
                    self.add(v)
            return
        seq = LoopSeq(lp, n, guards, pieces)
        if record(self, ('addseq', self.uid, seq)):
            return
        self.segs.append(seq)


class CSet(VSet):
    """Any subset of a concrete universe: membership is a term for each"""
    def __init__(self, mem):
        VSet.__init__(self)
        self.mem = dict(mem)

    @staticmethod
    def of(x):
        if isinstance(x, CSet):
            return x
        if is_symseq(x) or isinstance(x, VSet) and not x._concrete():
            raise OutOfSubset('conditional set with a symbolic one')
        items = list(set.__iter__(x)) if isinstance(x, VSet) else list(x)
        if any(has_sym(i) for i in items):
            raise OutOfSubset('conditional set with a symbolic member')
        return CSet({i: z3.BoolVal(True) for i in items})

    def get(self, x):
        return self.mem.get(x, z3.BoolVal(False))

    def _concrete(self):
        return False

    def _static(self):
        if E().path.frames:
            raise OutOfSubset('conditional set in a generic iteration')

    def _order(self):
        return 'CSet'

    def add(self, x):
        self._static()
        if has_sym(x):
            raise OutOfSubset('symbolic member of a conditional set')
        self.mem[x] = z3.BoolVal(True)

    def discard(self, x):
        self._static()
        self.mem.pop(x, None)

    def remove(self, x):
        self._static()
        if x not in self:
            raise KeyError(x)
        self.mem.pop(x, None)

    def update(self, *its):
        self._static()
        for it in its:
            for x, c in CSet.of(it).mem.items():
                self.mem[x] = simp(z3.Or(self.get(x), c))

    __ior__ = lambda self, o: (self.update(o), self)[1]

    def union(self, *its):
        r = CSet(self.mem)
        r.update(*its)
        return r

    def intersection(self, *its):
        r = CSet(self.mem)
        for it in its:
            o = CSet.of(it)
            r.mem = {x: simp(z3.And(c, o.get(x))) for x, c in r.mem.items()}
        return r

    def difference(self, *its):
        r = CSet(self.mem)
        for it in its:
            o = CSet.of(it)
            r.mem = {x: simp(z3.And(c, z3.Not(o.get(x)))) for x, c in r.mem.items()}
        return r

    def _inplace(self, r):
        self._static()
        self.mem = r.mem
        return self

    intersection_update = lambda self, *its: (self._inplace(self.intersection(*its)), None)[1]
    difference_update = lambda self, *its: (self._inplace(self.difference(*its)), None)[1]
    __and__ = __rand__ = lambda self, o: self.intersection(o)
    __or__ = __ror__ = lambda self, o: self.union(o)
    __sub__ = lambda self, o: self.difference(o)
    __rsub__ = lambda self, o: CSet.of(o).difference(self)
    __iand__ = lambda self, o: self._inplace(self.intersection(o))
    __isub__ = lambda self, o: self._inplace(self.difference(o))

    def concretise(self):
        """The members on this path"""
        return [x for x in sorted(self.mem, key=repr) if E().fork(self.mem[x])]

    def __iter__(self):
        return iter(self.concretise())

    def __len__(self):
        return len(self.concretise())

    def sym_len(self):
        return len(self.concretise())

    def __bool__(self):
        return E().fork(simp(disj(list(self.mem.values()))))

    def __contains__(self, x):
        return E().fork(self.get(x))

    def has(self, x):
        if has_sym(x):
            raise OutOfSubset('symbolic member of a conditional set')
        return self.get(x)

    def same(self, o):
        o = CSet.of(o)
        return conj([simp(self.get(x) == o.get(x)) for x in set(self.mem) | set(o.mem)])

    def __eq__(self, o):
        return mk_bool(self.same(o)) if isinstance(o, (set, frozenset)) else False

    def __ne__(self, o):
        return mk_bool(z3.Not(self.same(o))) if isinstance(o, (set, frozenset)) else True

    __hash__ = None

    def within(self, o):
        o = CSet.of(o)
        return conj([simp(z3.Implies(c, o.get(x))) for x, c in self.mem.items()])

    def issubset(self, o):
        return mk_bool(self.within(o))

    __le__ = issubset
    __ge__ = issuperset = lambda self, o: mk_bool(CSet.of(o).within(self))

    def isdisjoint(self, o):
        return mk_bool(z3.Not(disj(list(self.intersection(o).mem.values()))))

    def copy(self):
        return CSet(self.mem)

    def filter(self, f):
        return CSet({x: c for x, c in self.mem.items() if f(x)})

    def members(self):
        raise OutOfSubset('members of a conditional set')

    def pop(self):
        raise OutOfSubset('pop from a conditional set')

    def _subst(self, sub):
        return CSet({x: sub(c) for x, c in self.mem.items()})

    def __repr__(self):
        return 'CSet(%s)' % sorted(self.mem)


class VDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        register(self)

    def __setitem__(self, k, v):
        if record(self, ('dictset', self.uid, k, v)):
            return
        if has_sym(k):
            raise OutOfSubset('symbolic dictionary key')
        dict.__setitem__(self, k, v)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, *a, **k):
        for x in a:
            for key, v in (x.items() if hasattr(x, 'items') else x):
                self[key] = v
        for key, v in k.items():
            self[key] = v

    def copy(self):
        return VDict(self)

    def _which(self, k):
        """The key equal to a symbolic one (a branch for each), or k"""
        if not isinstance(k, SInt) or E().path.frames or any(has_sym(x) for x in dict.keys(self)):
            raise OutOfSubset('symbolic dictionary key')
        for x in dict.keys(self):
            if isinstance(x, (int, np.integer)) and E().fork(k.t == int(x)):
                return x
        return None

    def __getitem__(self, k):
        note_read(self)
        if has_sym(k):
            x = self._which(k)
            if x is None:
                raise KeyError('symbolic key')
            k = x
        if k not in self and hasattr(self, 'default_factory'):
            v = self.default_factory()
            self[k] = v
            return v
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        note_read(self)
        if has_sym(k):
            return self._which(k) is not None
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __delitem__(self, k):
        if E().path.frames and self.epoch < E().path.frames[-1].epoch:
            raise OutOfSubset('deletion in a loop')
        dict.__delitem__(self, k)

    def _subst(self, sub):
        r = VDict()
        for k, v in self.items():
            dict.__setitem__(r, k, vsubst(v, sub))
        if hasattr(self, 'default_factory'):
            r.default_factory = self.default_factory
        return r

    def _loop_effects(self, lp, n, guards, per_path):
        raise OutOfSubset('dictionary filled in a symbolic loop')
