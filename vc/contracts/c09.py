"""C09: conflicting data"""
from ..api import *
from ._model import *
from ..bshim import text_parts


class Src:
    """A source name"""
    def __init__(self, s):
        self.s = s

    def _subst(self, sub):
        return Src(sub(self.s))

    def _ident(self):
        return self.s

    def __eq__(self, o):
        return mk_bool(self.s == o.s)

    __hash__ = None


class Seen(object):
    """Invariant of the train IDs seen in the files before j of a source: an
    increasing array of exactly the IDs t whose first file G(s, t) is < j"""
    def __init__(self, m):
        self.m, self.len_fn = m, None

    def arr(self, lp, name):
        F = lambda nm, extra, ret=ISORT: FreshFn(z3.Function('%s@%d.%s' % (nm, lp.tag, name),
                                                            *([ISORT] * (len(lp.outer) + extra) + [ret])), lp.outer)
        r = F('seen_n', 1), F('seen', 2), F('seen_ix', 2)
        self.len_fn = r[0].decl
        return r

    def at(self, lp, name, j):
        n, u, ix = self.arr(lp, name)
        m = self.m
        s = m.s_of(lp)
        j = I(j)
        i, l, p = [bound_var(hint=h) for h in 'ilp']
        fact(n(j) >= 0)
        t = u(j, i)
        fact(z3.And(t >= 0, t < 2 ** 64, m.G(s, t) >= 0, m.G(s, t) < j), [i], [i >= 0, i < n(j)], [(t,)])
        x = m.tid(s, l, p)
        fact(z3.And(ix(j, x) >= 0, ix(j, x) < n(j), u(j, ix(j, x)) == x), [l, p],
             [l >= 0, l < j, p >= 0, p < m.ntr(s, l)], [(x, n(j))])
        return new((n(j),), u8, lambda idx: u(j, I(idx[0])))

    def check(self, lp, v, j, when):
        m = self.m
        s = m.s_of(lp)
        if not isinstance(v, Arr):
            v = A.from_np(v)
        with scope():
            i = skolem('i', 0, v._shape[0])
            prove('seen: only earlier files (%s)' % when, z3.And(m.G(s, at(v, i)) >= 0, m.G(s, at(v, i)) < j))
        with scope():
            l = skolem('l', 0, m.NF(s))
            p = skolem('p', 0, m.ntr(s, l))
            k = z3.Int('seenk')
            prove('seen: all earlier files (%s)' % when, z3.Implies(l < j, z3.Exists([k], z3.And(
            k >= 0, k < I(v._shape[0]), at(v, k) == m.tid(s, l, p)))))

    def entry(self, lp, name, v):
        self.check(lp, v, z3.IntVal(0), 'entry')

    def step(self, lp, name, v, j):
        self.check(lp, v, j, 'step')


class ManySources:
    """Any number of sources s, each with any number of files k"""
    def __init__(self):
        eng = E()
        F = lambda nm, n, ret=ISORT: eng.fresh_fn(nm, [ISORT] * n, ret)
        self.NS, self.NF, self.ntr, self.tid = eng.fresh('NS'), F('NF', 1), F('ntr', 2), F('tid', 3)
        # ghost: the first file of source s with train t (or -1), and its position there
        self.G, self.P = F('G', 2), F('P', 2)
        s, k, p, q = [bound_var(hint=h) for h in 'skpq']
        fact(self.NS >= 0)
        fact(self.NF(s) >= 0, [s], (), [(self.NF(s),)])
        fact(self.ntr(s, k) >= 0, [s, k], (), [(self.ntr(s, k),)])
        t = self.tid(s, k, p)
        inp = [s >= 0, s < self.NS, k >= 0, k < self.NF(s), p >= 0, p < self.ntr(s, k)]
        fact(z3.And(t >= 0, t < 2 ** 64), [s, k, p], inp, [(t,)])
        fact(t < self.tid(s, k, q), [s, k, p, q], inp + [p < q, q < self.ntr(s, k)], [(t, self.tid(s, k, q))])
        g = self.G(s, t)
        fact(z3.And(g >= 0, g <= k, self.P(s, t) >= 0, self.P(s, t) < self.ntr(s, g),
                    self.tid(s, g, self.P(s, t)) == t), [s, k, p], inp, [(t,)])

    def s_of(self, lp):
        return lp.outer[-1] if lp.outer else lp.seq_source

    def files(self, s):
        return VList.from_seq(FnSeq(self.NF(s), lambda k: SrcFile(self, s, I(k))))

    def items(self):
        return VList.from_seq(FnSeq(self.NS, lambda s: (Src(I(s)), self.files(I(s)))))


class SrcFile:
    def __init__(self, m, s, k):
        self.m, self.s, self.k = m, s, k

    @property
    def train_ids(self):
        m, s, k = self.m, self.s, self.k
        return new((dim(m.ntr(s, k)),), u8, lambda idx: m.tid(s, k, I(idx[0])))

    def _subst(self, sub):
        return SrcFile(self.m, sub(self.s), sub(self.k))


@contract('C09', 'reader.DataCollection._check_source_conflicts')
def check_source_conflicts(eng):
    m = ManySources()
    dc = object.__new__(DataCollection)
    dc._source_index = m
    seen = Seen(m)
    eng.loop_state = lambda lp, name, v: seen if isinstance(v, (Arr, np.ndarray)) and lp.outer else None
    # an arbitrary source with the same train in two files
    s = z3.Int('any_source')
    k, l, p, q = [z3.Int('any_' + h) for h in 'klpq']
    conflict = z3.And(s >= 0, s < m.NS, k >= 0, k < l, l < m.NF(s), p >= 0, p < m.ntr(s, k), q >= 0, q < m.ntr(s, l),
                      m.tid(s, k, p) == m.tid(s, l, q))
    try:
        dc._check_source_conflicts()
    except ValueError as e:
        if seen.len_fn is not None:
            mention(seen.len_fn(s, l))
        named = [x[2] for x in text_parts(str(e)) if x[0] == 'join']
        if not named:
            prove('message-names-sources', False)
            return
        with scope():
            suppose(conflict)
            sq = [q for x in named for q in set_seqs(x)]
            if len(sq) == 1 and isinstance(sq[0], LoopSeq):
                w = seq_index(sq[0], s, 0)
                prove('names-every-source', z3.And(w >= 0, w < I(sq[0].n), elem_term(sq[0], w) == s))
            else:
                prove('names-every-source', z3.Or(*[x.has(Src(s)) for x in named]))
        # and only sources with a conflict
        for x in named:
            for sq in set_seqs(x):
              with scope():
                i = skolem('named', 0, I(sq.n))
                b = sq.at(i).s
                kk, ll, pp, qq = [z3.Int('ex_' + h) for h in 'klpq']
                prove('names-only-conflicts', z3.Exists([kk, ll, pp, qq], z3.And(
                    kk >= 0, kk < ll, ll < m.NF(b), pp >= 0, pp < m.ntr(b, kk), qq >= 0, qq < m.ntr(b, ll),
                    m.tid(b, kk, pp) == m.tid(b, ll, qq))))
            prove('error-only-if-conflict', z3.Or(*[I(sq.n) > 0 for sq in set_seqs(x)]))
        return
    if seen.len_fn is not None:
        mention(seen.len_fn(s, l))
    prove('conflict-raises', z3.Not(conflict))
