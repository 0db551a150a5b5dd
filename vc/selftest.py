"""Compare the contracts of NumPy operations (npshim.py, arr.py) with NumPy.

    python -m vc.selftest [SEED]

Arrays of fresh symbols are constrained to concrete values. What is assumed of
the result of an operation must allow the result of NumPy (an axiom that excludes
it would be unsound); elements of which it implies the value are counted too.
Run by hand after a change of the shim, not part of the checks."""
import sys
import threading
import numpy as np


OPS1 = {
    'cumsum': lambda np, a, b: np.cumsum(a),
    'diff': lambda np, a, b: np.diff(a),
    'nonzero': lambda np, a, b: np.nonzero(a)[0],
    'flatnonzero': lambda np, a, b: np.flatnonzero(a > 1),
    'repeat': lambda np, a, b: np.repeat(b, a),
    'repeat scalar': lambda np, a, b: np.repeat(b, 2),
    'concatenate': lambda np, a, b: np.concatenate([a, b, a]),
    'stack': lambda np, a, b: np.stack([a, b]).reshape(-1),
    'where': lambda np, a, b: np.where(a > b, a, b),
    'isin': lambda np, a, b: np.isin(a, b),
    'unique': lambda np, a, b: np.unique(a),
    'unique counts': lambda np, a, b: np.unique(a, return_counts=True)[1],
    'unique index': lambda np, a, b: np.unique(a, return_index=True)[1],
    'intersect1d': lambda np, a, b: np.intersect1d(a, b),
    'union1d': lambda np, a, b: np.union1d(a, b),
    'sum': lambda np, a, b: np.sum(a),
    'min': lambda np, a, b: a.min(),
    'max': lambda np, a, b: a.max(),
    'any': lambda np, a, b: (a == 2).any(),
    'all': lambda np, a, b: (a >= 0).all(),
    'count_nonzero': lambda np, a, b: np.count_nonzero(a),
    'slice': lambda np, a, b: a[1:-1],
    'slice step': lambda np, a, b: a[::2],
    'slice negative': lambda np, a, b: a[-3:],
    'slice beyond': lambda np, a, b: a[2:100],
    'mask': lambda np, a, b: a[b > 1],
    'mask both': lambda np, a, b: a[(b > 0) & (a < 3)],
    'fancy': lambda np, a, b: a[np.array([0, 2, 1, -1])],
    'nonzero then fancy': lambda np, a, b: b[np.nonzero(a)[0]],
    'arange': lambda np, a, b: np.arange(1, a.shape[0], 2),
    'zeros': lambda np, a, b: np.zeros(a.shape[0], dtype='u8'),
    'full': lambda np, a, b: np.full(a.shape[0], 7),
    'add': lambda np, a, b: a + b * 2 - 1,
    'compare': lambda np, a, b: (a <= b) | (a == 3),
    'floor division': lambda np, a, b: (a - 5) // (b + 1),
    'modulo': lambda np, a, b: (a - 5) % (b + 1),
    'expand': lambda np, a, b: (np.expand_dims(a, 0) + np.expand_dims(b, 1)).reshape(-1),
    'broadcast': lambda np, a, b: (a[:, None] * b[None, :]).ravel(),
    'transpose': lambda np, a, b: np.stack([a, b]).transpose().reshape(-1),
    'moveaxis': lambda np, a, b: np.moveaxis(np.stack([a, b]), 0, 1).ravel(),
    'abs': lambda np, a, b: np.abs(a - b),
    'searchsorted': lambda np, a, b: np.searchsorted(np.cumsum(a), b),
    'unsigned': lambda np, a, b: (a.astype('u8') - b.astype('u8')),
    'split': lambda np, a, b: np.split(a, [1, 3])[1],
    'assign': lambda np, a, b: assigned(np, a, b),
    'assign mask': lambda np, a, b: assigned_mask(np, a, b),
}


def assigned(np, a, b):
    r = np.zeros(a.shape[0], dtype='i8')
    r[1:3] = b[1:3]
    r[0] = 9
    return r


def assigned_mask(np, a, b):
    r = np.array(b)
    r[a > 1] = 5
    return r


def main(seed):
    from . import core, bshim, npshim, api, xform
    from .core import I, z3
    xform.Loader.runtime = bshim.runtime
    xform.Loader.builtins = bshim.BUILTINS
    rng = np.random.RandomState(seed)
    total = bad = skipped = confirmed = 0
    for name, op in OPS1.items():
        for _ in range(3):
            n = rng.randint(4, 7)
            xs, ys = rng.randint(0, 4, n), rng.randint(0, 4, n)
            want = np.asarray(op(np, xs.astype('i8'), ys.astype('i8')))
            found = []

            def contract(eng):
                fs = [eng.fresh_fn(h, [z3.IntSort()], z3.IntSort()) for h in 'ab']
                N = eng.fresh('n')
                api.fact(N == int(n))
                for f, vs in zip(fs, (xs, ys)):
                    for i, v in enumerate(vs):
                        api.fact(f(int(i)) == int(v))
                a, b = [api.arr_of(f, N, np.dtype('i8')) for f in fs]
                got = op(npshim.NPM, a, b)
                if want.ndim == 0:
                    t = api.T(got)
                    if z3.is_bool(t):
                        g = t if want else z3.Not(t)
                    else:
                        g = t == int(want)
                    found.append(eng.implied(g, rlimit=3000000) or 'allowed')
                    api.fact(g)
                    if eng.implied(z3.BoolVal(False), rlimit=20000000):
                        found.append('contradiction')
                    return
                goals = [I(api.n_of(got)) == len(want)]
                for i, v in enumerate(want):
                    t = api.at(got, i)
                    goals.append((t if v else z3.Not(t)) if z3.is_bool(t) else t == int(v))
                found.extend(eng.implied(g, rlimit=3000000) or 'allowed' for g in goals)
                for g in goals:
                    api.fact(g)
                # the axioms are consistent
                if eng.implied(z3.BoolVal(False), rlimit=20000000):
                    found.append('contradiction')
            eng = core.Engine(name)
            core.current.eng = eng
            try:
                eng.explore(contract)
            except core.OutOfSubset as e:
                print('%-20s not in the subset: %s' % (name, e))
                skipped += 1
                break
            except Exception as e:
                print('%-20s %r' % (name, e))
                skipped += 1
                break
            finally:
                core.current.eng = None
            total += len(found)
            confirmed += sum(f is True for f in found)
            wrong = [f for f in found if f not in (True, 'allowed')]
            if wrong:
                bad += 1
                print('%-20s a=%s b=%s: %s' % (name, xs, ys, wrong))
    print('%d values, %d of them implied, %d cases excluded, %d operations not supported'
          % (total, confirmed, bad, skipped))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    r = []
    t = threading.Thread(target=lambda: r.append(main(int(sys.argv[1]) if len(sys.argv) > 1 else 1)))
    t.start()
    t.join()
    sys.exit(r[0] if r else 1)
