"""C02 selection of sources and keys."""
from fnmatch import fnmatchcase
from .common import *
from .common import _DC


def key_match(spec, s, k, kg):
    if fnmatchcase(k, kg):
        return True
    return spec.is_control(s) and k.endswith('.value') and fnmatchcase(k[:-6], kg)


def glob_pairs(spec, pairs):
    """(selected {src: keys}, list of pattern pairs matching nothing)"""
    sel, none = {}, []
    for sg, kg in pairs:
        hit = soft = False
        for s in spec.sel:
            if not fnmatchcase(s, sg):
                continue
            ks = {k for k in spec.sel[s] if key_match(spec, s, k, kg)}
            if ks:
                hit = True
                sel.setdefault(s, set()).update(ks)
            elif not spec.sel[s]:
                soft = True
        if not hit:
            none.append('soft' if soft else 'none')
    return sel, none


def gen_glob(rng, words):
    w = rng.choice(words)
    r = rng.random()
    if r < .2:
        return '*'
    if r < .35:
        return w
    if r < .5:
        i = rng.randrange(len(w))
        return w[:i] + '*'
    if r < .65:
        i = rng.randrange(len(w))
        return '*' + w[i:]
    if r < .75:
        i = rng.randrange(len(w))
        return w[:i] + '?' + w[i + 1:]
    if r < .85:
        i = rng.randrange(len(w))
        return w[:i] + '[' + rng.choice(['', '!']) + rng.choice([w[i], 'a-m', '0-9', 'xyz']) + ']' + w[i + 1:]
    if r < .95:
        return '*' + w[len(w) // 3: len(w) // 2 + 1] + '*'
    return rng.choice(['nothing', w.lower(), w.upper(), w + 'x'])


def pairs_of(spec):
    return {(s, k) for s in spec.sel for k in spec.sel[s]}


def check_pairs(dc, spec):
    got = {(s, k) for s in dc.all_sources for k in dc.keys_for_source(s)}
    want = pairs_of(spec)
    require(got == want, 'selected pairs: unexpected {}, missing {}', sorted(got - want), sorted(want - got))


def prune(spec):
    return spec.with_sel({s: k for s, k in spec.sel.items() if k})


def rand_op(rng, dc, spec, base_dc, base_spec, log):
    kind = rng.choice(['glob2', 'list', 'dict', 'deglob', 'delist', 'dedict', 'bad'])
    srcs = sorted(spec.sel)
    allk = sorted({k for s in spec.sel for k in spec.sel[s]})
    if not srcs or not allk:
        return dc, spec
    skeys = allk + [k[:-6] for k in allk if k.endswith('.value')]
    de = kind.startswith('de')
    name = 'deselect' if de else 'select'
    if kind in ('glob2', 'deglob', 'list', 'delist'):
        if kind in ('glob2', 'deglob'):
            sg = gen_glob(rng, srcs)
            if rng.random() < .35:
                pairs, args = [(sg, '*')], (sg,)
            else:
                kg = gen_glob(rng, skeys)
                pairs, args = [(sg, kg)], (sg, kg)
        else:
            pairs = [(gen_glob(rng, srcs), gen_glob(rng, skeys)) for _ in range(rng.randrange(1, 4))]
            args = (pairs,)
        sel, none = glob_pairs(spec, pairs)
        log.append('{}{!r}'.format(name, args))
        if 'none' in none:
            raises(Exception, lambda: getattr(dc, name)(*args), log[-1])
            return dc, spec
        if none:
            return dc, spec
        new = getattr(dc, name)(*args)
    elif kind in ('dict', 'dedict'):
        sel, arg = {}, {}
        for s in rand_subset(rng, srcs, .6) or [srcs[0]]:
            r = rng.random()
            if not spec.sel[s]:
                continue
            if r < .4:
                arg[s] = rng.choice([set(), set(), None, {}])
                sel[s] = set(spec.sel[s])
            else:
                ks = set(rand_subset(rng, sorted(spec.sel[s]), .6) or [sorted(spec.sel[s])[0]])
                named = set(ks)
                # a mapping may name keys which an earlier selection dropped
                if rng.random() < .3:
                    named |= set(rand_subset(rng, sorted(base_spec.sel[s]), .5))
                arg[s] = named
                sel[s] = named & spec.sel[s]
        if not arg:
            return dc, spec
        keep = {s: (set(v) if v else v) for s, v in arg.items()}
        log.append('{}({!r})'.format(name, arg))
        new = getattr(dc, name)(arg)
        require({s: (set(v) if v else v) for s, v in arg.items()} == keep, '{} changed its argument', name)
    else:
        bad = rng.choice([5, ('x', 'y'), {'NO/SUCH/SOURCE': set()}, {'NO/SUCH/SOURCE': {'a'}}, None])
        log.append('select({!r})'.format(bad))
        op = rng.choice(['select', 'deselect'])
        raises(Exception, lambda: getattr(dc, op)(bad), '{}({!r})'.format(op, bad))
        return dc, spec
    if de:
        res = {s: spec.sel[s] - sel.get(s, set()) for s in spec.sel}
    else:
        res = sel
    return new, prune(spec.with_sel(res))


def check_consistent(dc, spec, base):
    check_pairs(dc, spec)
    # a few trains: exactly the selected keys are delivered
    for t in spec.tids[:2] + spec.tids[-1:]:
        _, data = dc.train_from_id(t)
        for s in spec.sel:
            d = dict(data.get(s, {}))
            d.pop('metadata', None)
            require(set(d) <= spec.sel[s], 'train {}: {} has unselected keys {}', t, s, sorted(set(d) - spec.sel[s]))
            if any(t in f.tids and s in f.sources() for f in spec.files):
                want = {k for k in spec.sel[s] if spec.has(s, k, t)}
                require(set(d) == want, 'train {}: {} has keys {} instead of {}', t, s, sorted(d), sorted(want))
        for s in data:
            if s not in spec.sel:
                require(not (set(data[s]) - {'metadata'}), 'train {}: data of unselected source {}', t, s)


def case(rng, scratch, desc):
    files = gen_run(rng, max_seq=2, max_trains=3, n_ctrl=rng.randrange(1, 4), n_inst=rng.randrange(0, 4),
                    allow_empty_file=False)
    dc = open_coll(rng, files, scratch)
    base = Coll(files)
    desc.update({k: v for k, v in base.describe().items() if k == 'selection'})
    log = desc['operations'] = []
    cur, cs = dc, base
    hist = [(dc, base)]
    for _ in range(rng.randrange(1, 5)):
        cur, cs = rand_op(rng, cur, cs, dc, base, log)
        hist.append((cur, cs))
        if not pairs_of(cs):
            break
    for d, s in hist:   # including: earlier collections are unchanged
        check_pairs(d, s)
    check_consistent(cur, cs, base)
    check_ids(cur, base)
    check_all(dc, base, arrays=False)
    close(dc)


def case_union(rng, scratch, desc):
    files = gen_run(rng, max_seq=3, max_trains=3, n_ctrl=rng.randrange(1, 3), n_inst=rng.randrange(0, 3),
                    allow_empty_file=False)
    dc = open_coll(rng, files, scratch)
    base = Coll(files)
    desc.update(base.describe())
    log = desc['operations'] = []
    ops = []
    for _ in range(rng.randrange(2, 4)):
        c, s = dc, base
        if rng.random() < .5:
            fs = rand_subset(rng, files, .6) or [rng.choice(files)]
            c = _DC().from_paths([f.path for f in fs])
            s = Coll(fs)
            log.append('files {}'.format([f.name for f in fs]))
        for _ in range(rng.randrange(0, 3)):
            c, s = rand_op(rng, c, s, c, s, log)
        if rng.random() < .5 and pairs_of(s):
            c, s = select_some_trains(rng, c, s)
            log.append('trains {}'.format(s.tids))
        # what the operand really offers (file filtering may drop whole sources)
        s = prune(s.with_sel({x: s.sel[x] for x in s.sel if x in c.all_sources}))
        log.append('--')
        ops.append((c, s))
    u = ops[0][0].union(*[c for c, _ in ops[1:]])
    sel = {}
    tids = set()
    for _, s in ops:
        tids |= set(s.tids)
        for src in s.sel:
            sel.setdefault(src, set()).update(s.sel[src])
    us = Coll(files, sel, tids)
    check_ids(u, us)
    check_pairs(u, prune(us))
    for t in us.tids:
        _, data = u.train_from_id(t)
        for s in us.sel:
            for k in us.sel[s]:
                owed = any(t in o.tids and k in o.sel.get(s, ()) and o.has(s, k, t) for _, o in ops)
                d = data.get(s, {})
                if owed:
                    require(k in d, 'train {}: {} {} of an operand is missing in the union', t, s, k)
                if k in d:
                    require(us.has(s, k, t) and same(d[k], squeeze1(us.rows(s, k, t))),
                            'train {}: {} {} is wrong in the union', t, s, k)
    for c, s in ops:
        check_ids(c, s)
        check_pairs(c, s)
    close(dc)
    close(u)


PARTS = [('select', case, 220), ('union', case_union, 120)]
