#!/opt/venv/bin/python
"""Decide one property for /repo's current source.

    check.py Cxx                    quick or thorough run, by VERIF_TIER
    check.py Cxx --replay FILE      run the case of a replay file again

Exit 0: the property holds on everything explored; 1: it is broken (with a
VIOLATION line).
"""
import os, sys, json, time, traceback

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import warnings
warnings.simplefilter('ignore')


def load_findings(prop):
    out = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        line = line.strip()
        if line.startswith('finding: property=' + prop + ' '):
            out.append(line.split(' ', 2)[2])
    return out


def write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, default=repr)
    os.replace(tmp, path)


def replay(prop, path):
    from harness import base
    r = json.load(open(path))
    if r.get('kind') == 'obligation':
        from vc import registry
        res = registry.verify(prop, r.get('tier', 'quick'), only=r['obligation'])
        print(json.dumps(res.to_json(), indent=1, default=repr))
        return 1 if res.failed else 0
    st, desc, msg = base.run_case(prop, r['part'], r['index'], r['seed'])
    print(json.dumps({'status': st, 'case': desc, 'message': msg}, indent=1, default=repr))
    return 1 if st == 'fail' else 0


def main(argv):
    prop = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(prop, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    evdir = os.environ.get('KD_EVIDENCE') or os.path.join(HERE, 'evidence')
    findings = load_findings(prop)
    violations, known = [], []

    # 1. the executable contracts on concrete inputs (bounded), in its own time
    from harness import base
    try:
        b = base.run_property(prop, seed, tier, 200 if tier == 'quick' else 420)
    except Exception:
        # The code under test cannot even be imported
        b = dict(evaluations=0, distinct_nontrivial=0, timeouts=0, samples=[], parts={},
                 failures=[dict(part='import', index=0, case={}, message=traceback.format_exc())])
    for f in b['failures']:
        sig = f['part'] + ':' + (f['message'] or '').strip().splitlines()[-1][:160]
        if any(k and k in sig for k in findings):
            known.append(sig)
        else:
            violations.append(dict(kind='input', property=prop, seed=seed, signature=sig, **f))

    # 2. the deductive part
    from vc import registry
    t1 = time.time()
    v = registry.verify(prop, tier)
    for ob in v.failed:
        violations.append(dict(kind='obligation', property=prop, tier=tier, obligation=ob['name'],
                               no_input=True, **{k: w for k, w in ob.items() if k != 'name'}))

    reported = 0
    inputs = [x for x in violations if not x.get('no_input')]
    lines = []
    for n, x in enumerate((inputs or violations)[:5]):
        path = os.path.join(evdir, 'replay', '{}-{}.json'.format(prop, n))
        if inputs:
            x['failed_obligations'] = [ob['name'] for ob in v.failed]
        write(path, x)
        lines.append('VIOLATION property={} replay={}{}'.format(
            prop, path, ' no-failing-input-found' if x.get('no_input') else ''))
        print((x.get('signature') or x.get('obligation'))[:300])
        msg = x.get('message') or ''
        print('    ' + msg.strip().replace('\n', '\n    ')[-1500:])
        reported += 1
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property={} {}'.format(prop, k))

    cov = v.coverage()
    cov.update(
        evaluations=b['evaluations'], distinct_nontrivial=b['distinct_nontrivial'],
        rule='Bounded part: the executable contract of the property (harness/{}.py) on generated inputs; a case '
             'counts as non-trivial if its generator produced something the contract constrains (it did not return '
             '"skip").'.format(prop.lower()),
        samples=b['samples'][:3], bounded_parts=b['parts'], bounded_not_run=b['timeouts'])
    write(os.path.join(evdir, prop + '.json'), dict(
        property=prop, tier=tier, seed=seed, level=v.level, coverage=cov,
        assumptions=v.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations)))
    print('{}: {} obligations, {} discharged ({:.1f} s); {} bounded cases ({:.1f} s){}'.format(
        prop, cov.get('obligations', 0), cov.get('discharged', 0), time.time() - t1, b['evaluations'], t1 - t0,
        '; not under contract: ' + ', '.join(v.undecided) if v.undecided else ''))
    for l in lines:
        print(l)
    return 1 if lines else 0


if __name__ == '__main__':
    os.chdir(HERE)
    sys.exit(main(sys.argv[1:]))
