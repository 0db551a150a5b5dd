"""Make and try planted bugs. Not used by any check.

    seed.py make DEFS.py [ID...]   write seeded/<ID>/ from a definitions file
    seed.py try [ID...]            confirm each (demo, tests) and run the check
"""
import os, sys, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
S = V + '/seeded'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def make(defs, ids):
    ns = {}
    exec(open(defs).read(), ns)
    for sid, d in ns['SEEDS'].items():
        if ids and sid not in ids:
            continue
        w = tempfile.mkdtemp(prefix='mk-', dir='/tmp')
        try:
            sh('git -C /repo worktree prune; cp -a /repo/. %s/' % w)
            for f, old, new in d['edits']:
                p = os.path.join(w, f)
                s = open(p).read()
                assert s.count(old) == 1, (sid, f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            rc, diff = sh('git diff', cwd=w)
            assert diff.strip(), sid
            o = os.path.join(S, sid)
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            open(o + '/patch.diff', 'w').write(diff)
            open(o + '/demo.py', 'w').write(ns['HEAD'] + d['demo'])
            if d.get('runs', True):
                shutil.copy(V + '/harness/model.py', o + '/runmaker.py')
            open(o + '/demo.sh', 'w').write(
                '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\n'
                'D="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
            os.chmod(o + '/demo.sh', 0o755)
            json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']),
                      open(o + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(w, ignore_errors=True)


def _try(sid, tests, check):
    o = os.path.join(S, sid)
    prop = json.load(open(o + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    out = [sid]
    try:
        d = w + '/demo'
        shutil.copytree(o, d, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = w + '/repo'
        sh('cp -a /repo %s' % r)
        env = {'PYTHONPATH': r}
        rc, t = sh('bash %s/demo.sh' % d, cwd=r, env=env)
        out.append('clean demo %s' % rc + ('' if rc == 0 else '\n' + t[-600:]))
        rc, t = sh('git apply %s/patch.diff' % o, cwd=r)
        if rc:
            return out + ['does not apply: ' + t]
        rc, t = sh('bash %s/demo.sh' % d, cwd=r, env=env)
        out.append('patched demo %s (%s)' % (rc, (t.strip().splitlines() or [''])[-1][:120]))
        if tests:
            rc, t = sh('%s -m pytest -q -x --no-header -p no:cacheprovider karabo_data 2>&1 %s -k "not test_permission" | tail -15' % (PY, '' if prop == 'C19' else '--ignore=karabo_data/tests/test_streamer.py'), cwd=r, env=env)
            out.append('tests: ' + ' | '.join(t.strip().splitlines()[-4:])[:400])
        if check:
            rc, t = sh('%s check.py %s' % (PY, prop), cwd=V, env={'KD_REPO': r, 'KD_EVIDENCE': w + '/ev', 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            v = [l for l in t.splitlines() if l.startswith('VIOLATION')]
            out.append('check rc=%s %s %s' % (rc, 'no-input' if v and all('no-failing' in l for l in v) else 'input' if v else '-', t.strip().splitlines()[0][:150] if t.strip() else ''))
            if rc not in (0, 1):
                out.append(t[-800:])
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        a = sys.argv[2:]
        tests = '--no-tests' not in a
        check = '--no-check' not in a
        ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(S))
        n = 8 if not check else 3
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(lambda i: _try(i, tests, check), ids):
                print('  '.join(r[:1]) + '\n    ' + '\n    '.join(r[1:]), flush=True)
