"""Which obligations decide which property: runs vc.run in its own process and
interprets what it reports."""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_ns = {}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read(), _ns)
PROVED = _ns['PROVED']

ENGINE_TRUST = [
    'The engine vc/ itself: mechanical AST transformation of the real modules (loops, comprehensions, boolean '
    'operators, built-in names routed through shims; nothing else of the text is changed or dropped), symbolic '
    'execution in CPython, loop summaries by one generic iteration.',
    'The contracts of NumPy operations in vc/npshim.py and vc/arr.py (compared with NumPy itself in selftest).',
    'z3 and cvc5.',
    'Integers are mathematical: no overflow of signed 64-bit arithmetic; unsigned wrap-around is checked where '
    'u64 values are subtracted. Floats are real numbers.',
    'Generators are run to the end where they are consumed; module-level objects are constant.',
]


class Result:
    def __init__(self, prop=''):
        self.prop = prop
        self.obligations, self.failed, self.undecided, self.assumptions = [], [], [], []
        self.contracts, self.seconds, self.notes = [], 0.0, []
        self.ran = False

    @property
    def level(self):
        return _ns['LEVEL'].get(self.prop, _ns['LEVEL_DEFAULT'])

    def coverage(self):
        if not self.obligations:
            return {}
        by = {}
        for o in self.obligations:
            if o['status'] == 'proved':
                by[o['backend']] = by.get(o['backend'], 0) + 1
        return dict(
            obligations=len(self.obligations),
            discharged=sum(o['status'] == 'proved' for o in self.obligations),
            discharged_by=by,
            solver_time_s=round(sum(o['time'] for o in self.obligations), 2),
            functions_under_contract=sorted({f for c in self.contracts for f in c['functions']}),
            contracts=[dict(name=c['name'], functions=c['functions'], paths=c['paths'],
                            obligations=len(c['obligations']),
                            discharged=sum(o['status'] == 'proved' for o in c['obligations']),
                            undecided=c['undecided'], assumed=c['assumes'],
                            explore_s=c['explore_s'], solve_s=c['solve_s']) for c in self.contracts],
            undecided=self.undecided,
            checker_cmd='/opt/venv/bin/python -m vc.run PROPERTY TIER OUT.json (z3 %s, cvc5)' % '5.3.2',
            trusted_base=ENGINE_TRUST + self.notes)

    def to_json(self):
        return dict(obligations=self.obligations, failed=self.failed, undecided=self.undecided)


def verify(prop, tier, only=None):
    res = Result(prop)
    fd, out = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    limit = 480 if tier == 'quick' else 780
    env['VC_DEADLINE'] = str(time.time() + limit - 40)
    err = ''
    try:
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vc.run', prop, tier, out], cwd=HERE, env=env,
                           timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = r.stderr.decode(errors='replace')[-2000:]
        with open(out) as fh:
            data = json.load(fh)
    except (subprocess.TimeoutExpired, ValueError, OSError) as e:
        res.undecided.append('engine did not finish: %s %s' % (type(e).__name__, err.strip()[-300:]))
        return res
    finally:
        os.unlink(out)
    res.ran = True
    res.contracts, res.seconds, res.notes = data['contracts'], data['seconds'], data['notes']
    for c in data['contracts']:
        for a in c['assumes']:
            if a not in res.assumptions:
                res.assumptions.append(a)
        if c['undecided']:
            res.undecided.append('%s (%s)' % (c['name'], c['undecided']))
        for o in c['obligations']:
            res.obligations.append(dict(o, contract=c['name'], functions=c['functions']))
            if o['status'] in ('unknown', 'refuted'):
                nm = c['name'] + ': ' + o['name']
                if only and nm != only:
                    continue
                res.failed.append(dict(o, name=nm, functions=c['functions'], message=(
                    'Obligation %s, from the current source of %s on path %s, is not discharged: %s %s'
                    % (nm, ', '.join(c['functions']), o['path'] or '(only one)', o['status'], o['reason'])).strip()))
    return res
