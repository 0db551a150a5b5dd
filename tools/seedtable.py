"""Print the table of planted bugs: seedtable.py RESULTS (lines: id by)"""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
by = dict(l.split(None, 1) for l in open(sys.argv[1])) if len(sys.argv) > 1 else {}
print('| bug | what it breaks | needs | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, d, 'meta.json')))
    print('| {} | {} | {} | {}: {} |'.format(d, m['what_it_breaks'], m['needs'], m['property'], by.get(d, '?').strip()))
