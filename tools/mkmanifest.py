#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harnesses present in props/."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
NA = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'notes.py')) else None
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    f = os.path.join(HERE, 'props', i + '.py')
    if os.path.exists(f):
        src = open(f).read()
        m = re.search(r"^BOUNDS = \((.*?)\)\n", src, re.S | re.M) or re.search(r"^BOUNDS = (.*?)\n", src, re.M)
        b = eval('(' + m.group(1) + ')')
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'symbolic execution of the current sources with z3 deciding every branch and assertion; counterexamples replayed on the real code',
                       'level': 'model_checking',
                       'level_note': ('Bounded: ' + b + '. float64 is modelled as exact reals. ' + NOTES.get(i, '')).strip()})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. See DESIGN.md.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
