#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md."""
import glob
import json
import os
import re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(H + '/tools/notes.py').read(), ns)
old = open(H + '/DESIGN.md').read() if os.path.exists(H + '/DESIGN.md') else ''


def tup(src, name):
    m = re.search(r'^%s = ' % name, src, re.M)
    if not m:
        return None
    import ast
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            v = ast.literal_eval(n.value)
            return v if isinstance(v, str) else '; '.join(v)


out = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    src = open('%s/props/%s.py' % (H, i)).read()
    wall = re.search(r'### %s .*?\(quick about (\d+) s' % i, old)
    t = wall.group(1) if wall else '?'
    f = '%s/evidence/%s.json' % (H, i)
    if os.path.exists(f):
        e = json.load(open(f))
        if e.get('tier') == 'quick':
            t = '%d' % max(1, round(e['wall_s'], -1) if e['wall_s'] > 20 else round(e['wall_s']))
    out.append('### %s %s (quick about %s s)\n\n%s\n\nBounds: %s.%s\n' % (
        i, p['title'], t, ns['NOTES'][i], tup(src, 'BOUNDS'), ' Assumed: %s.' % tup(src, 'ASSUME') if tup(src, 'ASSUME') else ''))
find = ['- %s' % l.strip() for l in open(H + '/known_findings.txt') if l.startswith(('fixed:', 'known:'))]
seeds = ['| seed | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], c(m['what_it_breaks']), c(m['needs'])))
s = open(H + '/tools/design_head.md').read()
for k, v in (('PROPS', out), ('FINDINGS', find), ('SEEDS', seeds)):
    s = s.replace('"""%s"""' % k, '\n'.join(v).strip())
open(H + '/DESIGN.md', 'w').write(s)
print(len(s))
