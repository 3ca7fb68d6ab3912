"""DESIGN.md from tools/DESIGN.in.md, the table of properties and the planted bugs."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from cv import props
rows = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    P = props.PROPS[p['id']]
    n = P['note']
    if P['specs']:
        mods = '; '.join('`%s`%s' % (m.split('.')[-1], '' if ns is None else ': ' + ', '.join(ns if len(ns) <= 14 else ns[:6] + ['… (%d specs)' % len(ns)])) for m, ns in P['specs'])
        kinds = ' (obligations of kind %s only)' % ', '.join(P['kinds']) if P.get('kinds') else ''
    else:
        mods, kinds = 'none', ''
    rows.append('| %s | %s | %s%s | %s `conc/%s.py` |' % (p['id'] + ' ' + p['title'], P['level'], mods, kinds, n, p['id'].lower()))
CAUGHT = json.load(open(H + '/tools/seeded_notes.json'))
sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    sd.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), CAUGHT.get(i, m['property'])))
s = open(H + '/tools/DESIGN.in.md').read().replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDED@@', '\n'.join(sd))
open(H + '/DESIGN.md', 'w').write(s)
