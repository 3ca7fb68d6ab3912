import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from cv import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
NA = props.NOT_APPLICABLE
checks = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique=P.get('technique', 'contract-based deductive verification of the C functions (symbolic execution with inferred loop invariants, z3)'),
                           level=P['level'], level_note=P['note']))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, 'no check has been built yet')) for i in ids if i not in props.PROPS],
         notes='check.py extracts the functions from /repo on every run, generates and discharges the obligations, and runs the runtime contracts on a fresh build')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
