"""MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'sim', 'props', i.lower() + '.py')) and i in TECH['checks']:
        t = TECH['checks'][i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=t['technique'], level=t['level'], level_note=t['note']))
    else:
        na.append(dict(property=i, reason=TECH['na'].get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./check selftest', checks=checks, not_applicable=na, notes=TECH['notes'])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
