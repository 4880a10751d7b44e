#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/tools']
import props, checks
from jsonschema import validate
ps = json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
rows, chk, na = [], [], []
for p in props.P:
    q = {'id': p['id'], 'title': p['title'], 'statement': p['st'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': [p['obs']]}}
    if ps: validate(q, ps)
    assert len(q['title']) <= 80 and q['statement'].count('. ') <= 2, p['id']
    rows.append(q)
    if p.get('na'): na.append({'property': p['id'], 'reason': p['na']}); assert p['id'] not in checks.PROPS
    else:
        assert p['id'] in checks.PROPS, p['id']
        chk.append({'property': p['id'], 'quick_cmd': 'python3 driver.py %s quick' % p['id'], 'thorough_cmd': 'python3 driver.py %s thorough' % p['id'], 'technique': p.get('tech', 'symbolic execution of the LLVM IR of the real sources, Z3 decides every assertion'), 'level': 'model_checking', 'level_note': 'bounded: ' + checks.PROPS[p['id']]['bounds']})
assert len({r['id'] for r in rows}) == len(rows) and set(checks.PROPS) <= {r['id'] for r in rows}, set(checks.PROPS) - {r['id'] for r in rows}
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
m = {'version': 1, 'setup_cmd': 'python3 driver.py --setup', 'checks': chk, 'not_applicable': na, 'notes': props.NOTES}
if os.path.exists('/root/.vp/MANIFEST.schema.json'): validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(chk), 'checks', len(na), 'not applicable')
