#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (texts) and checks.py (what is claimed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS
from props import PROPS, NOT_APPLICABLE
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
ids = [p['id'] for p in PROPS]
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()])
for p in PROPS:
    c = CHECKS.get(p['id'])
    if not c:
        if p['id'] not in NOT_APPLICABLE:
            m['not_applicable'].append(dict(property=p['id'], reason='the check for this property is not built yet'))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd=f'python3 run.py {p["id"]} quick', thorough_cmd=f'python3 run.py {p["id"]} thorough',
        technique=c['technique'], level=c['level'], level_note=c['level_note'], **({'theorems': c['theorems']} if 'theorems' in c else {})))
assert len(set(ids)) == len(ids)
for p in PROPS: assert len(p['title']) <= 80, p['title']
for n, t in m.items() if False else []: pass
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), s)
