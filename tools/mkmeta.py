#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/texts.py and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/tools']; sys.dont_write_bytecode = True
from props import PROPS
from texts import T, NA
out = []; checks = []
for p in T:
    i = p['id']
    out.append(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['forall']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])))
    if i in PROPS: checks.append(dict(property=i, quick_cmd='python3 /verif/run.py %s quick' % i, thorough_cmd='python3 /verif/run.py %s thorough' % i,
        technique='property-based testing: ' + p['tech'], level='exploration', level_note=p.get('note', 'generated search, no exhaustiveness claim; replay file is the shrunk choice sequence'), evidence_file='/verif/evidence/%s.json' % i))
with open(V + '/properties.jsonl', 'w') as f:
    for o in out: f.write(json.dumps(o) + '\n')
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA])
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for o in out: jsonschema.validate(o, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(out), 'properties', len(checks), 'checks')
except ImportError: print('not validated')
