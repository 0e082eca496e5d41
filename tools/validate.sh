#!/bin/bash
# Validates the metadata (and evidence, when present) against the schemas.
cd "$(dirname "$0")/.." || exit 1
python3-vt - <<'PY'
import json, jsonschema, glob
ps=json.load(open('/root/.vp/PROPERTIES.schema.json')); ms=json.load(open('/root/.vp/MANIFEST.schema.json')); es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
ids=[]
for l in open('properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,ps); ids.append(p['id'])
m=json.load(open('MANIFEST.json')); jsonschema.validate(m,ms)
assert sorted(ids)==sorted(c['property'] for c in m['checks']), 'mismatch'
import os
for p in map(json.loads,open('properties.jsonl')):
    for f in p['anchors']['files']+[x['where'] for x in p['anchors']['mechanism']]:
        if not os.path.exists('/repo/'+f): print('missing anchor',p['id'],f)
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('ok',len(ids))
PY
