#!/bin/bash
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing anchor', d['id'], f)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for i in ids:
    p='evidence/%s.json'%i
    if os.path.exists(p): jsonschema.validate(json.load(open(p)),e)
    else: print('no evidence yet', i)
print(len(ids),'properties valid')
P
