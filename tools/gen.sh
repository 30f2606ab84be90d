#!/bin/bash
cd "$(dirname "$0")/.." && python3 tools/meta.py && python3-vt - <<'X'
import json,jsonschema
ps=[json.loads(l) for l in open('properties.jsonl')]
for l in ps:
    jsonschema.validate(l,json.load(open('/root/.vp/PROPERTIES.schema.json')))
    assert l['statement'].count('. ')<=2,l['id']
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
X
