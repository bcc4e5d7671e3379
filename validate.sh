#!/bin/sh
# Regenerates and validates the manifest and the properties (development helper).
cd "$(dirname "$0")" && python3 gen.py && /opt/veriftools/pyvenv/bin/python - <<'P'
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),json.load(open('/root/.vp/PROPERTIES.schema.json')))
print('valid')
P
