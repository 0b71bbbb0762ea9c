#!/bin/sh
# validates properties.jsonl and MANIFEST.json against their schemas
/opt/veriftools/pyvenv/bin/python - <<'E'
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open('/verif/properties.jsonl'):
    if l.strip():
        jsonschema.validate(json.loads(l),s);n+=1
m=json.load(open('/root/.vp/MANIFEST.schema.json'));M=json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(M,m);print(n,'properties ok')
E
