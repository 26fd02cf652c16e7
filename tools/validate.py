# python3-vt tools/validate.py
import json, jsonschema, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
print('valid')
