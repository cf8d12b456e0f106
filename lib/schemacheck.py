"""python3-vt lib/schemacheck.py: validates properties.jsonl, MANIFEST.json and the evidence files."""
import json, jsonschema, glob
def v(s, d, n):
    for e in jsonschema.Draft202012Validator(json.load(open(s))).iter_errors(d): print(n, list(e.path), e.message[:200])
for i, l in enumerate(open('properties.jsonl')): v('/root/.vp/PROPERTIES.schema.json', json.loads(l), i)
v('/root/.vp/MANIFEST.schema.json', json.load(open('MANIFEST.json')), 'MANIFEST')
for f in glob.glob('evidence/C*.json'): v('/root/.vp/EVIDENCE.schema.json', json.load(open(f)), f)
