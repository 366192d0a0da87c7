"""Schema check of properties.jsonl, MANIFEST.json and the evidence files (python3-vt tools/validate.py)."""
import json, glob, jsonschema
V = jsonschema.Draft7Validator
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
bad = 0
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    for e in V(sch).iter_errors(d):
        bad += 1
        print(d['id'], e.message, list(e.path))
for e in V(json.load(open('/root/.vp/MANIFEST.schema.json'))).iter_errors(json.load(open('/verif/MANIFEST.json'))):
    bad += 1
    print('MANIFEST', e.message[:200])
for f in glob.glob('/verif/evidence/C*.json'):
    for e in V(json.load(open('/root/.vp/EVIDENCE.schema.json'))).iter_errors(json.load(open(f))):
        bad += 1
        print(f, e.message[:200])
print('%d problems' % bad)
