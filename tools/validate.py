import json, os, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'):
    try:
        jsonschema.validate(json.loads(l), s)
    except jsonschema.ValidationError as e:
        print(json.loads(l)['id'], str(e)[:200])
jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir(V + '/evidence')):
    if f.endswith('.json'):
        jsonschema.validate(json.load(open(V + '/evidence/' + f)), e)
print("checked")
