"""Validate properties.jsonl, MANIFEST.json and evidence/*.json against the schemas (run with python3-vt)."""
import json, jsonschema, glob, os
R='/root/.vp/'; V='/verif/'
ps=json.load(open(R+'PROPERTIES.schema.json')); ids=[]
for l in open(V+'properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,ps); ids.append(o['id'])
assert len(ids)==len(set(ids))
if os.path.exists(V+'MANIFEST.json'):
    m=json.load(open(V+'MANIFEST.json')); jsonschema.validate(m,json.load(open(R+'MANIFEST.schema.json')))
    c={x['property'] for x in m['checks']}|{x['property'] for x in m.get('not_applicable',[])}
    print('unlisted', sorted(set(ids)-c), 'unknown', sorted(c-set(ids)))
es=json.load(open(R+'EVIDENCE.schema.json'))
for f in glob.glob(V+'evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print(len(ids),'properties ok')
