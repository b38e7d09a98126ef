import json,jsonschema,glob,os
R='/verif'
S=lambda n: json.load(open(f'/root/.vp/{n}.schema.json'))
jsonschema.validate(json.load(open(f'{R}/MANIFEST.json')),S('MANIFEST'))
for l in open(f'{R}/properties.jsonl'): jsonschema.validate(json.loads(l),S('PROPERTIES'))
for f in glob.glob(f'{R}/evidence/*.json'): jsonschema.validate(json.load(open(f)),S('EVIDENCE'))
ids={json.loads(l)['id'] for l in open(f'{R}/properties.jsonl')}
for d in glob.glob(f'{R}/seeded/*/'):
    m=json.load(open(d+'meta.json')); assert m['property'] in ids; assert os.path.exists(d+'patch.diff') and os.path.exists(d+'demo.sh'), d
print('ok')
