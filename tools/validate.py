import json,jsonschema,sys,os,glob
S=lambda n:json.load(open('/root/.vp/%s.schema.json'%n))
s=S('PROPERTIES')
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
if os.path.exists('/verif/MANIFEST.json'): jsonschema.validate(json.load(open('/verif/MANIFEST.json')),S('MANIFEST'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),S('EVIDENCE'))
print('ok')
