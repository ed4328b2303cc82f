import json,jsonschema,sys,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.append(p['id'])
    n=p['statement'].count('. ')+1
    if n>3: print('sentences',p['id'],n)
assert len(ids)==len(set(ids))
if os.path.exists(R+'/MANIFEST.json'):
    m=json.load(open(R+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]+[x['property'] for x in m.get('not_applicable',[])]
    print('missing',set(ids)-set(c),'extra',set(c)-set(ids))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir(R+'/evidence'): jsonschema.validate(json.load(open(R+'/evidence/'+f)),e)
print(len(ids),'ok')
