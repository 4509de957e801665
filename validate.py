import json,jsonschema,sys,os
d='/root/.vp/'
s=json.load(open(d+'PROPERTIES.schema.json')); ids=[]
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); ids.append(o['id'])
    try: jsonschema.validate(o,s)
    except Exception as e: print(o['id'],str(e).split('\n')[0][:200])
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json'))
    try: jsonschema.validate(m,json.load(open(d+'MANIFEST.schema.json')))
    except Exception as e: print('MANIFEST',str(e).split('\n')[0][:200])
    c={x['property'] for x in m['checks']}|{x['property'] for x in m.get('not_applicable',[])}
    print('unclaimed:',set(ids)-c,'unknown:',c-set(ids))
es=json.load(open(d+'EVIDENCE.schema.json'))
import glob
for f in glob.glob('/verif/evidence/*.json'):
    try: jsonschema.validate(json.load(open(f)),es)
    except Exception as e: print(f,str(e).split('\n')[0][:200])
print(len(ids),'properties')
