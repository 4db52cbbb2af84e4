"""Writes BOUNDS.md (what each check's families enumerate) from the evidence."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={json.loads(l)['id']:json.loads(l)['title'] for l in open(V+'/properties.jsonl')}
o=["# Bounds of the quick checks","","Generated by tools/mkbounds.py from the evidence of quick runs. D is the deviation bound: every combination of at",
   "most D costed choices away from the default is run; choices said to be enumerated are free.  Thorough runs use the","bounds in parentheses and usually D + 1.",""]
for i in sorted(T):
    p=f'{V}/evidence/{i}.json'
    if not os.path.exists(p): continue
    e=json.load(open(p))
    if e['tier']!='quick' or not e['coverage'].get('families'): continue
    c=e['coverage']
    o+=[f"## {i} {T[i]}",""]
    for f in c['families']: o.append(f"* **{f['family']}** (D={f['deviation_bound']}): {f['bounds']}")
    o.append("")
open(V+'/BOUNDS.md','w').write("\n".join(o))
