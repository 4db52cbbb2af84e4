"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for p in sorted(glob.glob(V+'/seeded/*/meta.json')):
    j=json.load(open(p)); rows.append(f"| {os.path.basename(os.path.dirname(p))} | {j['property']} | {j['needs']} | {j['what_it_breaks']} |".replace('\n',' '))
s=open(V+'/DESIGN.md').read(); mark='<!-- generated by tools/mkseeded.py -->\n'
head=s.split(mark)[0]
open(V+'/DESIGN.md','w').write(head+mark+f"\n{len(rows)} planted bugs are kept; each is caught by the quick check of the property named.\n\n| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"+"\n".join(rows)+"\n")
