#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the list of claimed properties.
import json,os
here=os.path.dirname(os.path.abspath(__file__))
T={}
exec(open(os.path.join(here,'claims.py')).read())
ids=[json.loads(l)['id'] for l in open(os.path.join(here,'../properties.jsonl'))]
checks=[];na=[]
for i in ids:
    if i in CLAIMS:
        tech,note=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",technique=tech,level="other",level_note=note))
    else:
        na.append(dict(property=i,reason=NA[i]))
m=dict(version=1,setup_cmd="./run.sh setup",checks=checks,not_applicable=na,notes=NOTES)
json.dump(m,open(os.path.join(here,'../MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
