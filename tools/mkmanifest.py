#!/usr/bin/env python3
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
reg=json.load(open(V+'/tools/claims.json')) if os.path.exists(V+'/tools/claims.json') else {"checks":{}, "na":{}}
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in reg['checks']:
        c=reg['checks'][i]
        checks.append(dict(property=i,quick_cmd=f"python3-vt check.py {i}",thorough_cmd=f"python3-vt check.py {i} --tier thorough",
            technique=c['technique'],level=c['level'],level_note=c['note'],**({'theorems':c['theorems']} if 'theorems' in c else {})))
    else: na.append(dict(property=i,reason=reg['na'].get(i,"not yet covered: no contract for it has been built so far")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,notes="See DESIGN.md.")
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(checks),len(na))
