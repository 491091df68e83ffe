#!/usr/bin/env python3
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
CLAIMS={}
NA={'C29':"asymptotic cost depends on collection sizes and container internals at run time; a structural loop-nesting rule would also fire on harmless code"}
exec(open(V+'/tools/claims.py').read())
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],"notes":"One engine: rustc_private MIR dump + abstract interpretation and lints in Python (sa/)."}
for p in props:
    i=p['id']
    if i in CLAIMS:
        t,lvl,note=CLAIMS[i]
        m['checks'].append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"./check {i} --thorough","technique":t,"level":lvl,"level_note":note})
    else:
        m['not_applicable'].append({"property":i,"reason":NA.get(i,"no check built yet (in progress)")})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
