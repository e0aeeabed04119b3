#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, sys
T = {}
exec(open('/verif/tools/claims.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    if p in CLAIMS:
        t,n=CLAIMS[p]
        checks.append({"property":p,"quick_cmd":"bash run.sh "+p,"thorough_cmd":"bash run.sh "+p,"evidence_file":"evidence/%s.json"%p,"technique":t,"level":"other","level_note":n})
    else:
        na.append({"property":p,"reason":NA.get(p,"no check built yet")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
"notes":"One analyser (kcheck) over the type-checked SSA form of /repo; nothing of /repo is executed and no solver is used. known_findings.txt lists genuine defects."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
