#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and the claims below."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
exec(open(V+'/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
          technique="deductive verification: contracts on the real functions, obligations generated from the current source's SSA and discharged by z3",
          level="proof",level_note=CLAIMS[i]))
    else:
        na.append(dict(property=i,reason=NA.get(i,"contracts for this property are not finished")))
json.dump(dict(version=1,setup_cmd="bash check.sh build",checks=checks,not_applicable=na,
  notes="See DESIGN.md. KNOWN_FINDINGS lists defects found and repaired or recorded."),open(V+'/MANIFEST.json','w'),indent=1)
open(V+'/MANIFEST.json','a').write('\n')
