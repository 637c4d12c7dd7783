#!/usr/bin/env python3
"""Writes MANIFEST.json: CLAIMED checks from the registry below, everything else not_applicable."""
import json,sys
props=[json.loads(l) for l in open('properties.jsonl')]
NOTES={}
exec(open('tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        tech,note=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=tech,level="exploration",level_note=note))
    else:
        na.append(dict(property=i,reason=NOT.get(i,"monitor not built yet")))
m=dict(version=1,setup_cmd="./check.sh build",hooks=dict(guard="verif",enable="no hooks are needed: every monitor observes the wire, the exported API and the race detector; /repo carries only fix: commits",source_commits=[]),checks=checks,not_applicable=na,
 notes="Checks run the real client and server (race detector on) against recording protocol models on loopback; see DESIGN.md. known_findings.txt lists recorded defects and fixes.")
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
