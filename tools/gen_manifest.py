#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, subprocess, sys
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
T=json.load(open(root+"/tools/checks.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in T["claimed"]:
        tech,level,note=T["claimed"][i]
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=tech,level=level,level_note=note))
    else:
        na.append(dict(property=i,reason=T["na"].get(i,"check not built yet")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,notes=T.get("notes",""))
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
