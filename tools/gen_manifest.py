#!/usr/bin/env python3
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from simconfig import PROPS, NOT_APPLICABLE, TECH
ps=[json.loads(l) for l in open(V+'/properties.jsonl')]
m={"version":1,"setup_cmd":"python3 check.py build","checks":[],"not_applicable":[],
   "notes":"Every check compiles /repo's working tree into a simulator executable (build/, content-addressed, git-ignored). No hooks in /repo: all seams are at the libc, OpenMP-runtime, allocator and database-stream level. Replay: python3 check.py replay <file>."}
for p in ps:
    i=p["id"]
    if i in PROPS:
        c=PROPS[i]
        m["checks"].append({"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,"evidence_file":"evidence/%s.json"%i,
          "technique":c.get("technique",TECH),"level":c.get("level","exploration"),"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":NOT_APPLICABLE.get(i,"check not built yet")})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write("\n")
print(len(m["checks"]),"checks",[x["property"] for x in m["not_applicable"]])
