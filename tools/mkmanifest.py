#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json,os
PROOF="contracts on the functions of /repo, verification conditions generated from go/ssa on every run and discharged by z3/cvc5; failed obligations replayed by a bounded search on the real code"
BOUND="bounded search on the real code against an executable specification (stand-in: no contract for these functions yet)"
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
import importlib.util
LEVEL={}
exec(open(os.path.join(ROOT,"tools","levels.py")).read())
checks=[]
for l in open(os.path.join(ROOT,"properties.jsonl")):
    p=json.loads(l)["id"]
    lv,note=LEVEL[p]
    checks.append({"property":p,"quick_cmd":"bash check.sh "+p,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+p,
      "technique":PROOF if lv=="proof" else BOUND,"level":lv,"level_note":note})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks: contracts live in /verif/contracts and are matched to the functions of /repo by name; the test overlay never touches /repo. Known findings and repairs: known-findings.txt."}
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
