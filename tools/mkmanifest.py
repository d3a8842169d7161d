#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_conf import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run_check.py {i} --tier quick", thorough_cmd=f"python3 run_check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=c["technique"], level="model_checking",
                           level_note=c["note"] + " Bounds: " + c["bounds"] + ". Assumes the virtual MPI and the libsc/p4est stand-ins described in DESIGN.md; nothing outside the bounds is claimed."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 build.py rel && python3 build.py dbg && python3 build.py asan", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed; commits in /repo are fixes only. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
