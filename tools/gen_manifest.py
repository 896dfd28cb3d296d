#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py --build",
         hooks=dict(guard="none: no hooks are needed, the checks use the public API only", enable="nothing to enable", source_commits=[]),
         checks=[dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough", evidence_file=f"evidence/{i}.json",
                      technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["level_note"]) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in CHECKS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]], "not claimed")
