#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --thorough" % p,
            technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["level_note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
m["notes"] = "Every check builds the library from /repo's working tree (check.py), runs a bounded-exhaustive explorer (harness/*.cpp over harness/mc.hpp) on it, and confirms each violation by replay in a fresh process. known_findings.txt lists repaired and unrepaired genuine defects."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
