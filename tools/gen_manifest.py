#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = getattr(checks, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": [], "not_applicable": []}

hooks = getattr(checks, "HOOKS", None)
if hooks:
    m["hooks"] = hooks
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"],
                            "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet; not claimed")})
m["notes"] = "Every check compiles /repo's current sources itself; see DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
