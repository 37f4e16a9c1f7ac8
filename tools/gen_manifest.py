#!/usr/bin/env python3
"""Write MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "no check built yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
        "technique": c.get("technique", registry.T_SCHED),
        "level": "model_checking",
        "level_note": c.get("note", registry.N_SCHED),
    })
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check compiles the FairMQ sources it needs from /repo's working tree together with the engine in engine/ and a driver in drivers/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
