#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = []
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mech"], "state": p["state"],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if not c:
        NA.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 lib/run.py %s quick" % p["id"],
                   "thorough_cmd": "python3 lib/run.py %s thorough" % p["id"],
                   "technique": p["technique"], "level": c["level"], "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": NA},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable")
