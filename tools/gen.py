#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
from props import P  # noqa: E402

try:
    from props import NA
except ImportError:
    NA = []
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
na = {a["property"] for a in NA}
checks = []
for p in P:
    if p["id"] in na:
        continue
    if not os.path.exists(os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py")):
        print("no check yet:", p["id"])
        na.add(p["id"])
        NA.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"] or "-"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=NA,
         hooks=dict(guard="none", enable="no hooks were added to /repo: all monitors sit in workload actors, event logs and wrappers in /verif", source_commits=[]),
         notes="All checks run the real code under /verif/vf workloads; see DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(NA), "not claimed")
