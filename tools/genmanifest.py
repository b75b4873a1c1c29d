#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl that the harness registers."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([os.path.join(here, "harness/build.sh"), "plain"])
ids = subprocess.check_output([os.path.join(here, "build/vh-plain"), "list"], text=True).split()
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools/levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        n = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
          "technique": n["technique"], "level": n.get("level", "exploration"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("reason", "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring: the harness in harness/src is compiled into /repo's module through a build overlay (nothing is written in /repo), runs the real code and decides with oracles. No hooks were needed in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
