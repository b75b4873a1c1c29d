#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_table.py")).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
