#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_table.py, levels.json, known_findings.jsonl, seeded/ and evidence/."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(H, "tools")
exec(open(os.path.join(T, "design_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
lev = json.load(open(os.path.join(T, "levels.json")))
head, tail = open(os.path.join(T, "design_head.md")).read().split("<!-- generated -->\n")
out = [head]
bugs = {}
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
race = open(os.path.join(H, "harness/race.list")).read().split()
costs = json.load(open(os.path.join(T, "costs.json")))
out.append("## The properties\n\n")
for p in props:
    i = p["id"]
    how, why = HOW[i]
    out.append(f"### {i} {p['title']}\n\n")
    out.append(f"*Decided by:* {how}\n\n*Why tests cannot:* {why}\n\n*Bounds and cost:* {lev[i]['note']} Quick: about {costs.get(i, '?')} s on 8 cores{' (race detector)' if i in race else ''}.")
    if i in bugs:
        out.append(" Seeded: " + ", ".join(b for b, _ in bugs[i]) + ".")
    out.append("\n\n")
out.append("## Defects found\n\nEach was reported by a check on the tree as it was, shown on the real code, and repaired by a `fix:` commit in /repo, except the known finding at the end of the list.\n\n")
for l in open(os.path.join(H, "known_findings.jsonl")):
    if l.startswith("fixed: "):
        _, prop, commit, rest = l.strip().split(" ", 3)
        out.append(f"* {prop.split('=')[1]} `{commit}`: {rest}\n")
for l in open(os.path.join(H, "known_findings.jsonl")):
    if l.startswith("{"):
        k = json.loads(l)
        out.append(f"* **Known finding, not repaired** ({k['property']}, key `{k['key']}`): {k['what']}. {k.get('why', '')}\n")
out.append("\n## Seeded changes, and what catches them\n\nEach passes the existing tests and has a demonstration. `tools/bug.sh <id>` repeats this. All of these are caught by the check of their property (quick tier).\n\n| change | property | needs |\n|---|---|---|\n")
for i in sorted(bugs):
    for b, m in bugs[i]:
        out.append(f"| {b} | {i} | {m['needs']} |\n")
out.append("\n" + tail)
open(os.path.join(H, "DESIGN.md"), "w").write("".join(out))
