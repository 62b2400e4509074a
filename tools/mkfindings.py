#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (suppress nothing) and known ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.rstrip("\n").split(" | ") for l in open(os.path.join(V, "tools", "fixes.txt")) if l.strip()]
KNOWN = json.load(open(os.path.join(V, "tools", "known.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).split("\n")
sha = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log if l}
out, used = [], set()
for prop, subject, what in FIXED:
    used.add(subject)
    out.append({"property": prop, "status": "fixed", "commit": sha[subject], "clause": "", "key": None,
                "what": "fixed: property=%s %s %s" % (prop, sha[subject], what)})
for s in sha:
    if s.startswith("fix:") and s not in used:
        print("not described:", s)
out += KNOWN
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
print(len(out), "findings")
