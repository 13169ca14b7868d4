#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from FIXED (property, commit subject prefix -> hash)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(os.path.join(V, "known_findings.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
M = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    for pid, what in M.get(s[5:], {"C??": s}).items():
        out.append("fixed: property=%s %s %s" % (pid, h, what))
        if pid == "C??": print("no entry for", h, s)
kf["fixed"] = out
json.dump(kf, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out))
