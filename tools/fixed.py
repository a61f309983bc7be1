#!/usr/bin/env python3
"""(Re)writes the fixed entries of known-findings.json from the fix: commits of /repo; the map below says which property each belongs to."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(V, "tools", "fixmap.json")))
f = os.path.join(V, "known-findings.json")
old = json.load(open(f)) if os.path.exists(f) else {"findings": []}
known = [k for k in old["findings"] if k["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "78a6624..HEAD"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in MAP:
        print("unmapped:", s)
        continue
    out.append(dict(property=MAP[s], status="fixed", commit=h, entry="fixed: property=%s %s %s" % (MAP[s], h, s)))
json.dump(dict(findings=known + out), open(f, "w"), indent=1)
