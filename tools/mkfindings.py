#!/usr/bin/env python3
# regenerates known_findings.json; fixed entries suppress nothing, open ones name the failing label and job
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = {}
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, m = l.split(" ", 1)
    if m.startswith("fix: "): log[m[5:]] = h
FIXED = json.load(open(f"{V}/tools/fixed.json"))
OPEN = json.load(open(f"{V}/tools/open.json"))
out = []
for i, (msg, prop, what) in enumerate(FIXED):
    out.append({"id": f"F{i+1:02d}", "property": prop, "status": "fixed", "commit": log[msg], "what": what, "label": "", "job": "", "text": f"fixed: property={prop} {log[msg]} {what}"})
    log.pop(msg)
for o in OPEN: out.append(dict(o, status="open"))
if log: print("commits without an entry:", log)
json.dump({"findings": out}, open(f"{V}/known_findings.json", "w"), indent=1)
print(len(out), "findings")
