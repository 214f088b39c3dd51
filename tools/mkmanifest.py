#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and props/*.py
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {}
naf = f"{V}/not_applicable.json"
if os.path.exists(naf): NA = json.load(open(naf))
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(f"{V}/props/{i}.py"):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "bounded symbolic execution of the real code's LLVM IR, decided by Z3 (symx); counterexamples replayed on a sanitizer build",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds printed in the evidence; outside the bounds nothing is claimed. Trusted: clang 18 front end, the symx interpreter and its libc/libstdc++ model (harness/rt.cc, shim/), Z3."})
    else: na.append({"property": i, "reason": NA.get(i, "no check built yet")})
M = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo's sources as they are. Level model_checking = bounded, symbolic; see DESIGN.md."}
json.dump(M, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
