"""helper: mkseed.seed(id, property, [(file, old, new), ...], demo_cc, needs, breaks): writes /verif/seeded/<id>"""
import os, subprocess, json, shutil
REPO = os.environ.get("VERIF_REPO", "/repo")
DEMO = '''#!/bin/bash
# builds a small program against the library in /repo/_build and runs it in a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -w -DUSE_PTHREAD -DHAS_NUMPY_DEV -I/usr/lib/python3/dist-packages/numpy/core/include -I/usr/include/python3.12 -I"$R/include" -I"$R/external" "$D/demo.cc" -o "$T/demo" -L"$R/_build/bin" -lsol -Wl,-rpath,"$R/_build/bin" -pthread -Wl,--unresolved-symbols=ignore-all || { echo "demo does not compile"; exit 0; }
cd "$T" && timeout 120 ./demo
'''
def seed(id, prop, edits, demo, needs, breaks, sh=None):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip() == ""
    try:
        for f, old, new in edits:
            p = REPO + "/" + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally: subprocess.run(["git", "-C", REPO, "checkout", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    if demo: open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh or DEMO)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
