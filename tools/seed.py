#!/usr/bin/env python3
"""seed.py ID [--nocheck]: validates /verif/seeded/ID against /repo (applies, builds, tests, demo, undo) and runs the property's quick check on it"""
import sys, os, json, subprocess, tempfile, shutil
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def demo(d):
    t = tempfile.mkdtemp(prefix="demo_")
    try:
        w = os.path.join(t, "x"); shutil.copytree(d, w)
        for f in os.listdir(w):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(w, f))
        try: r = sh(f"bash {w}/demo.sh", cwd="/repo", timeout=300)
        except subprocess.TimeoutExpired: return "timeout", ""
        return r.returncode, r.stdout[-600:]
    finally: shutil.rmtree(t)
def one(i, check=True):
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); P = meta["property"]
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty repo"
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0
    rc0, t0 = demo(d)
    res = {"id": i, "property": P, "clean": rc0}
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: print(i, "patch does not apply", r.stdout); return
    try:
        r = sh("bash /opt/vp/test.sh /tmp/seedt.json")
        t = json.load(open("/tmp/seedt.json")); res["tests"] = (len(t["passed"]), len(t["failed"]))
        rc1, t1 = demo(d); res["patched"] = rc1
        if check:
            r = sh(f"python3 {V}/check.py {P} quick", cwd=V); res["check"] = r.returncode
            res["viol"] = [l for l in r.stdout.splitlines() if l.startswith(("  ", "VIOL", "UNDEC", "NOT-"))][:6]
            res["last"] = [l for l in r.stdout.splitlines() if " quick: " in l]
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    ok = rc0 == 0 and res["patched"] not in (0,) and res["tests"] == (13, 0)
    print(("VALID  " if ok else "INVALID"), "CAUGHT" if res.get("check") == 1 else "missed" if check else "", res)
    if not ok: print("clean:", t0, "\npatched:", t1)
for a in sys.argv[1:]:
    if not a.startswith("-"): one(a, "--nocheck" not in sys.argv)
