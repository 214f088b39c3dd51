#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [-k jobname-substring] [-v]

Compiles the harnesses of a property together with /repo's current sources to LLVM IR, executes
every job symbolically (build/symx) and reports what the solver decided.  A counterexample is
replayed against a sanitizer build of the same harness and the same /repo sources; only reproduced
counterexamples are violations.  Exit 0: held within the bounds.  Exit 1: VIOLATION line printed.
"""
import sys, os, json, subprocess, time, shutil, glob, hashlib, importlib.util, threading, re, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
NCPU = int(os.environ.get("VERIF_CPUS", "8"))
INC = ["-DJSON_DLL_BUILD", "-DSOL_EXPORTS", "-I/usr/lib/python3/dist-packages/numpy/core/include",
       "-I/usr/include/python3.12", f"-I{V}/shim_rand", f"-I{REPO}/include", f"-I{REPO}/external", f"-idirafter{REPO}", f"-I{V}/harness",
       "-DUSE_PTHREAD", "-DHAS_NUMPY_DEV", "-w", "-pthread"]
IRF = ["-std=c++11", "-O1", "-g", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
       "-fno-math-errno", "-fno-builtin", "-fno-pie", "-fno-pic", f"-I{V}/shim", "-DSYMX=1", "-emit-llvm", "-c"]
NATF = ["-std=c++11", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,nonnull-attribute,alignment,shift,signed-integer-overflow,pointer-overflow", "-fno-sanitize-recover=all", "-ffp-contract=off", "-c"]

WRAP = ["-Wl,--wrap=pthread_" + x for x in "mutex_lock mutex_trylock mutex_unlock cond_wait cond_signal cond_broadcast create join".split()]
TSANF = ["-std=c++11", "-O1", "-g1", "-fsanitize=thread", "-ffp-contract=off", "-c"]

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

def ensure_engine():
    os.makedirs(B, exist_ok=True)
    e = os.path.join(B, "symx")
    srcs = glob.glob(V + "/engine/*")
    if not os.path.exists(e) or any(os.path.getmtime(s) > os.path.getmtime(e) for s in srcs):
        r = sh(["bash", V + "/engine/build.sh", B])
        if r.returncode: print(r.stderr[-3000:]); raise SystemExit("engine build failed")
    for n, std in (("rt", "c++17"), ("rt_ios", "c++11")):
        o = f"{B}/{n}.bc"; s = f"{V}/harness/{n}.cc"
        deps = [s, f"{V}/harness/sym.h", f"{V}/shim/sym_ios.h"]
        if not os.path.exists(o) or any(os.path.getmtime(d) > os.path.getmtime(o) for d in deps):
            fl = [f"-std={std}"] + [f for f in IRF if not f.startswith("-std") and (n != "rt" or "/shim" not in f)]
            r = sh(["clang++"] + fl + INC + [s, "-o", o + ".tmp"])
            if r.returncode: print(r.stderr[-3000:]); raise SystemExit("runtime build failed")
            os.replace(o + ".tmp", o)

SRCSETS = {
    "none": [],
    "pario": ["src/sol/pario/*.cc", "src/sol/util/*.cc"],
    "loss": ["src/sol/loss/*.cc", "src/sol/util/*.cc"],
    "model": ["src/sol/model/*.cc", "src/sol/model/olm/*.cc", "src/sol/loss/*.cc", "src/sol/pario/*.cc", "src/sol/util/*.cc", "external/json/*.cpp"],
    "all": ["src/sol/**/*.cc", "external/json/*.cpp"],
}
def sources(sets):
    out = []
    for s in sets:
        for g in SRCSETS[s]:
            for f in sorted(glob.glob(os.path.join(REPO, g), recursive=True)):
                if f not in out: out.append(f)
    return out

class Build:
    """compiles each translation unit once per run, in a scratch directory"""
    def __init__(self, tmp, ex): self.tmp, self.ex, self.f, self.lock = tmp, ex, {}, threading.Lock()
    def obj(self, kind, src, defs=()):
        key = (kind, src, tuple(defs))
        with self.lock:
            if key in self.f: return self.f[key]
            o = os.path.join(self.tmp, kind + "_" + hashlib.md5(repr(key).encode()).hexdigest()[:16] + (".bc" if kind == "ir" else ".o"))
            cc = ["clang++"] + IRF if kind == "ir" else ["g++"] + (TSANF if kind == "tsan" else NATF)
            cmd = cc + INC + list(defs) + [src, "-o", o]
            def go():
                r = sh(cmd)
                return (o, None) if r.returncode == 0 else (None, r.stderr)
            self.f[key] = self.ex.submit(go)
            return self.f[key]

def short(v):
    if v["type"] in "fd":
        import struct
        b = int(v["value"]); x = struct.unpack("<f" if v["type"] == "f" else "<d", struct.pack("<I" if v["type"] == "f" else "<Q", b))[0]
        return f"{v['name']}={x!r}"
    return f"{v['name']}={v['value']}"

def inputs_tsv(inputs):
    out = []
    for v in inputs:
        val = v["value"]
        if v["type"] in "fd": val = "b" + val
        elif v["type"] == "r":
            if "/" in val:
                from fractions import Fraction
                fr = Fraction(val); val = repr(fr.numerator / fr.denominator) if fr.denominator else "0"
        out.append(f"{v['name']}\t{val}")
    return "\n".join(out) + "\n"

def run_native(exe, inputs, args, mode, sched=None, timeout=20, fpe=False, show=False):
    d = tempfile.mkdtemp(prefix="symreplay")
    try:
        p = os.path.join(d, "inputs.tsv"); open(p, "w").write(inputs_tsv(inputs))
        env = dict(os.environ, SYM_INPUTS=p, ASAN_OPTIONS="exitcode=66:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096", UBSAN_OPTIONS="exitcode=66:halt_on_error=1", TSAN_OPTIONS="exitcode=66:halt_on_error=1")
        if mode == "real": env["SYM_REAL"] = "1"
        if fpe: env["SYM_FPE"] = "1"
        if show: env["SYM_SHOW"] = "1"
        if sched is not None: env["SYM_SCHED"] = ",".join(str(x) for x in sched)
        try: r = sh([exe] + [str(a) for a in args], env=env, cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired: return "timeout", ""
        return r.returncode, (r.stdout + r.stderr)[-3000:]
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    if "--setup" in sys.argv: ensure_engine(); print("engine ready"); return 0
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in sys.argv
    filt = next((x[2:] for x in sys.argv if x.startswith("-k")), None)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ensure_engine()
    spec = importlib.util.spec_from_file_location("p", f"{V}/props/{pid}.py"); P = importlib.util.module_from_spec(spec); spec.loader.exec_module(P)
    jobs = [j for j in P.jobs(tier) if not filt or filt in j["name"]]
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == pid and k["status"] == "open"]
    tmp = tempfile.mkdtemp(prefix=f"sym_{pid}_")
    ex = ThreadPoolExecutor(NCPU)
    bld = Build(tmp, ex)
    modules, problems, viol, knownhit, results = {}, [], [], {}, []
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    try:
        # ---- IR modules
        groups = {}
        for j in jobs:
            j.setdefault("src", ["pario"]); j.setdefault("defs", []); j.setdefault("args", []); j.setdefault("mode", "fp"); j.setdefault("time", 100); j.setdefault("opts", []); j.setdefault("reach", [])
            j["key"] = (j["h"], tuple(j["src"]), tuple(j["defs"]))
            groups.setdefault(j["key"], []).append(j)
        srcerr = {}
        for k in groups:
            for s in sources(k[1]) + [f"{V}/harness/{k[0]}"]: bld.obj("ir", s, k[2])
        for n, k in enumerate(groups):
            objs, bad = [], None
            for s in sources(k[1]) + [f"{V}/harness/{k[0]}"]:
                o, e = bld.obj("ir", s, k[2]).result()
                if e: bad = f"{s}: {e[-800:]}"
                else: objs.append(o)
            if bad: problems.append(f"compile: {bad}"); modules[k] = None; continue
            m = f"{tmp}/m{n}.bc"
            r = sh(["llvm-link-18"] + objs + [f"{B}/rt.bc", f"{B}/rt_ios.bc", "-o", m])
            if r.returncode: problems.append("link: " + r.stderr[-800:]); modules[k] = None
            else: modules[k] = m
        # ---- native objects (compiled while the solver runs)
        def native(k, tsan=False):
            objs = []
            for s in sources(k[1]) + [f"{V}/harness/{k[0]}", f"{V}/harness/sym_native.cc"]:
                o, e = bld.obj("tsan" if tsan else "nat", s, k[2]).result()
                if e: return None, f"{s}: {e[-800:]}"
                objs.append(o)
            exe = f"{tmp}/{'t' if tsan else 'n'}{hashlib.md5(repr(k).encode()).hexdigest()[:10]}"
            with natlock.setdefault(k, threading.Lock()):
                if os.path.exists(exe): return exe, None
                r = sh(["g++", "-fsanitize=thread" if tsan else "-fsanitize=address,undefined", "-pthread"] + WRAP + objs + ["-o", exe + ".t", "-Wl,--unresolved-symbols=ignore-all", "-ldl"] + (["-lpython3.12"] if False else []))
                if r.returncode: return None, r.stderr[-1500:]
                os.replace(exe + ".t", exe)
            return exe, None
        natlock = {}
        # ---- solver jobs
        def solve(j):
            if modules[j["key"]] is None: return j, None, "no module"
            left = deadline - time.time()
            if left < 5: return j, None, "total time budget spent"
            out = f"{tmp}/{hashlib.md5(j['name'].encode()).hexdigest()[:12]}.json"
            tl = int(min(j["time"], left))
            cmd = [f"{B}/symx", modules[j["key"]], f"--mode={j['mode']}", f"--time={tl}", f"--repo={REPO}", f"--out={out}"] + [f"--arg={x}" for x in j["args"]] + list(j["opts"])
            try:
                r = sh(cmd, timeout=tl + 60)
                if '--trace' in cmd: print(r.stderr)
            except subprocess.TimeoutExpired: return j, None, "solver process overran its budget"
            if not os.path.exists(out): return j, None, f"engine exit {r.returncode}: {r.stderr[-500:]}"
            return j, json.load(open(out)), None
        solver_ex = ThreadPoolExecutor(NCPU)
        futs = [solver_ex.submit(solve, j) for j in sorted(jobs, key=lambda j: -j["time"])]
        for f in futs:
            j, res, err = f.result()
            results.append((j, res, err))
        for k in groups:
            if modules[k]:
                for s in sources(k[1]) + [f"{V}/harness/{k[0]}", f"{V}/harness/sym_native.cc"]: bld.obj("nat", s, k[2])
        # ---- judge
        nsamp = nagree = 0; disagree = []; unrep = []; samples_out = []
        for j, res, err in results:
            if err: problems.append(f"{j['name']}: {err}"); continue
            for k, v in res["unsupported"].items(): problems.append(f"{j['name']}: unsupported {k} x{v}")
            for k, v in res["incomplete"].items():
                if k in j.get("cut_ok", []): continue
                problems.append(f"{j['name']}: incomplete: {k} x{v}")
            if res["unknown_queries"]: problems.append(f"{j['name']}: {res['unknown_queries']} solver queries undecided")
            for w in j["reach"]:
                if not res["reached"].get(w): problems.append(f"{j['name']}: witness '{w}' not reached (vacuous)")
            # violations
            done = set()
            for v in res["violations"]:
                if v["label"] in done: continue
                race = v["kind"] == "race"
                exe, e = native(j["key"], race)
                if not exe: problems.append(f"{j['name']}: replay build failed: {e}"); break
                fpe = v["kind"] == "nonfinite"
                if race:   # the race detector of the compiler decides, on free-running threads
                    for _ in range(20):
                        rc, txt = run_native(exe, v["inputs"], j["args"], j["mode"], timeout=30)
                        if rc not in (0, 4): break
                else: rc, txt = run_native(exe, v["inputs"], j["args"], j["mode"], v.get("schedule") or None, timeout=30, fpe=fpe)
                bad = rc not in (0, 4)
                if rc == "timeout" and v["kind"] not in ("hang", "deadlock"): bad = False
                if not bad:
                    unrep.append((j["name"], v["label"], v["where"], " ".join(short(x) for x in v["inputs"])[:400], rc, txt[-200:])); continue
                done.add(v["label"])
                kf = next((k for k in known if k["label"] == v["label"] and k["job"] in ("*", j["name"])), None)
                if kf: knownhit[kf["id"]] = (kf, v); continue
                viol.append((j, v, rc, txt))
            # translation validation on solver-chosen inputs
            for s in res["samples"][: (2 if tier == "quick" else 8)]:
                if j.get("nosample") or res["violations"]: break
                exe, e = native(j["key"])
                if not exe: problems.append(f"{j['name']}: native build failed: {e}"); break
                rc, txt = run_native(exe, s, j["args"], j["mode"])
                if rc == 4: continue   # rounding moved the sample outside an assumption
                nsamp += 1
                if rc == 0: nagree += 1
                else: disagree.append(f"{j['name']}: native exit {rc} {txt[-160:]} on {' '.join(short(x) for x in s)[:300]}")
                if len(samples_out) < 12: samples_out.append(f"{j['name']}: " + " ".join(short(x) for x in s)[:400])
        # ---- report
        ok = [(j, r) for j, r, e in results if r]
        funcs = sorted({f for j, r in ok for f in r["functions"]})
        tot = lambda k: sum(r[k] for j, r in ok)
        os.makedirs(f"{V}/evidence", exist_ok=True)
        rp = f"{V}/evidence/{pid}.replay"; shutil.rmtree(rp, ignore_errors=True)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": tot("paths") + tot("dedup"), "transitions": tot("instructions"), "traces_validated_against_impl": nagree,
                           "samples": samples_out or ["no symbolic inputs: schedules only"], "exhaustive": not problems,
                           "explanation": "states = symbolic paths decided (each covers every input satisfying its path condition) plus merged scheduler states; transitions = IR instructions executed symbolically",
                           "functions_encoded": funcs, "functions_encoded_count": len(funcs), "bounds": getattr(P, "BOUNDS", {}),
                           "outside_bounds": getattr(P, "OUTSIDE", ""),
                           "jobs": [{"name": j["name"], "mode": j["mode"], "paths": r["paths"], "forks": r["forks"], "asserts": r["asserts"], "assert_queries": r["assert_queries"], "asserts_folded": r["asserts_folded"],
                                     "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"], "unknown": r["unknown_queries"], "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall_s"], 2), "witnesses": r["reached"], "sched_points": r["sched_points"]} for j, r in ok],
                           "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_undecided": tot("unknown_queries"), "solver_s": round(tot("solver_s"), 2),
                           "native_samples": nsamp, "native_disagreements": disagree, "unreproduced_counterexamples": [list(map(str, u)) for u in unrep], "undecided": problems,
                           "known_findings_seen": sorted(knownhit)},
              "assumptions": getattr(P, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
        if verbose:
            for j, r in ok: print(f"  {j['name']:40s} paths={r['paths']} forks={r['forks']} q={r['queries']} solver={r['solver_s']:.1f}s wall={r['wall_s']:.1f}s reach={r['reached']} asserts={r['asserts']}")
            for d in disagree: print("  NATIVE DISAGREES", d)
        for x in problems: print("UNDECIDED:", x)
        for u in unrep: print("NOT-REPRODUCED:", *u)
        print(f"{pid} {tier}: {len(ok)}/{len(jobs)} jobs, {tot('paths')} paths, {tot('queries')} queries ({tot('unsat')} unsat, {tot('unknown_queries')} undecided), solver {tot('solver_s'):.1f}s, {len(funcs)} functions, {nagree}/{nsamp} native samples agree, wall {time.time()-t0:.1f}s")
        for k in known:
            if k["id"] in knownhit: print(f"KNOWN-FINDING: property={pid} {k['what']}")
        if viol:
            os.makedirs(rp, exist_ok=True)
            seen = set()
            for j, v, rc, txt in viol:
                if (j["name"], v["label"]) in seen: continue
                seen.add((j["name"], v["label"]))
                f = f"{rp}/{len(seen)}.json"
                json.dump({"property": pid, "job": j["name"], "harness": j["h"], "src": j["src"], "args": j["args"], "mode": j["mode"], "label": v["label"], "kind": v["kind"], "where": v["where"], "inputs": v["inputs"], "schedule": v.get("schedule"), "native_exit": rc, "native_output": txt}, open(f, "w"), indent=1)
                print(f"  {j['name']}: {v['label']} [{v['kind']}] at {v['where']} with {' '.join(short(x) for x in v['inputs'])[:600]} -> native exit {rc}: {txt.strip().splitlines()[0] if txt.strip() else ''}")
                if len(seen) >= 8: break
            print(f"VIOLATION property={pid} replay={rp}/1.json")
            return 1
        return 0
    finally:
        ex.shutdown(wait=True, cancel_futures=True)
        if os.environ.get("VERIF_KEEP"): print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
