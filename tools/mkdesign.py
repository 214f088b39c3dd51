#!/usr/bin/env python3
# DESIGN.md = tools/design.md with the tables of properties and planted bugs filled in
import json, os, glob, importlib.util
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(f"{V}/tools/times.json"))
ORA = json.load(open(f"{V}/tools/oracles.json"))
rows = []
for l in sorted(open(f"{V}/properties.jsonl")):
    p = json.loads(l); i = p["id"]
    f = f"{V}/props/{i}.py"
    if not os.path.exists(f): rows.append(f"| {i} {p['title']} | not claimed | | | |"); continue
    s = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    j = m.jobs("quick"); jt = m.jobs("thorough")
    modes = sorted(set(x.get("mode", "fp") for x in j))
    h = sorted(set(x["h"] for x in j))
    b = "; ".join(f"{k}: {v}" for k, v in m.BOUNDS.items())
    rows.append(f"| {i} {p['title']} | {', '.join(h)}, {'/'.join(modes)}, {len(j)} jobs ({len(jt)} thorough) | {ORA.get(i, '')} | {b}. Outside: {m.OUTSIDE} | {T.get(i, '')} |")
seeds = []
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | caught |")
t = open(f"{V}/tools/design.md").read()
t = t.replace("@TABLE@", "\n".join(r.replace("\n", " ") for r in rows)).replace("@SEEDS@", "| change | caught by | needs | breaks | state |\n|--|--|--|--|--|\n" + "\n".join(seeds))
open(f"{V}/DESIGN.md", "w").write(t)
