#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md + one section per property (tools/design_props.txt, units.py BOUNDS, seeded/) + tools/design_tail.md"""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import units as U
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
sec = {}
for l in open(H + "/tools/design_props.txt"):
    l = l.rstrip("\n")
    if l.startswith("## "): cur = l[3:].strip(); sec[cur] = []
    elif l: sec[cur].append(l)
fixes = {}
for l in open(H + "/known_findings.txt"):
    if l.startswith(("fixed:", "known:")):
        p = l.split("property=")[1].split()[0]; fixes.setdefault(p, []).append(l.strip())
seeds = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
res = json.load(open(H + "/tools/seed_results.json")) if os.path.exists(H + "/tools/seed_results.json") else {}
o = [open(H + "/tools/design_head.md").read().rstrip()]
for p in props:
    i = p["id"]; o.append("\n### %s %s\n" % (i, p["title"]))
    for l in sec.get(i, []): o.append("- " + l)
    o.append("- **Bound.** %s." % U.BOUNDS.get(i, "").rstrip("."))
    for a in U.ASSUMPTIONS.get(i, [])[1:]: o.append("- **Assumption.** %s." % a)
    for l in fixes.get(i, []): o.append("- **Found here** (%s): %s" % (l.split(":")[0], l.split(" ", 2)[2] if l.startswith("fixed") else l.split(" -- ")[1]))
    for n, m in seeds.get(i, []): o.append("- **Planted** `%s` (%s): %s" % (n, res.get(n, "not run yet"), m["what_it_breaks"]))
o.append("\n" + open(H + "/tools/design_tail.md").read().rstrip())
open(H + "/DESIGN.md", "w").write("\n".join(o) + "\n")
