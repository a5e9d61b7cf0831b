#!/usr/bin/env python3
"""writes MANIFEST.json from units.py + the tables below"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import units as U
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in U.UNITS:
        checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
            "technique": U.TECH.get(p, "bounded exhaustive state-space exploration of the real code against a reference model"),
            "level": U.LEVEL, "level_note": U.NOTES.get(p, U.DEFAULT_NOTE)})
    else: na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "hooks": {"guard": "none", "enable": "no hooks: the harnesses use the public interface only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Each check compiles its harness units from /repo/src and explores a finite space of cases exhaustively; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
