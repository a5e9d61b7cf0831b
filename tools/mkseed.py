#!/usr/bin/env python3
"""Developer tool: make seeded/<name>/ from a spec file: lines 'file:', 'property:', 'needs:', 'breaks:', then <<<OLD ... === ... >>> edits and a DEMO section."""
import sys, os, re, subprocess, json, shutil
for spec in sys.argv[1:]:
    t = open(spec).read(); name = os.path.basename(spec).rsplit(".", 1)[0]
    head, demo = t.split("\n@@DEMO\n", 1)
    stub = re.search(r"^stubs: (.*)$", head, re.M)
    g = lambda k: re.search(rf"^{k}: (.*)$", head, re.M).group(1)
    W = f"/tmp/mkseed_{name}"; shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for f, nth, old, new in re.findall(r"^@@FILE (\S+)(?: #(\d+))?\n<<<\n(.*?)\n===\n(.*?)\n?>>>$", head, re.M | re.S):
        p = f"{W}/{f}"; s = open(p).read()
        assert s.count(old) == 1 or nth, (name, f, s.count(old), old)
        parts = s.split(old); k = int(nth or 1)
        open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
    D = f"/verif/seeded/{name}"; os.makedirs(D, exist_ok=True)
    open(f"{D}/patch.diff", "w").write(subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout)
    open(f"{D}/demo.cpp", "w").write(demo)
    open(f"{D}/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the polympc tree; exit 0: behaves as documented, nonzero: broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++14 -O1 -w -I"$PWD/src"INC -I/usr/include/eigen3 "$here/demo.cpp" -o "$out/demo"
timeout 120 "$out/demo"
'''.replace("INC", ' -I"$here"' if stub else ""))
    if stub: shutil.copytree(f"/verif/harness/stubs/{stub.group(1)}", D, dirs_exist_ok=True)
    json.dump({"property": g("property"), "needs": g("needs"), "what_it_breaks": g("breaks")}, open(f"{D}/meta.json", "w"), indent=1)
    shutil.rmtree(W)
    print(name, "ok")
