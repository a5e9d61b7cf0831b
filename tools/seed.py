#!/usr/bin/env python3
"""Developer tool: try a planted bug. seed.py NAME [--no-tests] [--prop C..]: copies /repo to /tmp/seedrepo_NAME, applies
seeded/NAME/patch.diff, builds, runs the stable tests, the demo with and without, and the property's quick check."""
import sys, os, subprocess, json, shutil
name = sys.argv[1]; V = "/verif"; S = f"{V}/seeded/{name}"; R = f"/tmp/seedrepo_{name}"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if os.path.exists(R): shutil.rmtree(R)
sh(f"cp -a /repo {R}")
r = sh(f"git -C {R} checkout -q -- . && git -C {R} apply {S}/patch.diff")
if r.returncode: print("APPLY FAILED", r.stdout); sys.exit(1)
meta = json.load(open(f"{S}/meta.json"))
d = f"/tmp/seeddemo_{name}"
if os.path.exists(d): shutil.rmtree(d)
shutil.copytree(S, d)
a = sh(f"bash {d}/demo.sh", cwd="/repo"); b = sh(f"bash {d}/demo.sh", cwd=R)
print(name, "demo clean", a.returncode, "patched", b.returncode, "|", b.stdout[-200:].strip())
if a.returncode: print(a.stdout[-1500:])
if "--no-tests" not in sys.argv:
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", f"{R}_build.sh")
        open(f"{R}_{f}", "w").write(t)
    sh(f"rm -rf {R}/_build")
    sh(f"bash {R}_test.sh {R}_out.json")
    o = json.load(open(f"{R}_out.json")); st = list(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    print(name, "stable failing:", [t for t in st if t not in o["passed"]])
if "--no-check" not in sys.argv:
    p = sys.argv[sys.argv.index("--prop") + 1] if "--prop" in sys.argv else meta["property"]
    c = sh(f"python3 {V}/run.py {p} --tier quick", cwd=V, env={**os.environ, "VERIF_REPO": R, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
    print(name, p, "check exit", c.returncode, len(v), "violations;", (v or ["-"])[0][:200])
shutil.rmtree(R, ignore_errors=True); shutil.rmtree(d, ignore_errors=True); sh(f"rm -f {R}_build.sh {R}_test.sh {R}_out.json")
