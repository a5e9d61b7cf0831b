#!/usr/bin/env python3
"""Driver: builds the harness units of one property from /repo's current sources, explores their
case space in parallel shards, confirms and reports violations, writes evidence/<ID>.json.

  run.py <ID> [--tier quick|thorough]      run a check
  run.py --replay <replay.json>            re-run exactly one reported case
  run.py --setup                           toolchain sanity check (nothing is cached)
"""
import sys, os, json, time, subprocess, shutil, tempfile, threading, array, struct, fnmatch, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import units as U

REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "800"))
SHM_HDR = 9 * 8 + 1024
TABLE = 1 << 20

def flags(unit):
    f = ["-std=c++14", "-O" + str(unit.get("O", 1)), "-w", "-ftrivial-auto-var-init=pattern", "-fno-strict-aliasing",
         "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src"), "-I/usr/include/eigen3"] + ["-I" + os.path.join(HERE, i) for i in unit.get("inc", [])]
    if unit.get("asan"):
        f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,vptr", "-g1"]
    return f + ["-D" + d for d in unit.get("defs", [])]

def compile_unit(unit, out, timeout=700):
    cmd = ["g++"] + flags(unit) + [os.path.join(HERE, "harness", unit["src"]), "-o", out]
    if unit.get("second"):   # a second translation unit that only includes this header
        with open(out + "-second.cpp", "w") as f: f.write('#include "%s"\n' % unit["second"])
        cmd.append(out + "-second.cpp")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "compile timeout"

ENV = dict(os.environ, MALLOC_PERTURB_="165",
           ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=165:abort_on_error=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:abort_on_error=1")

def load_known(prop):
    ks = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"): continue
            head, _, desc = line[6:].partition(" -- ")
            kv = dict(t.split("=", 1) for t in head.split())
            if kv.get("property") == prop:
                ks.append({"unit": kv.get("unit", "*"), "case": kv["case"], "check": kv["check"], "desc": desc.strip(), "hits": 0})
    return ks

def read_shm(path):
    with open(path, "rb") as f:
        b = f.read()
    names = ["cur_idx", "cases", "transitions", "traces", "checks", "finished", "nstates", "table_full", "suppressed"]
    d = dict(zip(names, struct.unpack_from("<9Q", b, 0)))
    d["cur_case"] = b[72:72 + 1024].split(b"\0")[0].decode(errors="replace")
    a = array.array("Q"); a.frombytes(b[SHM_HDR:SHM_HDR + 8 * TABLE])
    d["states"] = set(x for x in a if x)
    return d

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.known = load_known(prop)
        self.lock = threading.Lock()
        self.viol, self.samples, self.states = [], [], set()
        self.tot = dict(cases=0, transitions=0, traces=0, checks=0, suppressed=0)
        self.capped, self.notes, self.errors = False, [], []
        self.per_unit = {}
        self.procs = set()
    def left(self): return DEADLINE - (time.time() - self.t0)

    def shard(self, unit, exe, s, n):
        tag = "%s.%d" % (unit["name"], s)
        outp, knp = os.path.join(self.tmp, tag + ".out"), os.path.join(self.tmp, tag + ".known")
        ks = [k for k in self.known if fnmatch.fnmatch(unit["name"], k["unit"])]
        with open(knp, "w") as f:
            for k in ks: f.write(k["case"] + "\t" + k["check"] + "\n")
        start, crashes = 0, 0
        while True:
            shm = os.path.join(self.tmp, tag + ".shm%d" % crashes)
            cmd = [exe, "--shard", str(s), "--nshards", str(n), "--start", str(start), "--out", outp, "--shm", shm, "--known", knp]
            if self.tier == "thorough": cmd.append("--thorough")
            left = self.left()
            if left < 3:
                with self.lock: self.capped = True
                break
            err = open(os.path.join(self.tmp, tag + ".err"), "wb")
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=ENV)
            try:
                rc = p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = None
            err.close()
            d = read_shm(shm); os.unlink(shm)
            with self.lock:
                for k in self.tot: self.tot[k] += d.get(k, 0)
                if len(self.states) < 6000000: self.states |= d["states"]
                if d["table_full"]: self.notes.append("state table full in %s (distinct-state count is a lower bound)" % tag)
                pu = self.per_unit.setdefault(unit["name"], {"cases": 0, "states": 0, "ops": 0})
                pu["cases"] += d["cases"]; pu["states"] += d["nstates"]; pu["ops"] += d["transitions"]
            if rc is None:
                with self.lock: self.capped = True
                break
            if rc == 0 and d["finished"]:
                break
            # crashed / aborted / hung inside a case
            crashes += 1
            tail = open(os.path.join(self.tmp, tag + ".err"), "rb").read()[-100000:].decode(errors="replace")
            msg = "hang" if rc == -signal.SIGALRM else "terminated with status %s" % rc
            key = [l for l in tail.splitlines() if "Assertion" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l or "terminate called" in l or "what()" in l]
            v = {"unit": unit["name"], "idx": d["cur_idx"], "case": d["cur_case"], "check": "hang" if rc == -signal.SIGALRM else "crash", "msg": (msg + ": " + " | ".join(key))[:600]}
            k = self.match_known(v)
            with self.lock:
                if k is not None: k["hits"] += 1
                else: self.viol.append(v)
            start = d["cur_idx"] + 1
            if k is None and crashes > 8: break
        if os.path.exists(outp):
            with self.lock:
                for line in open(outp, errors="replace"):
                    try: r = json.loads(line)
                    except ValueError: continue
                    if r["t"] == "v": self.viol.append(dict(unit=unit["name"], **{x: r[x] for x in ("idx", "case", "check", "msg")}))
                    elif r["t"] == "s": self.samples.append({"unit": unit["name"], "case": r["case"], "observed": r["note"]})
                    elif r["t"] == "k": ks[r["k"]].setdefault("first", r["case"] + ": " + r["msg"]); ks[r["k"]]["hits"] += 1
                    elif r["t"] == "kc": ks[r["k"]]["hits"] += r["n"] - 1
                    elif r["t"] == "stop": self.notes.append("shard %s stopped after 60 violations" % tag)
            os.unlink(outp)

    def match_known(self, v):
        for k in self.known:
            if fnmatch.fnmatch(v["unit"], k["unit"]) and fnmatch.fnmatch(v["case"], k["case"]) and fnmatch.fnmatch(v["check"], k["check"]): return k
        return None

    def go(self, units):
        ex = ThreadPoolExecutor(JOBS)
        self.failed_compile, self.exes = [], {}
        pending, plock = [], threading.Lock()
        def build(unit):
            exe = os.path.join(self.tmp, unit["name"])
            rc, log = compile_unit(unit, exe)
            if rc: 
                with self.lock: self.failed_compile.append((unit, rc, log))
                return
            self.exes[unit["name"]] = exe
            n = unit.get("shards_thorough", unit.get("shards", 1)) if self.tier == "thorough" else unit.get("shards", 1)
            for s in range(n):
                with plock: pending.append(ex.submit(self.safe_shard, unit, exe, s, n))
        fs = [ex.submit(build, u) for u in sorted(units, key=lambda u: -u.get("cost", 1))]
        for f in fs: f.result()
        i = 0
        while i < len(pending): pending[i].result(); i += 1
        ex.shutdown()
    def safe_shard(self, *a):
        try: self.shard(*a)
        except Exception as e:
            with self.lock: self.errors.append(repr(e))

    def confirm(self, v, units):
        """re-run the single case in a fresh process"""
        unit = next(u for u in units if u["name"] == v["unit"])
        exe = self.exes[v["unit"]]
        outp = os.path.join(self.tmp, "confirm.out")
        cmd = [exe, "--only", str(v["idx"]), "--out", outp, "--timeout", "300"]
        if self.tier == "thorough": cmd.append("--thorough")
        try:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, timeout=320).returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        bad = rc != 0
        if os.path.exists(outp):
            bad = bad or any('"t":"v"' in l for l in open(outp, errors="replace"))
            os.unlink(outp)
        return bad

def write_evidence(run, units, level, nviol, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    step = max(1, len(run.samples) // 12)
    ev = {"property": run.prop, "tier": run.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {"states": len(run.states), "transitions": run.tot["transitions"], "traces_validated_against_impl": run.tot["traces"],
                       "cases": run.tot["cases"], "oracle_checks": run.tot["checks"], "exhaustive": not run.capped and not any("stopped" in n for n in run.notes),
                       "bound": U.BOUNDS.get(run.prop, ""), "units": run.per_unit, "known_finding_hits": run.tot["suppressed"],
                       "samples": run.samples[::step][:16] or [{"unit": "none"}], "notes": run.notes[:20]},
          "assumptions": U.ASSUMPTIONS.get(run.prop, []) + ["states = distinct hashed (input configuration, observed object state) pairs, doubles rounded to 1e-4; transitions = calls into the library; traces = cases whose every observation agreed with the reference oracle"],
          "wall_s": round(wall, 1), "violations": nviol}
    with open(os.path.join(HERE, "evidence", run.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        rc, log = subprocess.getstatusoutput("g++ --version && test -d /usr/include/eigen3/Eigen")
        print(log.splitlines()[0] if log else "")
        sys.exit(rc)
    if a and a[0] == "--replay":
        r = json.load(open(a[1])); unit = next(u for u in U.UNITS[r["property"]] if u["name"] == r["unit"])
        tmp = tempfile.mkdtemp(prefix="verif-replay-"); exe = os.path.join(tmp, "u")
        rc, log = compile_unit(unit, exe)
        if rc: print(log[-3000:]); sys.exit(2)
        if r.get("idx") is None: print("compiles"); sys.exit(0)
        cmd = [exe, "--only", str(r["idx"]), "-v"] + (["--thorough"] if r["tier"] == "thorough" else [])
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE); sys.stdout.write(p.stdout.decode(errors="replace"))
        shutil.rmtree(tmp); sys.exit(1 if p.returncode or b"  FAIL " in p.stdout else 0)
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only_units = a[a.index("--units") + 1].split(",") if "--units" in a else None
    units = [u for u in U.UNITS[prop] if (tier == "thorough" or not u.get("thorough_only")) and (not only_units or u["name"] in only_units)]
    run = Run(prop, tier)
    try:
        run.go(units)
        rcode = finish(run, units, prop, tier)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)
    sys.exit(rcode)

def finish(run, units, prop, tier):
    rep = os.path.join(HERE, "replays"); os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rep, f))
    if run.errors: print("driver error:", run.errors[:3]); return 2
    if run.failed_compile and len(run.failed_compile) == len(units):
        print("no unit compiles:\n" + run.failed_compile[0][2][:4000]); return 2
    reports = []
    for unit, rc, log in run.failed_compile:
        if rc == 124: print("compile timeout", unit["name"]); return 2
        errs = [l for l in log.splitlines() if "error" in l or "multiple definition" in l][:3]
        reports.append({"unit": unit["name"], "idx": None, "case": "instantiate " + unit["name"], "check": "compiles", "msg": " | ".join(errs)[:900]})
    run.viol.sort(key=lambda v: (v["unit"], v["idx"]))
    # one report per (unit, check), the earliest (simplest) case first; confirm each by replay
    seen, unconfirmed = {}, 0
    for v in run.viol:
        k = (v["unit"], v["check"])
        if seen.get(k, 0) >= 1 or len(reports) >= 40: continue
        if v["check"] != "hang" and not run.confirm(v, units) and not run.confirm(v, units):
            unconfirmed += 1; run.notes.append("unconfirmed: %s %s %s" % (v["unit"], v["case"], v["check"])); continue
        if v["check"] == "hang" and not run.confirm(v, units):
            run.notes.append("slow case, not a hang: " + v["case"]); continue
        seen[k] = 1; reports.append(v)
    wall = time.time() - run.t0
    for k in run.known:
        if k["hits"]: print("KNOWN-FINDING: property=%s %s [case %s, %d hits]" % (prop, k["desc"], k["case"], k["hits"]))
    n = 0
    for v in reports:
        n += 1
        path = os.path.join(rep, "%s-%d.json" % (prop, n))
        json.dump(dict(v, property=prop, tier=tier, how="python3 run.py --replay " + path), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   unit=%s case=%s check=%s %s" % (v["unit"], v["case"], v["check"], v["msg"]))
    write_evidence(run, units, U.LEVEL, len(run.viol) + len(run.failed_compile), wall)
    print("%s %s: %d cases, %d states, %d transitions, %d checks, %d violations (%d reported, %d unconfirmed), %.0f s%s" % (
        prop, tier, run.tot["cases"], len(run.states), run.tot["transitions"], run.tot["checks"], len(run.viol), n, unconfirmed, wall, " CAPPED" if run.capped else ""))
    for u, d in sorted(run.per_unit.items()): print("   ", u, d)
    if unconfirmed and not n: print("nondeterminism: violations did not replay:", run.notes[:5]); return 0
    return 1 if n else 0

if __name__ == "__main__":
    main()
