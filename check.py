#!/usr/bin/env python3
"""Runs the check of one property: builds the libraries from /repo's current tree in the
variants the check needs, builds and runs the monitor harness, matches what it reports against
known-findings.txt, writes evidence/<id>.json and prints the verdict.
usage: check.py <property> [--tier quick|thorough] [--seed N] [--n N]   |   check.py --replay FILE"""
import sys, os, json, subprocess, time, fcntl, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, VARIANTS
BUILD = os.path.join(V, ".build")
NCPU = min(16, os.cpu_count() or 8)

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def sh(cmd, log, env=None):
    with open(log, "a") as f:
        f.write("$ " + " ".join(cmd) + "\n"); f.flush()
        return subprocess.call(cmd, stdout=f, stderr=f, env=env)

def tail(path, n=25):
    try: return "\n".join(open(path, errors="replace").read().split("\n")[-n:])
    except OSError: return ""

def build_lib(var):
    v = VARIANTS[var]
    d = os.path.join(BUILD, var)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, "build.log")
    open(log, "w").close()
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=clang", "-DCMAKE_CXX_COMPILER=clang++",
           "-DBUILD_TESTING=OFF", "-DUSE_VTK=OFF", "-DUSE_ELAS=OFF", "-DUSE_SCOTCH=" + ("ON" if v.get("scotch", True) else "OFF"),
           "-DCMAKE_C_FLAGS=" + v["cflags"], "-DBUILD=MMG" if v.get("bins") else "-DLIBMMG_STATIC=ON"]
    if sh(cmd, log): die("cmake failed (%s)\n%s" % (var, tail(log)))
    targets = ["libmmg_a"] + v.get("targets", [])
    if sh(["ninja", "-C", d] + targets, log): die("build of /repo failed (%s)\n%s" % (var, tail(log)))
    return d

def newest(paths):
    return max([os.path.getmtime(p) for p in paths if os.path.exists(p)] or [0])

def build_harness(var, src, d, extra=(), ldflags=()):
    v = VARIANTS[var]
    H = os.path.join(V, "harness")
    od = os.path.join(d, "h")
    os.makedirs(od, exist_ok=True)
    hdrs = [os.path.join(H, f) for f in os.listdir(H) if f.endswith(".h")]
    inc = os.path.join(d, "include")
    for r, _, fs in os.walk(inc): hdrs += [os.path.join(r, f) for f in fs]
    dep = newest(hdrs + [os.path.join(V, "tools", "checks.py")])
    srcs = ["vh.cpp", "bridge.cpp", "gen.cpp", "oracle.cpp", "jobgen.cpp", src] + list(extra)
    flags = ["-std=c++17", "-w", "-I" + H, "-I" + inc] + v.get("hflags", v["cflags"]).replace("@H@", H).split()
    if v.get("private"): flags += ["-I" + os.path.join(REPO, "src", x) for x in ("common", "mmg3d", "mmgs", "mmg2d")] + ["-I" + d + "/src/common"]
    objs, jobs = [], []
    for s in srcs:
        sp = os.path.join(H, s)
        o = os.path.join(od, s.replace("/", "_") + ".o")
        objs.append(o)
        # main_*.c include the main programs of the repository
        cli = s.startswith("main_")
        if cli or not os.path.exists(o) or os.path.getmtime(o) < max(dep, os.path.getmtime(sp)):
            comp = ["clang++"] + flags if s.endswith(".cpp") else ["clang"] + [f for f in flags if f != "-std=c++17"]
            if cli: comp += ["-I" + os.path.join(REPO, "src")] + ["-I" + os.path.join(REPO, "src", x) for x in ("common", "mmg3d", "mmgs", "mmg2d")] + ["-I" + d + "/src/common"]
            jobs.append(comp + ["-c", sp, "-o", o])
    log = os.path.join(d, "harness.log")
    open(log, "w").close()
    def one(c):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return (r.returncode, r.stdout)
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, o in ex.map(one, jobs):
            if rc: die("harness compilation failed (%s %s)\n%s" % (var, src, o[-3000:]))
    exe = os.path.join(d, "h", os.path.splitext(os.path.basename(src))[0])
    link = [v.get("linker", "clang++")] + v.get("hflags", v["cflags"]).replace("@H@", H).split() + objs + [os.path.join(d, "lib", "libmmg.a")]
    if v.get("scotch", True): link += ["-lscotch", "-lscotcherrexit"]
    link += ["-lm", "-lpthread", "-lz", "-ldl"] + v.get("ldflags", []) + list(ldflags) + ["-o", exe]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: die("harness link failed (%s %s)\n%s" % (var, src, r.stdout[-3000:]))
    return exe

def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "allow_user_segv_handler=0:handle_segv=2:handle_abort=2:handle_sigfpe=2:detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["MSAN_OPTIONS"] = "handle_segv=2:handle_abort=2:allocator_may_return_null=1:abort_on_error=0"
    e["LSAN_OPTIONS"] = "report_objects=0"
    e.pop("MALLOC_PERTURB_", None)
    e["LC_ALL"] = "C"
    return e

def known(pid):
    res = []
    p = os.path.join(V, "known-findings.txt")
    if not os.path.exists(p): return res
    for l in open(p):
        l = l.strip()
        if not l.startswith("finding: property=%s " % pid): continue
        head, _, desc = l.partition(" :: ")
        f = {"desc": desc, "keys": [], "match": None}
        for w in head.split()[2:]:
            if w.startswith("key="): f["keys"].append(w[4:])
            if w.startswith("match="): f["match"] = w[6:].replace("~", " ")
        res.append(f)
    return res

def is_known(fs, r):
    for f in fs:
        if r["key"].replace(" ", "~") in f["keys"] and (not f["match"] or f["match"] in r["detail"] + r["sample"]): return f
    return None

def run_one(pid, run, tier, seed, scratch, lock, idx, n=None, case=None, keep=False):
    d = build_lib(run["variant"])
    exe = build_harness(run["variant"], run["src"], d, run.get("extra", ()), run.get("ldflags", ()))
    out = os.path.join(scratch, "run%d.jsonl" % idx)
    sc = os.path.join(scratch, "r%d" % idx)
    os.makedirs(sc, exist_ok=True)
    env = san_env()
    env.update(run.get("env", {}))
    env["VH_BUILD"] = d
    env["VH_LIB"] = os.path.join(d, "lib", "libmmg.a")
    env["VERIF_DIR"] = V
    env["VH_REPO"] = REPO
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", sc, "--jobs", str(run.get("jobs", NCPU)), "--cpu", str(run.get("cpu", 40))] + run.get("args", [])
    if n is not None: cmd += ["--to", str(n)]
    if case is not None: cmd += ["--case", str(case)]
    if keep: cmd += ["--keep"]
    err = os.path.join(scratch, "run%d.err" % idx)
    with open(err, "w") as f: rc = subprocess.call(cmd, stdout=f, stderr=f, env=env, cwd=sc)
    if rc: die("harness %s ended with status %d\n%s" % (run["src"], rc, tail(err)))
    R = []
    for l in open(out, errors="replace"):
        try: r = json.loads(l)
        except ValueError: die("unreadable harness record: " + l[:300])
        r["run"] = idx
        R.append(r)
    return R

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = None; replay = None; pid = None; only = None; keep = False
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--n": n = int(a.pop(0))
        elif x == "--run": only = int(a.pop(0))
        elif x == "--keep": keep = True
        elif x == "--selftest":
            # setup: the toolchain is there and every harness compiles
            for v, c in sorted({(r["variant"], r["src"]): tuple(r.get("extra", ())) for C in CHECKS.values() for r in C["runs"]}.items()):
                if not os.path.exists(os.path.join(V, "harness", v[1])): die("missing harness " + v[1])
            os.makedirs(BUILD, exist_ok=True)
            build_lib("plain")
            print("ok: %d checks" % len(CHECKS))
            sys.exit(0)
        elif x == "--replay": replay = json.load(open(a.pop(0)))
        else: pid = x
    case = None
    if replay: pid, tier, seed, case, only = replay["property"], replay["tier"], replay["seed"], replay["case"], replay["run"]
    if pid not in CHECKS: die("no check for " + str(pid))
    if tier not in ("quick", "thorough"): tier = "quick"
    C = CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    R = []
    per = []
    try:
        for i, run in enumerate(C["runs"]):
            if only is not None and i != only: continue
            if run.get("tier") and run["tier"] != tier: continue
            t = time.time()
            r = run_one(pid, run, tier, seed, scratch, lock, i, n, case, keep)
            per.append({"harness": run["src"], "build": run["variant"], "args": run.get("args", []), "cases": len(r), "wall_s": round(time.time() - t, 1)})
            R += r
    finally:
        if keep: print("scratch kept:", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
    # aggregated rules on counters: (name, numerator, denominator, max ratio, min denominator)
    cnt = {}
    for r in R:
        for k, v in r["cnt"].items():
            if k.startswith("max:"): cnt[k] = max(cnt.get(k, v), v)
            elif k.startswith("min:"): cnt[k] = min(cnt.get(k, v), v)
            else: cnt[k] = cnt.get(k, 0) + v
    viol = [r for r in R if r["status"] == "violation"]
    if case is None:
        for name, num, den, mx, mn in C.get("rates", []):
            a_, b_ = cnt.get(num, 0), cnt.get(den, 0)
            if b_ >= mn and a_ > mx * b_:
                ex = [r for r in R if r["cnt"].get(num)][:3]
                viol.append({"case": ex[0]["case"] if ex else -1, "run": ex[0]["run"] if ex else 0, "status": "violation", "key": "rate:" + name, "sample": "", "cnt": {},
                             "detail": "%s: %g of %g (allowed fraction %g); e.g. %s" % (name, a_, b_, mx, "; ".join(r["sample"] for r in ex))})
    fs = known(pid)
    new, hit = [], {}
    for r in viol:
        f = is_known(fs, r)
        if f: hit.setdefault(f["desc"], []).append(r)
        else: new.append(r)
    inc = [r for r in R if r["status"] == "inconclusive"]
    nontriv = [r for r in R if r["nontrivial"]]
    distinct = len(set((r["sig"] or r["sample"]) for r in nontriv))
    samples = []
    for r in nontriv:
        if r["sample"] and len(samples) < 6: samples.append("case %d: %s" % (r["case"], r["sample"][:600]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": C["level"],
          "coverage": {"evaluations": len(R), "distinct_nontrivial": distinct, "rule": C["rule"], "samples": samples or ["none"],
                       "inconclusive": len(inc), "observed": {k: (round(v, 6) if isinstance(v, float) else v) for k, v in sorted(cnt.items())}, "runs": per,
                       "known_findings_hit": {k: len(v) for k, v in hit.items()}},
          "assumptions": C.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    evp = os.path.join(V, "evidence", pid + ".json")
    if case is None:
        with open(evp + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(evp + ".tmp", evp)
    for f in fs:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, f["desc"], " (met %d times in this run)" % len(hit[f["desc"]]) if f["desc"] in hit else ""))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %d violations (%d listed as known), %.1f s" %
          (pid, tier, seed, len(R), distinct, len(inc), len(new), len(viol) - len(new), time.time() - t0))
    if new:
        rd = os.path.join(V, "replays", pid)
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for r in sorted(new, key=lambda r: (r["run"], r["case"])):
            if r["key"] in seen: continue
            seen.add(r["key"])
            if len(seen) > 8: break
            p = os.path.join(rd, "%s-%d-%s.json" % (tier, r["case"], hashlib.md5(r["key"].encode()).hexdigest()[:8]))
            json.dump({"property": pid, "tier": tier, "seed": seed, "run": r["run"], "case": r["case"], "key": r["key"], "detail": r["detail"], "sample": r["sample"],
                       "how": "python3 check.py --replay " + p}, open(p, "w"), indent=1)
            print("  %s (x%d): %s" % (r["key"], sum(1 for q in new if q["key"] == r["key"]), r["detail"][:700].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
        sys.exit(1)
    if case is None and n is None:
        mn = C.get("min", {}).get(tier, 1)
        if distinct < mn: die("only %d distinct non-trivial cases observed (expected at least %d): no verdict" % (distinct, mn))
    sys.exit(0)

if __name__ == "__main__":
    main()
