#!/usr/bin/env python3
# plant.py: turns the planted-bug descriptions of specs/*.py into /verif/seeded/<id>/ and tries them in a scratch copy.
#   plant.py make ID...     write seeded/ID   (default: all specs)
#   plant.py try ID...      scratch copy /tmp/w: demo on the clean and the patched build + stable tests with the patch
#   plant.py check ID [CXX] apply in /repo, run the property's check, undo
import sys, os, json, subprocess, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE)); REPO = "/repo"; W = "/tmp/w"
SPECS = {}
def bug(id, prop, edits, needs, breaks, demo, sh=None, files=None): SPECS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, sh=sh, files=files or {})
for f in sorted(glob.glob(HERE + "/specs/*.py")): exec(open(f).read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(s):
    d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    tmp = "/tmp/plant.%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); out = ""
    done = {}
    for f, old, new in s["edits"]:
        t = done.get(f) or open(REPO + "/" + f).read()
        nth = 0
        if isinstance(old, tuple): old, nth = old
        n = t.count(old)
        assert (n == 1) or (nth and n >= nth), (s["id"], f, "occurrences", n)
        i = -1
        for _ in range(max(1, nth)): i = t.index(old, i + 1)
        done[f] = t[:i] + new + t[i + len(old):]
    for f, t in done.items():
        for side, txt in (("a", open(REPO + "/" + f).read()), ("b", t)):
            p = "%s/%s/%s" % (tmp, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
        out += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(out)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if s["sh"]: open(d + "/demo.sh", "w").write(s["sh"])
    else:
        shutil.copy(HERE + "/demo.sh", d + "/demo.sh"); shutil.copy(HERE + "/demo.h", d + "/demo.h"); open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + s["demo"].strip() + "\n")
    for n, t in s["files"].items(): open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
def build(): return sh("sed 's#/repo#/tmp/w#g' /opt/vp/build.sh > /tmp/w.build.sh; bash /tmp/w.build.sh > /tmp/w.build.log 2>&1").returncode
def tests():
    sh("rm -rf /tmp/w/_build/TEST_OUTPUTS /tmp/w/_build/ctest-junit.xml; mkdir -p /tmp/w/_build/TEST_OUTPUTS; ctest --test-dir /tmp/w/_build -j1 --timeout 300 --output-junit /tmp/w/_build/ctest-junit.xml > /tmp/w.ctest.log 2>&1; python3 /opt/vp/results.py /tmp/w.res.json junit:/tmp/w/_build/ctest-junit.xml")
    r = json.load(open("/tmp/w.res.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    st = b.get("stable") or b.get("passed") or b.get("stable_tests") or list(b.values())[0]
    return [t for t in st if t not in r["passed"]]
def prep():
    if not os.path.isdir(W): sh("cp -a /repo /tmp/w; rm -rf /tmp/w/_build")
    sh("git -C /tmp/w checkout -q -- . ; git -C /tmp/w fetch -q /repo HEAD && git -C /tmp/w reset -q --hard FETCH_HEAD")
    return build()
cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == "make":
    for i in ids or SPECS: make(SPECS[i]); print("made", i)
elif cmd == "try":
    assert prep() == 0, "clean build"
    clean = {}
    for i in ids or SPECS:
        make(SPECS[i]); r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=W); clean[i] = r
    for i in ids or SPECS:
        a = sh("git -C /tmp/w apply %s/seeded/%s/patch.diff" % (V, i)); r = clean[i]
        if a.returncode: print(i, "APPLY FAILS", a.stdout); continue
        b = build(); p = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=W) if not b else None; lost = tests() if not b and p.returncode else None
        sh("git -C /tmp/w checkout -q -- .")
        ok = r.returncode == 0 and p is not None and p.returncode != 0 and lost == []
        print(i, SPECS[i]["prop"], "OK" if ok else "NOT OK", "clean", r.returncode, "build", b, "bug", p and p.returncode, "lost", lost, "|", (p.stdout[-200:] if p else "").replace("\n", " / "), ("| CLEAN: " + r.stdout[-300:]) if r.returncode else "", flush=True)
elif cmd == "check":
    i = ids[0]; props = ids[1:] or [SPECS[i]["prop"]]
    a = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i)); assert a.returncode == 0, a.stdout
    try:
        for p in props:
            r = sh("VERIF_SEED=1 python3 check.py %s --tier quick" % p, cwd=V); L = [l for l in r.stdout.split("\n") if l.startswith("  ") or l.startswith("VIOL")]
            print(i, p, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "|", " || ".join(l[:160] for l in L[:3]), flush=True)
    finally: sh("git -C /repo checkout -q -- .")
