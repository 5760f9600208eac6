"""Planted bugs: seed.py new ID (takes the diff of /tmp/w against /repo's HEAD) | try ID... | all"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
OUT = "/tmp/seed-out-%d.json" % os.getpid()
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def tests():
    b = sh("bash", "/opt/vp/build.sh")
    if b.returncode: return "does not build"
    sh("bash", "/opt/vp/test.sh", OUT)
    base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(OUT))
    need = base.get("stable") or base.get("passed") or base
    ok = set(got.get("passed") or [k for k, v in got.items() if v == "passed"])
    miss = [t for t in need if t not in ok]
    return "tests fail: %s" % miss[:5] if miss else ""
def one(i, checks=None):
    d = os.path.join(S, i); meta = json.load(open(os.path.join(d, "meta.json")))
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "dirty /repo"
    r = {}
    x = "/tmp/seed-demo-%d" % os.getpid(); shutil.rmtree(x, True); shutil.copytree(d, x, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    c = sh("bash", x + "/demo.sh", cwd="/repo"); r["demo clean"] = "ok" if c.returncode == 0 else "BAD " + c.stdout + c.stderr[-500:]
    a = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
    if a.returncode: return {"apply": a.stderr}
    try:
        r["tests"] = tests() or "ok"
        c = sh("bash", x + "/demo.sh", cwd="/repo"); r["demo bug"] = "ok" if c.returncode else "BAD: passes"
        for p in checks or [meta["property"]]:
            t = time.time()
            c = sh("python3", "checks/check.py", p, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            r[p] = ("CAUGHT" if c.returncode == 1 and v else "MISSED %d %s" % (c.returncode, c.stderr[-300:])) + " %.0fs" % (time.time() - t)
            r[p + " why"] = next((l[:160] for l in c.stdout.splitlines() if l.startswith("# ")), "")
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
        shutil.rmtree(x, True)
    return r
if sys.argv[1] == "new":
    i, prop, needs, breaks = sys.argv[2:6]
    d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
    diff = sh("git", "-C", "/tmp/w", "diff").stdout
    assert diff.strip()
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(os.path.join(V, "tools", "seedlib.py"), d + "/seedlib.py")
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom seedlib import run, expect\n\n" + sys.stdin.read())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
    sh("git", "-C", "/tmp/w", "checkout", "--", ".")
    print(i, one(i) if os.environ.get("TRY", "1") == "1" else "")
else:
    for i in sorted(os.listdir(S)) if sys.argv[1] == "all" else sys.argv[2:]:
        print(i, json.dumps(one(i), ensure_ascii=False), flush=True)
