"""Run the repository's end-to-end cases on the real compiler + a VM built by
build_vm (the repository's own scripts cannot build it here).  Diagnostic."""
import os, sys, json
sys.path.insert(0, "/repo")
os.chdir("/repo")
import tests.test as t
from ama import build_vm
import ctypes
so = build_vm()
import subprocess
from concurrent.futures import ThreadPoolExecutor
code = ("import sys;sys.path.insert(0,'/repo');import amanda.config as c;c.LIB_AMA=%r;"
        "import amanda.libamanda as l;l.LIB_AMA=%r;import amanda.__main__ as m;m.main(sys.argv[1])" % (so, so))
class S:
    @staticmethod
    def run(cmd, **k):
        return subprocess.run(["/opt/venv/bin/python", "-c", code, cmd[-1]], cwd="/repo", timeout=60,
            env=dict(os.environ, PYTHONPATH="/repo", PYTHONUTF8="1", PYTHONHASHSEED="0"), **k)
t.subprocess = S
cases = []
for s in t.DIRS:
    cases += t.load_test_cases(s)
def go(c):
    try:
        o = t.run_case(c[0]).strip()
    except Exception as e:
        o = repr(e)
    return c[0], c[1], o
bad = 0
with ThreadPoolExecutor(8) as p:
    for f, e, o in p.map(go, sorted(cases)):
        if e != o:
            bad += 1
            print("FAIL", os.path.relpath(f, "/repo")); print("  exp", e[:200]); print("  got", o[:300])
print(len(cases), "cases", bad, "fail")
