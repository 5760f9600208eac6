"""Client of the fork servers + builder of the VM library."""
import atexit
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BUILD = os.path.join(VERIF, "build")


class Machinery(Exception):
    """The checking machinery itself failed (never a verdict)."""


def _tree_hash(root):
    h = hashlib.sha256()
    for dp, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(dp, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:24]


CARGO = """[package]
name = "vm"
version = "0.1.0"
edition = "2018"
[dependencies]
unicode-segmentation = "1"
rustc-hash = "2"
[lib]
name = "amanda"
crate-type = ["cdylib"]
[profile.dev]
debug = 0
incremental = false
"""


def build_vm(release=False):
    """Build the VM from /repo's current sources, outside /repo.

    Cargo.lock pins crates that are not in this sandbox's cargo cache, so the
    crate is built from a copy of src/ with the cached versions.  A source tree
    that does not compile raises BuildFailed.
    """
    src = os.path.join(REPO, "amanda/vm/src")
    h = _tree_hash(src) + ("r" if release else "d")
    outdir = os.path.join(BUILD, "vm-" + h)
    so = os.path.join(outdir, "libamanda.so")
    if os.path.exists(so):
        return so
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmpvm-")
    try:
        shutil.copytree(src, os.path.join(tmp, "src"))
        with open(os.path.join(tmp, "Cargo.toml"), "w") as f:
            f.write(CARGO)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, "target"),
                   RUSTFLAGS="-Awarnings")
        cmd = ["cargo", "build", "--offline", "-q"] + (["--release"] if release else [])
        p = subprocess.run(cmd, cwd=tmp, env=env, capture_output=True, text=True)
        if p.returncode != 0:
            raise Machinery("VM does not build:\n" + p.stderr[-3000:])
        prod = os.path.join(tmp, "target", "release" if release else "debug", "libamanda.so")
        os.makedirs(outdir, exist_ok=True)
        shutil.copy(prod, so + ".%d" % os.getpid())
        os.replace(so + ".%d" % os.getpid(), so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


class Pool:
    def __init__(self, n=8, hashseed="0", release=False):
        self.so = build_vm(release)
        self.scratch = tempfile.mkdtemp(prefix="ama-", dir="/tmp")
        atexit.register(self.close)
        env = {
            "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONUTF8": "1",
            "PYTHONHASHSEED": str(hashseed),
            "HOME": self.scratch,
            "LANG": "C.UTF-8",
        }
        srv = os.path.join(VERIF, "harness/amaserver.py")
        self.procs = [
            subprocess.Popen([PY, srv, self.so, self.scratch], cwd=REPO, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=open(os.path.join(self.scratch, "srv%d.err" % i), "w"),
                             text=True, encoding="utf8")
            for i in range(n)
        ]

    def close(self):
        for p in getattr(self, "procs", []):
            try:
                p.stdin.close()
                p.wait(5)
            except Exception:
                p.kill()
        self.procs = []
        shutil.rmtree(self.scratch, ignore_errors=True)

    def run(self, jobs, patience=12):
        """Run jobs (list of dicts without id); returns results in order.
        After too many that do not end, the rest are skipped."""
        res = [None] * len(jobs)
        slow = [0]
        it = iter(range(len(jobs)))
        lock = threading.Lock()
        errs = []

        def work(p):
            while True:
                with lock:
                    i = next(it, None)
                if i is None:
                    return
                if slow[0] >= patience:
                    res[i] = {"kind": "skipped", "out": "", "err": "", "status": "skipped", "code": None}
                    continue
                job = dict(jobs[i], id=i)
                try:
                    p.stdin.write(json.dumps(job) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                    if not line:
                        raise EOFError
                except Exception as e:
                    errs.append("server died: %r" % e)
                    return
                res[i] = classify(json.loads(line))
                slow[0] += res[i]["kind"] == "timeout"

        ts = [threading.Thread(target=work, args=(p,)) for p in self.procs]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs or any(r is None for r in res):
            msg = ""
            for i in range(len(self.procs)):
                try:
                    msg += open(os.path.join(self.scratch, "srv%d.err" % i)).read()[-2000:]
                except OSError:
                    pass
            raise Machinery("fork server failed: %s\n%s" % (errs, msg))
        return res


DIAG = re.compile(
    r'\AFicheiro "(?P<f>[^\n]*)", linha (?P<l>-?\d+)(?:: coluna (?P<c>-?\d+))?\n'
    r"    (?P<ctx>[^\n]*)\nErro(?P<s> sintático)?: (?P<m>.*)\.\Z", re.S)
RTE = re.compile(r"\A(?:Fluxo de execução: \n(?P<fl>(?:    Linha \d+, na função [^\n]*\n)*))?"
                 r"Erro na linha (?P<l>\d+): (?P<m>.*)\.\Z", re.S)


def classify(r):
    """kind: ok | diag | rt | crash (traceback, panic, signal, bad exit) | timeout"""
    err = r["err"]
    r["kind"] = "crash"
    if r["status"] == "timeout":
        r["kind"] = "timeout"
    elif r["status"] == "exit" and r["code"] == 0 and err == "":
        r["kind"] = "ok"
    elif r["status"] == "exit" and r["code"] == 0:
        m = DIAG.match(err.strip("\n"))
        if m and not r.get("compiled"):
            r["kind"] = "diag"
            r["file"], r["line"] = m["f"], int(m["l"])
            r["col"] = int(m["c"]) if m["c"] else None
            r["syntax"] = bool(m["s"])
            r["ctx"], r["msg"] = m["ctx"], m["m"]
    elif r["status"] == "exit" and r["code"] == 1:
        m = RTE.match(err)
        if m:
            r["kind"] = "rt"
            r["line"], r["msg"] = int(m["l"]), m["m"]
            r["flow"] = [[int(a), b] for a, b in
                         re.findall(r"    Linha (\d+), na função ([^\n]*)\n", m["fl"] or "")]
    return r


if __name__ == "__main__":
    pool = Pool(2)
    for fn in sys.argv[1:]:
        src = open(fn).read()
        r = pool.run([{"files": {"m.ama": src}, "main": "m.ama"}])[0]
        print("==", fn, r["kind"], r["status"], r["code"])
        print(r["out"], end="")
        print(r["err"][-1500:])
