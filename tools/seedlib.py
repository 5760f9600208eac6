"""Runs Amanda programs with the compiler and VM of the current directory (/repo)."""
import atexit, os, shutil, subprocess, sys, tempfile

HASHSEED = "0"
W = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, W, True)
PY = "/opt/venv/bin/python"
TOML = """[package]
name = "vm"
version = "0.1.0"
edition = "2018"
[dependencies]
unicode-segmentation = "1"
rustc-hash = "2"
[lib]
name = "amanda"
crate-type = ["cdylib"]
[profile.dev]
debug = 0
incremental = false
"""
DRIVER = """
import sys
sys.path.insert(0, %r)
import amanda.config as c
c.LIB_AMA = %r
import amanda.libamanda as l
l.LIB_AMA = %r
import amanda.__main__ as m
m.main(sys.argv[1])
"""


def vm():
    so = os.path.join(W, "libamanda.so")
    if not os.path.exists(so):
        crate = os.path.join(W, "crate")
        shutil.copytree("amanda/vm/src", os.path.join(crate, "src"))
        open(os.path.join(crate, "Cargo.toml"), "w").write(TOML)
        e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(crate, "target"), RUSTFLAGS="-Awarnings")
        subprocess.run(["cargo", "build", "--offline", "-q"], cwd=crate, env=e, check=True)
        shutil.copy(os.path.join(crate, "target", "debug", "libamanda.so"), so)
    return so


def run(files, stdin="", main="m.ama", timeout=60):
    """files: text of the program or {name: text}; returns (status, stdout, stderr)"""
    if isinstance(files, str):
        files = {main: files}
    d = tempfile.mkdtemp(dir=W)
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w", encoding="utf8", newline="").write(t)
    so = vm()
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONHASHSEED=HASHSEED)
    p = subprocess.run([PY, "-c", DRIVER % (os.getcwd(), so, so), main], cwd=d, env=e, input=stdin.encode("utf8"),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


def expect(files, out, status=0, err="", stdin="", main="m.ama"):
    """Exits 1 if the program does not print `out`, end with `status` and
    report something that contains `err`."""
    s, o, e = run(files, stdin, main)
    if s != status or o != out or err not in e or (err == "" and e != ""):
        print("expected status %r, output %r, report %r" % (status, out, err))
        print("got      status %r, output %r, report %r" % (s, o, e[-1500:]))
        sys.exit(1)
