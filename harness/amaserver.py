"""Fork server: one child per Amanda program.

Run with the repository's interpreter, cwd = /repo.  Reads one JSON job per
line on stdin and answers one JSON line per job on stdout.  The compiler is
imported once, *never* run in the parent, so every child starts from the same
pristine process state; the child drives the public entry point
`amanda.__main__.main(file)` with the real VM library.

job: {id, files: {relname: text | {"hex": ...}}, main, stdin?, timeout?, mode?}
  mode "run"     compile + run in the VM          (default)
  mode "compile" compile, return the BSON module (hex), do not run it
  mode "both"    run, and return the BSON module too
  mode "bin"     run job["bin"] (hex) directly in the VM
  mode "history" the programs job["slots"] in the order and manner of job["runs"]
  mode "lex"     tokens of the texts job["srcs"]
  mode "dumps"   amanda.compiler.bindump.dumps of each of job["datas"]
"""
import json
import os
import re
import select
import shutil
import signal
import sys
import tempfile
import time

lib_path, scratch = sys.argv[1], sys.argv[2]
sys.path.insert(0, os.getcwd())
import amanda.config as _cfg

_cfg.LIB_AMA = lib_path
import amanda.libamanda as _lib

_lib.LIB_AMA = lib_path
import amanda.__main__ as M
import ctypes

# The host's own handle: loads nothing yet, each child dlopens it.
sys.setrecursionlimit(10000)
MAXOUT = 400000


def wire(v):
    if isinstance(v, (bytes, bytearray)):
        return {"__b": v.hex()}
    if isinstance(v, float):
        return {"__f": v.hex()}
    if isinstance(v, (list, tuple)):
        return [wire(x) for x in v]
    if isinstance(v, dict):
        return {k: wire(x) for k, x in v.items()}
    return v


def unwire(v):
    if isinstance(v, dict):
        if list(v) == ["__b"]:
            return bytes.fromhex(v["__b"])
        if list(v) == ["__f"]:
            return float.fromhex(v["__f"])
        return {k: unwire(x) for k, x in v.items()}
    return [unwire(x) for x in v] if isinstance(v, list) else v


def record(d):
    """Keep what the compiler asks to be written, wherever it asks it from"""
    from amanda.compiler import bindump

    real, depth = bindump.dumps, []

    def dumps(data):
        if depth:
            return real(data)
        depth.append(1)
        try:
            with open(os.path.join(d, ".data"), "w") as f:
                json.dump(wire(data), f)
            return real(data)
        finally:
            depth.pop()

    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("amanda"):
            for k, v in list(vars(m).items()):
                if v is real:
                    setattr(m, k, dumps)


def history(job, d):
    """Runs of programs one after another in this process"""
    for slot, files in job["slots"].items():
        for name, text in files.items():
            p = os.path.join(d, slot, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf8", newline="") as f:
                f.write(text)
    away = os.path.join(d, "away")
    os.makedirs(away, exist_ok=True)
    real = _lib.run_module
    out = []
    for k, (slot, name) in enumerate(job["runs"]):
        home = os.path.join(d, slot)
        os.chdir(away if name == "away" else home)
        main = {"here": "m.ama", "full": os.path.join(home, "m.ama")}.get(name, "../%s/m.ama" % slot)
        one, two = os.path.join(d, ".out%d" % k), os.path.join(d, ".err%d" % k)
        for path, n in ((one, 1), (two, 2)):
            fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, n)
            os.close(fd)
        got = {}

        def run_module(b):
            got["bin"] = bytes(b).hex()
            sys.stdout.flush()
            sys.stderr.flush()
            return real(b)

        M.run_module = run_module
        code = 0
        try:
            M.main(main)
        except SystemExit as e:
            code = e.code & 0xFF if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException as e:
            code = 97
            sys.stderr.write("@@TRACEBACK@@ %r" % e)
        sys.stdout.flush()
        sys.stderr.flush()
        err = rd(two).replace(d + "/" + slot + "/", "").replace("../%s/" % slot, "")
        out.append({"code": code, "bin": got.get("bin", ""), "out": rd(one), "err": err})
        with open(os.path.join(d, ".hist"), "w") as f:
            json.dump(out, f)


def child(job, d):
    inp = os.path.join(d, ".stdin")
    with open(inp, "w", encoding="utf8") as f:
        f.write(job.get("stdin", ""))
    fi = os.open(inp, os.O_RDONLY)
    fo = os.open(os.path.join(d, ".out"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    fe = os.open(os.path.join(d, ".err"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fi, 0)
    os.dup2(fo, 1)
    os.dup2(fe, 2)
    sys.stdout = open(1, "w", encoding="utf8", closefd=False)
    sys.stderr = open(2, "w", encoding="utf8", closefd=False)
    for name, text in job.get("files", {}).items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(text, dict):
            with open(p, "wb") as f:
                f.write(bytes.fromhex(text["hex"]))
        else:
            with open(p, "w", encoding="utf8", newline="") as f:
                f.write(text)
    os.chdir(d)
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 24, 1 << 24))
    mode = job.get("mode", "run")
    code = 0
    try:
        if mode in ("run", "both", "compile"):
            real = _lib.run_module
            got = {}

            def run_module(b):
                with open(os.path.join(d, ".bin"), "wb") as f:
                    f.write(bytes(b))
                if mode == "compile":
                    return 0
                sys.stdout.flush()
                sys.stderr.flush()
                return real(b)

            M.run_module = run_module
            if job.get("want_data"):
                record(d)
            M.main(job["main"])
        elif mode == "history":
            history(job, d)
        elif mode == "bin":
            code = _lib.run_module(bytes.fromhex(job["bin"]))
        elif mode == "lex":
            from io import StringIO
            from amanda.compiler.parse import Lexer
            from amanda.compiler.error import AmandaError

            out = []
            for src in job["srcs"]:
                lx = Lexer("x", StringIO(src))
                toks = []
                out.append(toks)
                try:
                    while len(toks) <= 5000:
                        t = lx.get_token()
                        k = t.token if isinstance(t.token, str) else t.token.name
                        toks.append([k, str(t.lexeme), t.line])
                        if k == Lexer.EOF:
                            break
                except AmandaError as e:
                    toks.append(["ERR", e.message, e.line])
            json.dump(out, sys.stdout)
        elif mode == "dumps":
            from amanda.compiler import bindump

            json.dump([bindump.dumps(unwire(x)).hex() for x in job["datas"]], sys.stdout)
    except SystemExit as e:
        c = e.code
        if c is None:
            code = 0
        elif isinstance(c, int):
            code = c
        else:
            sys.stderr.write(str(c) + "\n")
            code = 1
    except BaseException:
        import traceback

        sys.stderr.write("@@TRACEBACK@@\n" + traceback.format_exc())
        code = 97
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    os._exit(code & 0xFF)


def rd(p):
    try:
        with open(p, "rb") as f:
            return f.read(MAXOUT).decode("utf8", "replace")
    except OSError:
        return ""


def run(job):
    d = tempfile.mkdtemp(dir=scratch)
    pid = os.fork()
    if pid == 0:
        try:
            child(job, d)
        finally:
            os._exit(98)
    limit = job.get("timeout", 10)
    t0 = time.time()
    status = None
    fd = os.pidfd_open(pid)
    p = select.poll()
    p.register(fd, select.POLLIN)
    if not p.poll(int(limit * 1000)):
        os.kill(pid, signal.SIGKILL)
        status = "timeout"
    _, st = os.waitpid(pid, 0)
    os.close(fd)
    if status is None:
        status = "sig" if os.WIFSIGNALED(st) else "exit"
    res = {
        "id": job["id"],
        "status": status,
        "code": os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st),
        "out": rd(os.path.join(d, ".out")),
        "err": rd(os.path.join(d, ".err")),
        "dir": d,
    }
    if job.get("mode") == "history":
        try:
            with open(os.path.join(d, ".hist")) as f:
                res["hist"] = json.load(f)
        except (OSError, ValueError):
            res["hist"] = []
    b = os.path.join(d, ".bin")
    if os.path.exists(b):
        res["compiled"] = True
        if job.get("mode") in ("both", "compile"):
            with open(b, "rb") as f:
                res["bin"] = f.read().hex()
        if os.path.exists(os.path.join(d, ".data")):
            with open(os.path.join(d, ".data")) as f:
                res["data"] = json.load(f)
    shutil.rmtree(d, ignore_errors=True)
    return res


for line in sys.stdin:
    line = line.strip()
    if not line:
        continue
    job = json.loads(line)
    sys.stdout.write(json.dumps(run(job)) + "\n")
    sys.stdout.flush()
