"""Running TLC on the specifications."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from ama import Machinery, VERIF

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class SpecViolation(Exception):
    """An invariant of the specification itself does not hold."""


def run(module, cfg=None, env=None, workers=8, timeout=800, heap="6g", simulate=None, extra=()):
    """Returns (reports, stats): what the specification printed with PrintT as
    "@@<json>" and TLC's counters."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
               "-config", cfg or (module + ".cfg")]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC exceeded %ds on %s" % (timeout, module))
        out = p.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    reports = []
    for line in out.split("\n"):
        if line.startswith('"@@'):
            reports.append(json.loads(json.loads(line)[2:]))
    if p.returncode != 0:
        clean = [l for l in out.split("\n") if not l.startswith("\"@@")]
        at = [i for i, l in enumerate(clean) if l.startswith("Error:")]
        tail = "\n".join(clean[at[0]:at[0] + 2000][-40:] if at else clean)[-3000:]
        if "is violated" in out:
            raise SpecViolation("%s: %s" % (module, tail))
        raise Machinery("TLC failed on %s (%d):\n%s" % (module, p.returncode, tail))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    w = re.search(r"The number of states generated: (\d+)", out)
    if not m and w:
        return reports, {"transitions": int(w.group(1)), "states": int(w.group(1))}
    stats = {"transitions": int(m.group(1)), "states": int(m.group(2))} if m else {"transitions": 0, "states": 0}
    return reports, stats
