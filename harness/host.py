"""Histories of processes and Host.tla."""
import json
import os
import tempfile

import ama
import tlc

SEEDS = (0, 1, 4242)


def _run(table, **k):
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(table, f)
    try:
        return tlc.run("Host", env={"PROGS": path}, **k)
    finally:
        os.remove(path)


def histories(num, seed, timeout=600):
    """Histories the specification generates: lists of events"""
    reports, st = _run([], simulate="num=%d" % (num // 8 + 1), extra=["-depth", "40", "-seed", str(seed)], timeout=timeout)
    return [r["h"] for r in reports][:num], st


def processes(h):
    """The processes of a history: (seed, [(program, name)])"""
    out = []
    for e in h:
        if e["e"] == "start":
            out.append((e["seed"], []))
        else:
            out[-1][1].append((e["s"], e["n"]))
    return out


def replay(hs, slots, pools, timeout=30):
    """Run the histories; slots: for each the three programs.  Returns what
    was recorded, per history a list of events with the observation in "o"."""
    jobs = {s: [] for s in SEEDS}
    where = []
    for h, progs in zip(hs, slots):
        plain = {k: len(f) == 1 for k, f in progs.items()}
        mine = []
        for seed, runs in processes(h):
            # away from its modules a program is another one
            runs = [(str(s), n if n != "away" or plain[s] else "over") for s, n in runs]
            mine.append((seed, len(jobs[seed]), runs))
            jobs[seed].append({"mode": "history", "slots": {str(k): f for k, f in progs.items()}, "runs": runs, "timeout": timeout})
        where.append(mine)
    res = {s: pools[s].run(jobs[s]) for s in SEEDS}
    out = []
    for mine in where:
        ev = []
        for seed, i, runs in mine:
            r = res[seed][i]
            ev.append({"e": "start", "seed": seed})
            for (s, n), o in zip(runs, r.get("hist", [])):
                ev.append({"e": "run", "s": int(s), "n": n, "o": o})
        out.append(ev)
    return out


def judge(recorded, timeout=600):
    """For each recorded history the number of events that follow the specification"""
    table = []
    for i, ev in enumerate(recorded):
        seen, steps = {}, []
        for e in ev:
            if e["e"] == "run":
                o = json.dumps(e["o"], sort_keys=True)
                steps.append({"e": "run", "s": e["s"], "n": e["n"], "o": seen.setdefault(o, len(seen) + 1)})
            else:
                steps.append(dict(e))
        table.append({"pid": i, "steps": steps})
    reports, st = _run(table, timeout=timeout) if table else ([], {"states": 0, "transitions": 0})
    at = [None] * len(recorded)
    for r in reports:
        at[r["p"]] = r["at"]
    if None in at:
        raise ama.Machinery("Host.tla did not follow a history")
    return at, st
