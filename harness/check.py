"""What every check shares: the clock, the seed, the evidence and the verdict."""
import json
import os
import random
import re
import sys
import time
import traceback

import ama
import asm
import bson
import bsonspec
import conf
import front
import gen
import host
import lang
import mutate
import reduce as reducer
import static
import syntax
import tlc
import vmconf
from ama import VERIF, Machinery

KNOWN = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.deep = tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.parts, self.known = [], [], {}, []
        self.assumptions = []
        self._pool = None
        self.findings = [f for f in json.load(open(KNOWN))["findings"] if f["property"] == pid] if os.path.exists(KNOWN) else []

    # ------------------------------------------------------------- helpers
    @property
    def pool(self):
        if self._pool is None:
            self._pool = ama.Pool(8)
        return self._pool

    def n(self, quick, thorough):
        return thorough if self.deep else quick

    def left(self):
        return (780 if not self.deep else 7200) - (time.time() - self.t0)

    def count(self, part, k, **more):
        d = self.parts.setdefault(part, {"cases": 0})
        d["cases"] += k
        for a, b in more.items():
            d[a] = d.get(a, 0) + b if isinstance(b, (int, float)) and not isinstance(b, bool) else b

    def tlc(self, *a, **k):
        """A run of TLC that counts."""
        try:
            reports, st = tlc.run(*a, **k)
        except tlc.SpecViolation as e:
            raise Machinery("the specification contradicts itself: %s" % e)
        self.states += st["states"]
        self.transitions += st["transitions"]
        return reports

    def sample(self, part, what):
        if sum(1 for s in self.samples if s["part"] == part) < 2:
            self.samples.append({"part": part, **what})

    def violation(self, part, what, replay):
        for f in self.findings:
            if f.get("part") == part and f.get("match") and f["match"] in json.dumps(replay, ensure_ascii=False):
                if f["what"] not in self.known:
                    self.known.append(f["what"])
                return
        self.bad.append({"part": part, "what": what, "replay": replay})

    # -------------------------------------------- programs against Amanda.tla
    def programs(self, part, progs, batch=1500, keep=None, shrink=True):
        """progs: list of (prog, stdin).  Every one runs in Amanda.tla and in
        the real compiler and VM."""
        stats = {"ok": 0, "rt": 0, "foreign": 0, "long": 0}
        for k in range(0, len(progs), batch):
            some = progs[k:k + batch]
            preds, sources, st = conf.predict(some, timeout=max(60, self.left()))
            self.states += st["states"]
            self.transitions += st["transitions"]
            real = self.pool.run(conf.jobs(some, sources))
            wrong = []
            for i, (p, r) in enumerate(zip(preds, real)):
                stats[p["kind"]] += 1
                if p["kind"] in ("ok", "rt") and r["kind"] != "skipped":
                    self.traces += 1
                    if i < 2:
                        self.sample(part, {"source": sources[i], "outcome": conf.show(p)[:400]})
                if conf.differs(p, r):
                    wrong.append(i)
            # a second opinion, with more time
            hung = [i for i in wrong if real[i]["kind"] == "timeout"]
            wrong = [i for i in wrong if i not in hung] + hung[:8]
            again = self.pool.run([dict(j, timeout=60) for j in conf.jobs([some[i] for i in wrong[:20]], [sources[i] for i in wrong[:20]])], patience=1)
            for i, r in zip(wrong, again):
                d = conf.differs(preds[i], r)
                if d:
                    self.report(part, some[i], d, shrink and len(self.bad) < 2)
            if len(self.bad) >= 5:
                break
        self.count(part, sum(stats.values()), **stats)

    def sources(self, part, cases, **k):
        """cases: source texts of the main module, or dicts of files (main is
        m.ama), or pairs of one of those and the input."""
        self.programs(part, self.read(part, cases), **k)

    def scaled(self, part, cases, few, many):
        """Programs in which N stands for a number that what they give does not
        depend on: Amanda.tla decides them for a few, the VM runs many."""
        small = [re.sub(r"\bN\b", str(few), c) for c in cases]
        large = [{"files": {"m.ama": re.sub(r"\bN\b", str(many), c)}, "main": "m.ama", "stdin": ""} for c in cases]
        read = self.read(part, small)
        preds, _, st = conf.predict(read, timeout=max(60, self.left()))
        self.states += st["states"]
        self.transitions += st["transitions"]
        ok = 0
        for c, p, r in zip(large, preds, self.pool.run(large, patience=60)):
            self.traces += 1
            d = conf.differs(p, r)
            if d:
                self.violation(part, d, {"files": c["files"], "of": many, "real": r, "spec": p})
            else:
                ok += 1
        self.programs(part + "/few", read)
        self.parts[part] = {"programs": len(cases), "agree": ok, "of": many}

    def fails(self, inp):
        def f(ps):
            out, src, idx = [False] * len(ps), [], []
            for i, p in enumerate(ps):
                try:
                    src.append(lang.render(p))
                    idx.append(i)
                except Exception:
                    continue
            if not idx:
                return out
            real = self.pool.run(conf.jobs([(ps[i], inp) for i in idx], src))
            good = [(i, r) for i, r in zip(idx, real) if r["kind"] != "diag"]
            for k in range(0, len(good), 16):
                part = good[k:k + 16]
                try:
                    preds, _, _ = conf.predict([(ps[i], inp) for i, _ in part], timeout=60)
                except Exception:
                    continue
                for (i, r), p in zip(part, preds):
                    out[i] = bool(conf.differs(p, r))
            return out
        return f

    def report(self, part, case, what, shrink):
        prog, inp = case
        if shrink and "src" not in prog:
            try:
                small = reducer.reduce(prog, self.fails(inp), budget=25, batch=32)
                preds, src, _ = conf.predict([(small, inp)])
                r = self.pool.run(conf.jobs([(small, inp)], src))[0]
                d = conf.differs(preds[0], r)
                if d:
                    prog, what = small, d
            except Exception:
                pass
        src = lang.render(prog)
        self.violation(part, what, {"files": src, "main": prog["mods"][prog["main"]].get("file", prog["main"] + ".ama"),
                                    "stdin": inp, "difference": what})

    def generated(self, profile, count, size=1.0, part=None, stdin=None):
        base = self.seed * 1000003
        progs = []
        for i in range(count):
            progs.append((gen.program(base + i, profile, size), stdin(i) if stdin else ""))
        self.programs(part or "generated/" + profile, progs)

    # ------------------------------------------ bytecode against VM.tla, Code.tla
    def built(self, part, progs, mode):
        """Compile (and run) programs: pairs of the job and what came out,
        with the module read back"""
        out, rendered = [], []
        for p, inp in progs:
            rendered.append(lang.render(p))
        jobs = [dict(j, mode=mode) for j in conf.jobs(progs, rendered)]
        for j, r in zip(jobs, self.pool.run(jobs)):
            if "bin" not in r:
                continue
            try:
                doc = bson.decode(bytes.fromhex(r["bin"]))
                vmconf.module(doc, lang.Codec())
            except Exception as e:
                self.violation(part, "the compiled module cannot be read: %r" % e, {"files": j["files"], "module": r["bin"][:4000]})
                continue
            out.append((j, r, doc))
        return out

    def machine(self, part, runs, batch=1500):
        """runs: (job, what the real machine did, module)"""
        stats = {"ok": 0, "rt": 0, "foreign": 0, "long": 0, "stuck": 0}
        for k in range(0, len(runs), batch):
            some = runs[k:k + batch]
            preds, st = vmconf.predict([(d, j.get("stdin", "")) for j, _, d in some], timeout=max(60, self.left()))
            self.states += st["states"]
            self.transitions += st["transitions"]
            wrong = []
            for i, (p, (j, r, d)) in enumerate(zip(preds, some)):
                stats[p["kind"]] += 1
                if p["kind"] in ("ok", "rt") and r["kind"] != "skipped":
                    self.traces += 1
                    if i < 2:
                        self.sample(part, {"code": vmconf.disassemble(d)[:40], "outcome": conf.show(p)[:300]})
                # code that makes the machine stuck is for Code.tla to find
                if p["kind"] != "stuck" and conf.differs(p, r):
                    wrong.append(i)
            hung = [i for i in wrong if some[i][1]["kind"] == "timeout"]
            wrong = ([i for i in wrong if i not in hung] + hung[:8])[:20]
            again = self.pool.run([dict({a: b for a, b in some[i][0].items() if a not in ("id", "bin")}, mode="bin", timeout=60, bin=bson.encode(some[i][2]).hex()) for i in wrong], patience=1)
            for i, r in zip(wrong, again):
                d = conf.differs(preds[i], r)
                if d:
                    self.violation(part, d, {"files": some[i][0].get("files"), "code": vmconf.disassemble(some[i][2])[:400], "module": bson.encode(some[i][2]).hex()[:20000],
                                             "stdin": some[i][0].get("stdin", ""), "difference": d})
            if len(self.bad) >= 5:
                break
        self.count(part, sum(stats.values()), **stats)

    def modules(self, part, docs):
        """Modules assembled by hand, with their input"""
        docs = [d if isinstance(d, tuple) else (d, "") for d in docs]
        jobs = [{"mode": "bin", "bin": bson.encode(d).hex(), "stdin": i, "timeout": 20} for d, i in docs]
        self.machine(part, [(j, r, d) for j, r, (d, _) in zip(jobs, self.pool.run(jobs), docs)])

    # --------------------------------------------- histories against Host.tla
    def histories(self, part, progs, count):
        """What a program gives does not depend on the process it runs in.
        progs: dicts of files, main is m.ama"""
        hs, st = host.histories(count, self.seed)
        self.states += st["states"]
        self.transitions += st["transitions"]
        rng = random.Random(self.seed)
        order = list(range(len(progs)))
        rng.shuffle(order)
        slots = [{k: progs[order[(3 * i + k) % len(progs)]] for k in (1, 2, 3)} for i in range(len(hs))]
        if not hasattr(self, "hosts"):
            self.hosts = {s: ama.Pool(4, hashseed=s) for s in host.SEEDS}
        recorded = host.replay(hs, slots, self.hosts)
        at, st = host.judge(recorded)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.traces += len(hs)
        for i, (ev, n) in enumerate(zip(recorded, at)):
            if i < 2:
                self.sample(part, {"history": [{k: v for k, v in e.items() if k != "o"} for e in ev], "programs": [f["m.ama"][:300] for f in slots[i].values()]})
            if n < len(ev):
                e = ev[n]
                first = next(x for x in ev if x["e"] == "run" and x["s"] == e["s"])
                ks = [k for k in ("code", "err", "out", "bin") if first["o"][k] != e["o"][k]]
                what = "%s differs: %r, then %r" % (ks[0], first["o"][ks[0]][-300:] if ks[0] != "code" else first["o"]["code"], e["o"][ks[0]][-300:] if ks[0] != "code" else e["o"]["code"])
                self.violation(part, what, {"files": slots[i][e["s"]], "programs": {str(k): f for k, f in slots[i].items()}, "history": [{k: v for k, v in x.items() if k != "o"} for x in ev[:n + 1]], "difference": what})
        self.count(part, len(hs), runs=sum(len(ev) for ev in recorded))

    # -------------------------------------------- documents against Bson.tla
    def documents(self, part, docs):
        """What the compiler writes for a document is read back as that document"""
        jobs, group, size = [], [], 0
        for i, d in enumerate(docs):
            w = bsonspec.wire(d)
            group.append((i, w))
            size += len(json.dumps(w))
            if size > 60000 or len(group) >= 60 or i == len(docs) - 1:
                jobs.append(group)
                group, size = [], 0
        data = [None] * len(docs)
        for g, r in zip(jobs, self.pool.run([{"mode": "dumps", "datas": [w for _, w in g], "timeout": 60} for g in jobs])):
            if r["kind"] == "ok":
                for (i, _), h in zip(g, json.loads(r["out"])):
                    data[i] = bytes.fromhex(h)
            elif r["kind"] == "crash" and len(g) > 1:
                for (i, w), q in zip(g, self.pool.run([{"mode": "dumps", "datas": [w], "timeout": 60} for _, w in g])):
                    data[i] = bytes.fromhex(json.loads(q["out"])[0]) if q["kind"] == "ok" else q
            else:
                for i, _ in g:
                    data[i] = r
        self.wellread(part, [(d, b, {"document": json.dumps(bsonspec.wire(d))[:3000]}) for d, b in zip(docs, data)])

    def wellread(self, part, cases):
        """cases: (document, bytes or the failure, what to replay)"""
        done = [(d, b, w) for d, b, w in cases if isinstance(b, bytes)]
        for d, b, w in cases:
            if isinstance(b, dict) and b["kind"] not in ("skipped", "timeout"):
                self.violation(part, "cannot be written: " + str(b.get("err", b))[-300:], w)
        preds, st = bsonspec.predict([(d, b, []) for d, b, _ in done], timeout=max(60, self.left()))
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.traces += len(done)
        for p, (d, b, w) in zip(preds, done):
            if not p["same"]:
                what = "byte %d: %s" % (p["at"], p["why"]) if p["st"] == "bad" else "the bytes stand for another document"
                self.violation(part, what, dict(w, bytes=b.hex()[:4000], difference=what))
        self.count(part, len(cases), bytes=sum(len(b) for _, b, _ in done))

    def wholes(self, docs):
        """The specification reads back what it writes (its own invariant)"""
        preds, st = bsonspec.predict([(d, None, []) for d in docs], timeout=max(60, self.left()))
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.count("specification", len(docs))

    def emitted(self, part, progs, batch=800):
        """What the compiler hands over to be written is what the bytes given
        to the machine stand for"""
        for k in range(0, len(progs), batch):
            jobs = [dict({a: b for a, b in j.items() if a != "id"}, mode="compile", want_data=True) for j in conf.jobs(progs[k:k + batch], [lang.render(p) for p, _ in progs[k:k + batch]])]
            cases = []
            for j, r in zip(jobs, self.pool.run(jobs)):
                if r["kind"] == "ok" and r.get("data"):
                    cases.append((bsonspec.unwire(r["data"]), bytes.fromhex(r["bin"]), {"files": j["files"], "main": j["main"]}))
            self.wellread(part, cases)

    def constants(self, part, texts, size=40):
        """The machine makes of a table of constants what the specification says"""
        groups = [texts[k:k + size] for k in range(0, len(texts), size)]
        preds, st = bsonspec.predict([({}, None, g) for g in groups], timeout=max(60, self.left()))
        self.states += st["states"]
        self.transitions += st["transitions"]
        jobs, wants = [], []
        for g, p in zip(groups, preds):
            m, want = asm.Asm(), []
            for s, c in zip(g, p["consts"]):
                show = bsonspec.shown(c)
                if show is not None:
                    m.op("LOAD_CONST", m.idx(m.consts, s))
                    m.op("MOSTRA")
                    want.append(show)
            jobs.append({"mode": "bin", "bin": bson.encode(m.doc()).hex(), "timeout": 20})
            wants.append("".join(w + "\n" for w in want))
        for g, j, want, r in zip(groups, jobs, wants, self.pool.run(jobs)):
            if r["kind"] == "skipped":
                continue
            self.traces += 1
            if r["kind"] != "ok" or r["out"] != want:
                d = "expected %r, got %r" % (want[-400:], (r["kind"], r.get("out", "")[-400:], r.get("err", "")[-200:]))
                self.violation(part, d, {"constants": g, "module": j["bin"][:20000], "difference": d})
        self.count(part, len(texts))

    def paths(self, part, progs, batch=1500):
        """Every path of the code of the programs"""
        for k in range(0, len(progs), batch):
            some = self.built(part, progs[k:k + batch], "compile")
            if not some:
                continue
            found, st = vmconf.paths([(d, j["files"]) for j, _, d in some], timeout=max(60, self.left()))
            self.states += st["states"]
            self.transitions += st["transitions"]
            self.traces += len(some)
            for (j, _, d), why in zip(some, found):
                if why:
                    self.violation(part, why, {"files": j["files"], "code": vmconf.disassemble(d)[:600], "difference": why})
            if k == 0:
                self.sample(part, {"source": some[0][0]["files"], "instructions": len(vmconf.disassemble(some[0][2]))})
            self.count(part, len(some), instructions=sum(len(d["ops"]) for _, _, d in some))
            if len(self.bad) >= 5:
                break

    def read(self, part, cases):
        progs = []
        for c in cases:
            src, inp = c if isinstance(c, tuple) else (c, "")
            try:
                progs.append((front.read({"m.ama": src} if isinstance(src, str) else src), inp))
            except front.Unread as e:
                raise Machinery("%s: %s\n%s" % (part, e, src))
        return progs

    def programs_of(self, profile, count, size=1.0):
        return [(gen.program(self.seed * 1000003 + i, profile, size), "") for i in range(count)]

    # ------------------------------------------ verdicts against AmaStatic.tla
    def verdicts(self, part, cases, batch=3000, syntax=False):
        """Accepted, or rejected at which line: every source goes through
        AmaStatic.tla and through the real compiler.  cases: source texts of
        the main module, or dicts of files."""
        cases = [{"m.ama": f} if isinstance(f, str) else f for f in cases]
        stats = {"accepted": 0, "rejected": 0, "unread": 0}
        for k in range(0, len(cases), batch):
            some = cases[k:k + batch]
            preds, st = static.predict(some, timeout=max(60, self.left()))
            self.states += st["states"]
            self.transitions += st["transitions"]
            job = lambda f, t: {"files": f, "main": "m.ama", "mode": "compile", "timeout": t}
            real = self.pool.run([job(f, 20) for f in some])
            why = lambda p, r: static.differs(p, r) if p is not None else ("%s %s" % (r["kind"], r["err"][-300:]) if r["kind"] in ("crash", "timeout") else None)
            wrong = []
            for i, (p, r) in enumerate(zip(preds, real)):
                stats["unread" if p is None else "accepted" if p[0][0] == "yes" else "rejected"] += 1
                if p is not None and r["kind"] != "skipped":
                    self.traces += 1
                    if i % 97 == 5:
                        self.sample(part, {"source": some[i], "verdict": static.show(p)})
                if why(p, r):
                    wrong.append(i)
            again = self.pool.run([job(some[i], 60) for i in wrong[:20]], patience=1)
            for i, r in zip(wrong, again):
                d = why(preds[i], r)
                if d:
                    self.violation(part, d, {"files": some[i], "main": "m.ama", "difference": d})
            if len(self.bad) >= 5:
                break
        self.count(part, sum(stats.values()), **stats)

    # --------------------------------------------- texts against Syntax.tla
    def syntax(self, part, texts, batch=2500):
        """Every text is a module, or stops at the token Syntax.tla says; and a
        module compiles to the very same code, or is rejected for the same
        reason, when every operation is put in parentheses.  texts: the main
        module, or dicts of files."""
        cases = [{"m.ama": f} if isinstance(f, str) else f for f in texts]
        stats = {"modules": 0, "grouped": 0}
        for k in range(0, len(cases), batch):
            some = cases[k:k + batch]
            preds, st = syntax.predict([f["m.ama"] for f in some], timeout=max(60, self.left()))
            self.states += st["states"]
            self.transitions += st["transitions"]
            job = lambda f, t=20: {"files": f, "main": "m.ama", "mode": "compile", "timeout": t}
            forms = []
            for f, p in zip(some, preds):
                g = syntax.grouped(f["m.ama"], p) if p["st"] == "yes" else None
                forms.append(g and dict(f, **{"m.ama": g}))
            real = self.pool.run([job(f) for f in some])
            real2 = iter(self.pool.run([job(f) for f in forms if f]))
            real2 = [next(real2) if f else None for f in forms]
            wrong = []
            for i, (p, r, q) in enumerate(zip(preds, real, real2)):
                stats["modules"] += p["st"] == "yes"
                stats["grouped"] += bool(forms[i])
                if r["kind"] != "skipped":
                    self.traces += 1
                    if i % 211 == 7:
                        self.sample(part, {"text": some[i]["m.ama"][:600], "verdict": p["st"], "grouped": forms[i] and forms[i]["m.ama"][:600]})
                if self.unlike(p, r, q):
                    wrong.append(i)
            for i in wrong[:20]:
                r, q = (self.pool.run([job(f, 60)], patience=1)[0] if f else None for f in (some[i], forms[i]))
                d = self.unlike(preds[i], r, q)
                if d:
                    self.violation(part, d, {"files": some[i], "main": "m.ama", "grouped": forms[i] and forms[i]["m.ama"], "difference": d})
            if len(self.bad) >= 5:
                break
        self.count(part, len(cases), **stats)

    def unlike(self, p, r, q):
        if r["kind"] == "skipped" or (q and q["kind"] == "skipped"):
            return None
        if r["kind"] in ("crash", "timeout"):
            return "%s %s" % (r["kind"], r["err"][-300:])
        stops = r["kind"] == "diag" and r["syntax"] and os.path.basename(r["file"]) == "m.ama"
        if p["st"] == "no":
            lo, hi = syntax.lines(p)
            if not stops:
                return "taken for a module (%s); expected to stop at line %d-%d, token %s" % (r["kind"], lo, hi, p["toks"][p["pos"] - 1])
            return None if lo <= r["line"] <= hi else "stops at line %d; expected %d-%d" % (r["line"], lo, hi)
        if stops:
            return "stops at line %d (%s); expected a module" % (r["line"], r["msg"][:100])
        if q:
            a, b = ((x["kind"], x.get("file"), x.get("line"), x.get("bin")) for x in (r, q))
            if a != b:
                return "not the same program with its operations in parentheses: %s and %s" % (
                    r["kind"] + " " + r.get("msg", "")[:100], q["kind"] + " " + q.get("msg", "")[:100])

    def grouped(self, part, texts):
        """Programs compute what Amanda.tla says of their grouped form"""
        texts = [t for t, r in zip(texts, self.pool.run([{"files": {"m.ama": t}, "main": "m.ama", "mode": "compile", "timeout": 20} for t in texts])) if r["kind"] == "ok"]
        preds, st = syntax.predict(texts, timeout=max(60, self.left()))
        self.states += st["states"]
        self.transitions += st["transitions"]
        progs = []
        for t, p in zip(texts, preds):
            g = syntax.grouped(t, p) if p["st"] == "yes" else None
            if g:
                try:
                    prog = front.read({"m.ama": g})
                except front.Unread:
                    continue
                prog["src"] = {"m.ama": t}
                progs.append((prog, ""))
        self.programs(part, progs)

    def tokens(self, part, texts, batch=5000):
        """The tokens of every text, from the compiler's own scanner"""
        probe = self.pool.run([{"mode": "lex", "srcs": ["x"], "timeout": 20}])[0]
        if probe["code"] == 97:
            self.count(part + " (no scanner to ask)", len(texts))
            return
        for k in range(0, len(texts), batch):
            some = texts[k:k + batch]
            preds, st = syntax.predict(some, timeout=max(60, self.left()))
            self.states += st["states"]
            self.transitions += st["transitions"]
            groups, size = [[]], 0
            for i, t in enumerate(some):
                if groups[-1] and (size + len(t) > 5000 or len(groups[-1]) == 50):
                    groups.append([])
                    size = 0
                groups[-1].append(i)
                size += len(t)
            ask = lambda g, t: self.pool.run([{"mode": "lex", "srcs": [some[i] for i in x], "timeout": t} for x in g])
            for g, r in zip(groups, ask(groups, 20)):
                try:
                    got = json.loads(r["out"])
                except ValueError:
                    got = None
                    for i, r in zip(g, ask([[i] for i in g], 20)):
                        try:
                            json.loads(r["out"])
                        except ValueError:
                            self.violation(part, "%s %s" % (r["kind"], r["err"][-300:]), {"text": some[i]})
                            break
                if got is None:
                    continue
                for i, toks in zip(g, got):
                    self.traces += 1
                    d = syntax.unlike(preds[i], toks)
                    if d:
                        self.violation(part, d, {"text": some[i], "difference": d})
                    elif i % 499 == 3:
                        self.sample(part, {"text": some[i][:300], "tokens": len(toks)})
            if len(self.bad) >= 5:
                break
        self.count(part, len(texts))

    def bases(self, count, size=0.5, profiles=None, salt=0):
        """Programs of the generator, as sources"""
        profiles = profiles or sorted(gen.PROFILES)
        return [lang.render(gen.program(self.seed * 7919 + salt * 104729 + i, profiles[i % len(profiles)], size)) for i in range(count)]

    def mutants(self, count, size=0.5, each=8, profiles=None, salt=0):
        """Programs of the generator, each with one or two small changes"""
        rng = random.Random(self.seed * 31 + salt)
        profiles = profiles or sorted(gen.PROFILES)
        out, i = [], 0
        while len(out) < count:
            base = lang.render(gen.program(self.seed * 7919 + salt * 104729 + i, profiles[i % len(profiles)], size))
            out += mutate.mutants(base, rng, each)
            i += 1
        return out[:count]

    def accepted(self, part, cases):
        """What the compiler accepts runs as Amanda.tla says, or, outside what
        is modelled, at least does not crash."""
        cases = [{"m.ama": f} if isinstance(f, str) else f for f in cases]
        job = lambda f, t: {"files": f, "main": "m.ama", "mode": "run", "timeout": t, "stdin": ""}
        real = self.pool.run([job(f, 5) for f in cases], patience=len(cases))
        progs, ran = [], 0
        for f, r in zip(cases, real):
            if r["kind"] in ("diag", "timeout", "skipped"):
                continue
            ran += 1
            if r["kind"] == "crash":
                r = self.pool.run([job(f, 60)], patience=1)[0]
                if r["kind"] == "crash":
                    self.violation(part, "crash: %s %s" % (r["code"], r["err"][-300:]), {"files": f, "main": "m.ama"})
                continue
            try:
                progs.append((f, r, front.read(f)))
            except front.Unread:
                continue
        self.count(part, 0, accepted=ran)
        # what no rule allows has no meaning either: it must not be accepted
        if progs:
            preds, st = static.predict([f for f, _, _ in progs], timeout=max(60, self.left()))
            self.states += st["states"]
            self.transitions += st["transitions"]
            for (f, r, _), p in zip(progs, preds):
                if p is not None and ("yes",) not in p:
                    self.violation(part, "accepted, though %s" % static.show(p), {"files": f, "main": "m.ama"})
            progs = [(q, "") for (_, _, q), p in zip(progs, preds) if p is None or ("yes",) in p]
        if len(self.bad) < 5:
            self.programs(part, progs)

    # ------------------------------------------------------------- verdict
    def finish(self, level="model_checking", extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:12], "parts": self.parts}
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.bad:
            d = os.path.join(VERIF, "build", "replay")
            os.makedirs(d, exist_ok=True)
            for i, b in enumerate(self.bad[:5]):
                p = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f:
                    json.dump(b, f, indent=1, ensure_ascii=False)
                print("# %s: %s" % (b["part"], str(b["what"])[:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("ok property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.tier, self.states, self.traces, time.time() - self.t0))
        return 0


def main(plans):
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, tier, seed)
    try:
        plans[pid](c)
        return c.finish()
    except Exception as e:
        sys.stderr.write("machinery: %s\n" % e if isinstance(e, Machinery) else traceback.format_exc())
        if c.bad:
            return c.finish()
        return 3
