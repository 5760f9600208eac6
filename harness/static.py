"""Source text to the syntax tables of AmaStatic.tla, and the verdicts of the
specification against those of the compiler.

Nothing here knows a static rule: the reader follows the grammar only, and
whatever it cannot read is left out."""
import json
import os
import tempfile

import front
import lang
import tlc
from ama import Machinery
from front import Unread

LIBS = {"mat": -1}
VAZIO = {"k": "vazio"}


def ty(t):
    if t[0] in ("vec", "opt"):
        return {"k": t[0], "of": ty(t[1])}
    if t[0] == "name":
        if t[1] == ("Opcao",):
            raise Unread("genéricos")
        return {"k": "name", "path": list(t[1])}
    return VAZIO


class Table:
    def __init__(self):
        self.nodes = []

    def add(self, k, e, /, **f):
        lo = e.get("lo", e.get("l0", e.get("ln", 0)))
        self.nodes.append({"k": k, "lo": lo, "hi": max(lo, e.get("hi", e.get("ln", lo))), **f})
        return len(self.nodes)

    def hi(self, i):
        return self.nodes[i - 1]["hi"]

    # ---- expressions
    def expr(self, e):
        if "lo" in e and "l0" in e:
            e = dict(e, lo=min(e["lo"], e["l0"]))
        k = e["k"]
        if k == "lit":
            return self.lit(e)
        if k == "var":
            return self.add("alvo", e) if e["n"] == "alvo" else self.add("var", e, n=e["n"])
        if k == "path":
            return self.add("path", e, uni=e["uni"], name=e["name"])
        if k == "get":
            a = self.expr(e["a"])
            return self.over("get", e, [a], a=a, n=e["n"])
        if k == "call0":
            fn = self.expr(e["fn"])
            args = [{"n": n or "", "e": self.expr(a)} for n, a in e["args"]]
            return self.over("call", e, [fn] + [a["e"] for a in args], fn=fn, args=args)
        if k == "idx":
            a, b = self.expr(e["a"]), self.expr(e["b"])
            return self.over("idx", e, [a, b], a=a, b=b)
        if k == "cast":
            a = self.expr(e["a"])
            return self.over("cast", e, [a], a=a, to=ty(e["to"]))
        if k == "bin":
            a, b = self.expr(e["a"]), self.expr(e["b"])
            return self.over("bin", e, [a, b], op=e["op"], a=a, b=b)
        if k == "un":
            a = self.expr(e["a"])
            return self.over("un", e, [a], op=e["op"], a=a)
        if k == "vecl":
            args = [self.expr(a) for a in e["args"]]
            return self.over("vecl", e, args, ty=ty(e["ty0"]), args=args)
        if k == "fstr":
            first = len(self.nodes)
            args = [self.expr(a) for a in e["args"]]
            i = self.over("fstr", e, args, args=args)
            for n in self.nodes[first:]:
                n["lo"], n["hi"] = self.nodes[i - 1]["lo"], self.nodes[i - 1]["hi"]
            return i
        if k == "ig":
            return self.iguala(e, [(a["p"], a["x"], a["body"], a["lo"], a["hi"]) for a in e["arms"]])
        if k == "asg":
            l, a = self.expr(e["l"]), self.expr(e["a"])
            return self.over("asg", e, [l, a], l=l, a=a)
        if k == "cas":
            l, a = self.expr(e["l"]), self.expr(e["a"])
            return self.over("cas", e, [l, a], l=l, op=e["op"], a=a)
        raise Unread(k)

    def over(self, k, e, parts, /, **f):
        i = self.add(k, e, **f)
        self.nodes[i - 1]["lo"] = min([self.nodes[i - 1]["lo"]] + [self.nodes[p - 1]["lo"] for p in parts])
        self.nodes[i - 1]["hi"] = max([self.nodes[i - 1]["hi"]] + [self.nodes[p - 1]["hi"] for p in parts])
        return i

    def iguala(self, e, arms):
        a = self.expr(e["a"])
        out = []
        for p, x, body, lo, hi in arms:
            out.append({"p": self.pattern(p), "x": self.expr(x) if x is not None else 0, "b": self.block(body or []), "lo": lo, "hi": hi})
        if not out:
            raise Unread("iguala sem alternativas")
        return self.add("ig", e, a=a, arms=out)

    def lit(self, e):
        if "txt" in e:
            return self.add("lit", e, ty="texto", over=False, v="s:" + "".join(e["txt"]))
        t = e["ty"][0]
        if t == "int":
            n = int(e["src"])
            return self.add("lit", e, ty="int", over=n > 2 ** 63 - 1, v="i:%d" % n)
        return self.add("lit", e, ty=t, over=False, v="")

    def pattern(self, p):
        if p["k"] == "lit":
            return self.lit(p)
        if p["k"] == "any":
            return self.add("any", p, n=p["n"])
        subs = [self.pattern(q) for q in p["subs"]]
        if p["k"] == "called":
            return self.over("called", p, subs)
        return self.over("adt", p, subs, uni=p["uni"], name=p["name"], subs=subs)

    # ---- statements
    def block(self, b):
        return [self.stmt(s) for s in b]

    def stmt(self, s):
        k = s["k"]
        if k in ("mostra", "expr"):
            a = self.expr(s["a"])
            return self.over(k, s, [a], a=a)
        if k in ("ret", "prod"):
            return self.add(k, s, a=self.expr(s["a"]) if s["a"] is not None else 0)
        if k in ("quebra", "continua"):
            return self.add("jump", s)
        if k == "enq":
            return self.add(k, s, c=self.expr(s["c"]), b=self.block(s["b"]))
        if k == "para":
            a, z = self.expr(s["a"]), self.expr(s["z"])
            inc = self.expr(s["inc"]) if s["inc"] is not None else 0
            return self.add(k, s, n=s["n"], a=a, z=z, inc=inc, b=self.block(s["b"]))
        if k == "se":
            return self.add(k, s, cs=self.cases(s), el=self.block(s["el"]), haselse=s.get("haselse", False))
        if k == "esc":
            a = self.expr(s["a"])
            return self.add(k, s, a=a, cs=self.cases(s), el=self.block(s["el"]), haselse=s.get("haselse", False))
        if k == "seig":
            lo, hi = s["lo"], s["hi"]
            any_ = {"k": "any", "n": "_", "lo": lo, "hi": hi}
            a = self.iguala(s, [(s["p"], None, s["b"], lo, hi), (any_, None, s["el"], lo, hi)])
            return self.add("expr", s, a=a)
        if k == "decl":
            return self.add(k, s, n=s["n"], ty=ty(s["ty"]), a=self.expr(s["a"]) if s["a"] is not None else 0)
        if k == "decls":
            return self.add(k, s, ns=list(s["ns"]), ty=ty(s["ty"]))
        if k in ("func", "met"):
            f = {"n": s["n"], "ps": [{"n": n, "ty": ty(t)} for n, t in s["ps"]], "rt": ty(s["rt"]), "hh": s["hh"]}
            if k == "met":
                if s["self"][0] == "vec":
                    raise Unread("sintaxe")
                f["self"] = ty(s["self"])
            return self.add(k, s, b=self.block(s["b"]), **f)
        if k == "reg":
            return self.add(k, s, n=s["n"], fs=[{"n": n, "ty": ty(t), "lo": lo, "hi": hi} for (n, t), (lo, hi) in zip(s["fs"], s["at"])])
        if k == "uni":
            if not s["vs"]:
                raise Unread("uniao vazia")
            return self.add(k, s, n=s["n"], vs=[{"n": n, "ts": [ty(t) for t in ts], "lo": lo, "hi": hi} for (n, ts), (lo, hi) in zip(s["vs"], s["at"])])
        if k == "cas":
            return self.add("expr", s, a=self.expr(s))
        if k == "usa":
            raise Unread("usa dentro de um bloco")
        raise Unread(k)

    def cases(self, s):
        return [{"c": self.expr(c["c"]), "b": self.block(c["b"])} for c in s["cs"]]


BUILTIN = set(front.BUILTIN) | {"vec", "remova", "Opcao"} | set(front.PRIMS)


def table(pid, files, main="m.ama"):
    """What AmaStatic.tla needs of a program; raises Unread"""
    t, mods, index = Table(), [], {}

    def load(path):
        index[path] = len(mods) + 1
        mods.append({"items": []})
        at = index[path]
        items = []
        for it in front.Parser(files[path]).module():
            if it["k"] != "usa":
                items.append(t.stmt(it))
                continue
            mode = "as" if "as" in it else "some" if "names" in it else "all"
            names = list(it.get("names", []))
            if set(names) & BUILTIN:
                raise Unread("nomes da linguagem")
            f = os.path.normpath(it["path"] if it["path"].endswith(".ama") else it["path"] + ".ama")
            if f.startswith("..") or it["path"] == "":
                raise Unread("caminho")
            if f in files:
                mod = index.get(f) or load(f)
            else:
                mod = LIBS.get(f[:-4], 0)
            items.append(t.add("usa", it, mod=mod, mode=mode, **{"as": it.get("as", "")}, names=names))
        mods[at - 1]["items"] = items
        return at
    m = load(os.path.normpath(main))
    return {"pid": pid, "nodes": t.nodes, "mods": mods, "main": m}, {v: k for k, v in index.items()}


def predict(cases, timeout=800, workers=8):
    """cases: list of files (main is m.ama).  Returns a list with None for what
    is not read, otherwise the verdicts the specification allows:
    ("yes",) or ("no", file, lo, hi)."""
    tables, names = [], {}
    out = [None] * len(cases)
    for i, files in enumerate(cases):
        try:
            t, n = table(i, files)
        except Unread:
            continue
        tables.append(t)
        names[i] = n
        out[i] = []
    if not tables:
        return out, {"states": 0, "transitions": 0}
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(tables, f)
    try:
        reports, st = tlc.run("AmaStatic", env={"PROGS": path}, workers=workers, timeout=timeout)
    finally:
        os.remove(path)
    for r in reports:
        i = r["p"]
        v = ("yes",) if r["st"] == "yes" else ("no", names[i].get(r["at"][0]), 0, 10 ** 9) if r["lax"] else ("no", names[i].get(r["at"][0], "?"), r["at"][1], r["at"][2])
        if v not in out[i]:
            out[i].append(v)
    for i in names:
        if not out[i]:
            raise Machinery("AmaStatic.tla gave no verdict on\n" + json.dumps(cases[i], ensure_ascii=False)[:3000])
    return out, st


def differs(verdicts, r):
    """Does what the compiler said disagree with every allowed verdict?"""
    if r["kind"] in ("skipped",):
        return None
    if r["kind"] == "diag" and r["syntax"]:
        return None
    if r["kind"] == "diag":
        f = os.path.basename(r["file"]) if r["file"] else ""
        for v in verdicts:
            if v[0] == "no" and (v[1] is None or os.path.basename(v[1]) == f) and v[2] <= r["line"] <= v[3]:
                return None
        return "rejected (%s:%d: %s); expected %s" % (r["file"], r["line"], r["msg"][:120], show(verdicts))
    if r["kind"] in ("ok", "rt") and r.get("compiled", True):
        if ("yes",) in verdicts:
            return None
        return "accepted; expected %s" % show(verdicts)
    if r["kind"] == "timeout" and ("yes",) in verdicts and r.get("compiled"):
        return None
    return "%s %s %s; expected %s" % (r["kind"], r["code"], r["err"][-300:], show(verdicts))


def show(verdicts):
    return " or ".join("acceptance" if v[0] == "yes" else "rejection at %s:%d-%d" % v[1:] for v in verdicts)
