"""Programs of the language as syntax trees: how they are written as source
(which gives every node its line) and how they are handed to Amanda.tla (a
table of nodes that refer to each other by number).

A node is a dict with "k".  Types are tuples: ("int",) ("vec", T) ("opt", T)
("reg", module, name) ("uni", module, name) ...
"""
import decimal, json, math, unicodedata

INT, REAL, BOOL, TEXTO, INDEF, VAZIO = (("int",), ("real",), ("bool",), ("texto",), ("indef",), ("vazio",))


# --------------------------------------------------------------- characters
class Codec:
    """Characters (grapheme clusters) as numbers."""

    def __init__(self):
        self.ids, self.names = {}, {}

    def enc1(self, g):
        if len(g) == 1:
            return ord(g)
        if g not in self.ids:
            self.ids[g] = 0x200000 + len(self.ids)
            self.names[self.ids[g]] = g
        return self.ids[g]

    def enc(self, text):
        return [self.enc1(g) for g in text]

    def dec(self, codes):
        return "".join(self.names[c] if c in self.names else chr(c) for c in codes)


def clusters(s):
    """User perceived characters, near enough for what the sources contain"""
    out = []
    for c in s:
        o = ord(c)
        if out and (unicodedata.combining(c) or o in (0x200D, 0xFE0F, 0x20E3) or 0x1F3FB <= o <= 0x1F3FF
                    or out[-1].endswith("\u200d")
                    or (0x1F1E6 <= o <= 0x1F1FF and len(out[-1]) == 1 and 0x1F1E6 <= ord(out[-1]) <= 0x1F1FF)
                    or (c == "\n" and out[-1] == "\r")):
            out[-1] += c
        else:
            out.append(c)
    return out


# ------------------------------------------------------------------- values
def val_int(n):
    if abs(n) < 1000000000:
        return {"t": "i", "n": n}
    s, m, l = (-1 if n < 0 else 1), abs(n), []
    while m:
        l.append(m % 10000)
        m //= 10000
    return {"t": "I", "s": s, "l": l}


def val_real(n, d=1):
    """The real n / d when that is exact and small."""
    while d > 1 and n % 2 == 0:
        n //= 2
        d //= 2
    return {"t": "r", "n": n, "d": d}


def val_double(x):
    """The double x, as AmaReal.tla represents it."""
    s = -1 if math.copysign(1, x) < 0 else 1
    if x != x:
        return {"t": "R", "k": "nan", "s": 1, "m": [], "e": 0}
    if math.isinf(x):
        return {"t": "R", "k": "inf", "s": s, "m": [], "e": 0}
    if x == 0:
        return {"t": "R", "k": "zero", "s": s, "m": [], "e": 0} if s < 0 else val_real(0)
    n, d = x.as_integer_ratio()
    if d <= 1024 and abs(n) <= 8000000:
        return val_real(n, d)
    m, e, l = abs(n), 1 - d.bit_length(), []
    while m % 2 == 0:
        m, e = m // 2, e + 1
    while m:
        l.append(m % 10000)
        m //= 10000
    return {"t": "R", "k": "num", "s": s, "m": l, "e": e}


# -------------------------------------------------------------------- types
def ty_json(t):
    k = t[0]
    if k in ("vec", "opt"):
        return {"k": k, "e": ty_json(t[1])}
    if k in ("reg", "uni"):
        return {"k": k, "id": "%s.%s" % (t[1], t[2])}
    return {"k": k}


# ------------------------------------------------------------------- syntax
def lit(v, ty, src):
    return {"k": "lit", "v": v, "src": src, "ty": ty}


def ilit(n):
    assert n >= 0
    return lit(val_int(n), INT, str(n))


def rlit(n, d=1):
    """A non negative real n/d with d a power of two."""
    return dlit(n / d)


def dlit(x):
    """A non negative real as a literal."""
    s = format(decimal.Decimal(repr(x)), "f")
    return lit(val_double(x), REAL, s if "." in s else s + ".0")


def blit(b):
    return lit({"t": "b", "v": b}, BOOL, "verdadeiro" if b else "falso")


def nulo():
    return lit({"t": "n"}, ("nulo",), "nulo")


def tlit(gs, q='"'):
    return {"k": "lit", "txt": list(gs), "q": q, "ty": TEXTO}


def var(n, ty=None):
    return {"k": "var", "n": n, "ty": ty}


def binop(op, a, b, ty=None):
    return {"k": "bin", "op": op, "a": a, "b": b, "ty": ty}


def unop(op, a, ty=None):
    return {"k": "un", "op": op, "a": a, "ty": ty}


def iexpr(n):
    """An expression with the value n."""
    if n >= 0:
        return ilit(n)
    if n == -(2 ** 63):
        return binop("-", unop("-", ilit(2 ** 63 - 1), INT), ilit(1), INT)
    return unop("-", ilit(-n), INT)


def rexpr(n, d=1):
    return rlit(n, d) if n >= 0 else unop("-", rlit(-n, d), REAL)


# ----------------------------------------------------------------- renderer
PREC = {"==": 1, "!=": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "ou": 3,
        "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}


class Writer:
    def __init__(self, mod, prog, style=None):
        self.buf, self.line, self.mod, self.prog = [], 1, mod, prog
        self.ind = 0
        self.style = style or {}

    def w(self, s):
        self.buf.append(s)
        self.line += s.count("\n")

    def nl(self):
        self.w("\n")

    def text(self):
        return "".join(self.buf)

    # ---- names
    def alias(self, md):
        return self.prog["mods"][self.mod]["alias"].get(md)

    def tname(self, md, name):
        if md == self.mod or name in self.prog["mods"][self.mod]["direct"].get(md, ()):
            return name
        return "%s.%s" % (self.alias(md), name)

    def ty(self, t):
        k = t[0]
        if k == "vec":
            return "[%s]" % self.ty(t[1])
        if k == "opt":
            return self.ty(t[1]) + "?"
        if k in ("reg", "uni"):
            return self.tname(t[1], t[2])
        return k

    # ---- expressions
    def quoted(self, gs, q, fmt=False):
        out = []
        for g in gs:
            if g == "\n":
                out.append("\\n")
            elif g == q:
                out.append("\\" + q)
            elif fmt and g == "{":
                out.append("{{")
            else:
                out.append(g)
        return "".join(out)

    def level(self, n):
        k = n["k"]
        if k == "bin":
            return PREC[n["op"]]
        if k == "un":
            return 5
        if k == "cast":
            return 7
        if k == "asg":
            return 0
        return 9

    def leftmost(self, n):
        while n["k"] in ("bin", "mcall", "get", "unw", "idx", "cast") and not n.get("par"):
            child = n["a"]
            least = PREC[n["op"]] if n["k"] == "bin" else 8
            if self.level(child) < least:
                break
            n = child
        return n

    def sub(self, n, least):
        """n where an expression of at least this level is expected"""
        if self.level(n) < least or n.get("par"):
            self.w("(")
            self.x(n)
            self.w(")")
        else:
            self.x(n)

    def args(self, l):
        for i, a in enumerate(l):
            if i:
                self.w(", ")
            self.sub(a, 1)

    def x(self, n):
        k = n["k"]
        n["ln"] = self.line
        if k == "lit":
            if "txt" in n:
                self.w(n["q"] + self.quoted(n["txt"], n["q"]) + n["q"])
            else:
                self.w(n["src"])
        elif k == "var":
            self.w(n["n"])
        elif k == "gvar":
            self.w(self.tname(n["md"], n["n"]))
        elif k == "bin":
            p = PREC[n["op"]]
            self.sub(n["a"], p)
            n["ln"] = self.line
            self.w(" %s " % n["op"])
            self.sub(n["b"], p + 1)
        elif k == "un":
            self.w("nao " if n["op"] == "nao" else n["op"])
            self.sub(n["a"], 5 if n["op"] == "nao" else 6)
        elif k == "call":
            md, name = n["f"].split(".", 1)
            self.w(self.tname(md, name))
            self.w("(")
            self.args(n["args"])
            self.w(")")
        elif k == "bc":
            self.w(n.get("qual", "") + n["f"] + "(")
            self.args(n["args"])
            self.w(")")
        elif k == "mcall":
            self.sub(n["a"], 8)
            n["ln"] = self.line
            self.w("." + n["m"] + "(")
            self.args(n["args"])
            self.w(")")
        elif k == "new":
            self.w(self.tname(n["md"], n["name"]) + "(")
            for i, (f, a) in enumerate(zip(n["fs"], n["args"])):
                self.w((", " if i else "") + f + ": ")
                self.sub(a, 1)
            self.w(")")
        elif k == "varn":
            self.w("%s::%s" % (self.tname(n["md"], n["uni"]), n["name"]))
            if n["tys"]:
                self.w("(")
                self.args(n["args"])
                self.w(")")
        elif k == "get":
            self.sub(n["a"], 8)
            n["ln"] = self.line
            self.w("." + n["n"])
        elif k == "unw":
            self.sub(n["a"], 8)
            n["ln"] = n["a"]["ln"]
            if n["d"] is None:
                self.w(".valor")
            else:
                self.w(".valor_ou(")
                self.sub(n["d"], 1)
                self.w(")")
        elif k == "idx":
            self.sub(n["a"], 8)
            self.w("[")
            self.sub(n["b"], 1)
            n["ln"] = self.line
            self.w("]")
        elif k == "vecl":
            self.w("[%s: " % self.ty(n["ty0"]))
            self.args(n["args"])
            self.w("]")
        elif k == "vecn":
            self.w("vec(%s, " % self.ty(n["ty0"]))
            self.args(n["args"])
            self.w(")")
        elif k == "cast":
            self.sub(n["a"], 8)
            n["ln"] = self.line
            self.w(":>" + self.ty(n["to"]))
        elif k == "fstr":
            q = n["q"]
            self.w("f" + q)
            for p in n["args"]:
                if p["k"] == "lit" and "txt" in p and not p.get("ex"):
                    p["ln"] = self.line
                    self.w(self.quoted(p["txt"], q, True))
                else:
                    self.w("{")
                    self.sub(p, 1)
                    self.w("}")
            self.w(q)
        elif k == "ig":
            self.w("iguala ")
            self.sub(n["a"], 1)
            self.nl()
            self.ind += 1
            for i, arm in enumerate(n["arms"]):
                self.pad()
                self.pat(arm["p"])
                self.w(" => ")
                if arm["x"] is not None:
                    self.sub(arm["x"], 1)
                else:
                    self.w("faca")
                    self.nl()
                    self.block(arm["body"])
                    self.pad()
                    self.w("fim")
                self.w("," if i + 1 < len(n["arms"]) else "")
                self.nl()
            self.ind -= 1
            self.pad()
            self.w("fim")
        elif k == "asg":
            self.x(n["l"])
            self.w(" = ")
            self.sub(n["a"], 0)
        else:
            raise Exception("render " + k)

    def pat(self, p):
        if p["k"] == "any":
            self.w(p["n"])
        elif p["k"] == "lit":
            if "txt" in p:
                self.w('"' + self.quoted(p["txt"], '"') + '"')
            else:
                self.w(p["src"])
        else:
            self.w("%s::%s" % (self.tname(p["md"], p["uni"]), p["name"]))
            if p["subs"]:
                self.w("(")
                for i, s in enumerate(p["subs"]):
                    if i:
                        self.w(", ")
                    self.pat(s)
                self.w(")")

    # ---- statements
    def pad(self):
        self.w("    " * self.ind)

    def block(self, l):
        self.ind += 1
        for s in l:
            self.stmt(s)
        self.ind -= 1

    def stmt(self, s):
        for _ in range(s.get("skip", 0)):
            self.nl()
        if s.get("rem"):
            self.pad()
            self.w("# " + s["rem"])
            self.nl()
        self.pad()
        s["ln"] = self.line
        k = s["k"]
        if k == "decl":
            self.w("%s: %s" % (s["n"], self.ty(s["ty"])))
            if s["a"] is not None:
                self.w(" = ")
                self.sub(s["a"], 1)
        elif k == "decls":
            self.w("%s: %s" % (", ".join(s["ns"]), self.ty(s["ty"])))
        elif k == "expr":
            self.x(s["a"])
        elif k == "cas":
            self.x(s["l"])
            self.w(" %s= " % s["op"])
            self.sub(s["a"], 1)
        elif k == "mostra":
            self.w("mostra ")
            self.sub(s["a"], 1)
        elif k == "se":
            for i, c in enumerate(s["cs"]):
                if i:
                    self.pad()
                self.w("se " if i == 0 else "senaose ")
                if self.leftmost(c["c"])["k"] == "ig":
                    c["c"]["par"] = True  # "se iguala" is another statement
                self.sub(c["c"], 1)
                self.w(" entao")
                self.nl()
                self.block(c["b"])
            if s["el"]:
                self.pad()
                self.w("senao")
                self.nl()
                self.block(s["el"])
            self.pad()
            self.w("fim")
        elif k == "enq":
            self.w("enquanto ")
            self.sub(s["c"], 1)
            self.w(" faca")
            self.nl()
            self.block(s["b"])
            self.pad()
            self.w("fim")
        elif k == "para":
            self.w("para %s de " % s["n"])
            self.sub(s["a"], 1)
            self.w("..")
            self.sub(s["z"], 1)
            if s["inc"] is not None:
                self.w(" inc ")
                self.sub(s["inc"], 1)
            self.w(" faca")
            self.nl()
            self.block(s["b"])
            self.pad()
            self.w("fim")
        elif k == "esc":
            self.w("escolha ")
            self.sub(s["a"], 1)
            self.w(":")
            self.nl()
            self.ind += 1
            for c in s["cs"]:
                self.pad()
                self.w("caso ")
                self.sub(c["c"], 1)
                self.w(":")
                self.nl()
                self.block(c["b"])
            if s["el"]:
                self.pad()
                self.w("senao:")
                self.nl()
                self.block(s["el"])
            self.ind -= 1
            self.pad()
            self.w("fim")
        elif k == "seig":
            self.w("se iguala ")
            self.sub(s["a"], 1)
            self.w(" => ")
            self.pat(s["p"])
            self.w(" entao")
            self.nl()
            self.block(s["b"])
            if s["el"]:
                self.pad()
                self.w("senao")
                self.nl()
                self.block(s["el"])
            self.pad()
            self.w("fim")
        elif k == "ret":
            self.w("retorna")
            if s["a"] is not None:
                self.w(" ")
                self.sub(s["a"], 1)
        elif k == "prod":
            self.w("produz ")
            self.sub(s["a"], 1)
        elif k in ("quebra", "continua"):
            self.w(k)
        else:
            raise Exception("render stmt " + k)
        self.nl()

    def item(self, it):
        """Top level item of a module."""
        k = it["k"]
        if k == "func":
            it["ln"] = self.line
            self.w("func %s(%s)%s" % (it["n"], ", ".join("%s: %s" % (p, self.ty(t)) for p, t in it["ps"]),
                                      "" if it["rt"] == VAZIO else ": " + self.ty(it["rt"])))
            self.nl()
            self.block(it["b"])
            self.w("fim\n")
        elif k == "met":
            it["ln"] = self.line
            self.w("met %s::%s(%s)%s" % (self.ty(it["self"]), it["n"],
                                         ", ".join(["alvo"] + ["%s: %s" % (p, self.ty(t)) for p, t in it["ps"]]),
                                         "" if it["rt"] == VAZIO else ": " + self.ty(it["rt"])))
            self.nl()
            self.block(it["b"])
            self.w("fim\n")
        elif k == "reg":
            self.w("registo %s\n" % it["n"])
            for f, t in it["fs"]:
                self.w("    %s: %s\n" % (f, self.ty(t)))
            self.w("fim\n")
        elif k == "uni":
            self.w("uniao %s\n" % it["n"])
            for i, (v, ts) in enumerate(it["vs"]):
                self.w("    %s%s%s\n" % (v, "(%s)" % ", ".join(self.ty(t) for t in ts) if ts else "",
                                         "," if i + 1 < len(it["vs"]) else ""))
            self.w("fim\n")
        elif k == "usa":
            self.w("usa \"%s\"" % it["path"])
            if it.get("names") is not None:
                self.w(" => [%s]" % ", ".join(it["names"]))
            elif it.get("as"):
                self.w(" => " + it["as"])
            self.nl()
        elif k == "raw":
            self.w(it["s"])
        else:
            self.stmt(it)


def render(prog):
    """prog = {"mods": {name: {"items", "alias", "direct", "file"}}, "main": name}
    Fills in the lines and returns {file: source}.  A program read from source
    keeps it."""
    if "src" in prog:
        return prog["src"]
    out = {}
    for name, m in prog["mods"].items():
        m.setdefault("alias", {})
        m.setdefault("direct", {})
        w = Writer(name, prog)
        for it in m["items"]:
            w.item(it)
        out[m.get("file", name + ".ama")] = w.text()
    return out


# ---------------------------------------------------------------- flattener
class Flat:
    def __init__(self, prog, codec):
        self.prog, self.codec, self.nodes = prog, codec, []
        self.glob = False

    def add(self, d):
        self.nodes.append(d)
        return len(self.nodes)

    def xs(self, l):
        return [self.x(a) for a in l]

    def opt(self, n):
        return 0 if n is None else self.x(n)

    def x(self, n):
        k, ln = n["k"], n.get("ln", 0)
        d = {"k": k, "ln": ln}
        if k == "lit":
            d["v"] = {"t": "s", "v": self.codec.enc(n["txt"])} if "txt" in n else n["v"]
        elif k == "var":
            d["n"] = n["n"]
        elif k == "gvar":
            # written as a plain name when imported by name, but the same thing
            d["n"], d["md"] = n["n"], n["md"]
        elif k == "bin":
            d.update(op=n["op"], a=self.x(n["a"]), b=self.x(n["b"]))
        elif k == "un":
            d.update(op=n["op"], a=self.x(n["a"]))
        elif k in ("call", "bc"):
            d.update(f=n["f"], args=self.xs(n["args"]))
        elif k == "mcall":
            d.update(f=n["f"], a=self.x(n["a"]), args=self.xs(n["args"]))
        elif k == "new":
            decl = [{"n": f, "ty": ty_json(t)} for f, t in n["decl"]]
            d.update(id="%s.%s" % (n["md"], n["name"]), name=self.codec.enc(n["name"]), fs=n["fs"],
                     decl=decl, args=self.xs(n["args"]))
        elif k == "varn":
            d.update(tag=n["tag"], tys=[ty_json(t) for t in n["tys"]], args=self.xs(n["args"]))
        elif k == "get":
            d.update(a=self.x(n["a"]), n=n["n"])
        elif k == "unw":
            d.update(a=self.x(n["a"]), d=self.opt(n["d"]), ty=ty_json(n["ty"]))
        elif k == "idx":
            d.update(a=self.x(n["a"]), b=self.x(n["b"]))
        elif k in ("vecl", "vecn"):
            d.update(ty=ty_json(n["ty0"]), args=self.xs(n["args"]))
        elif k == "cast":
            d.update(a=self.x(n["a"]), ty=ty_json(n["to"]), fi=n["fi"])
        elif k == "fstr":
            d.update(args=self.xs(n["args"]))
        elif k == "ig":
            d.update(a=self.x(n["a"]), void=bool(n.get("void")),
                     arms=[{"p": self.pat(a["p"]), "x": self.opt(a["x"]),
                            "body": self.block(a["body"] or [])} for a in n["arms"]])
        elif k == "asg":
            d.update(l=self.x(n["l"]), a=self.x(n["a"]))
        else:
            raise Exception("flatten " + k)
        return self.add(d)

    def pat(self, p):
        if p["k"] == "any":
            return {"k": "any", "n": p["n"], "ty": ty_json(p["ty"])}
        if p["k"] == "lit":
            return {"k": "lit", "v": {"t": "s", "v": self.codec.enc(p["txt"])} if "txt" in p else p["v"]}
        return {"k": "adt", "tag": p["tag"], "subs": [self.pat(s) for s in p["subs"]]}

    def block(self, l):
        g, self.glob = self.glob, False
        r = [self.s(s) for s in l]
        self.glob = g
        return r

    def s(self, s):
        k, ln = s["k"], s.get("ln", 0)
        d = {"k": k, "ln": ln}
        if k == "decl":
            d.update(n=s["n"], ty=ty_json(s["ty"]), a=self.opt(s["a"]), g=self.glob)
        elif k == "decls":
            d.update(ns=s["ns"], ty=ty_json(s["ty"]), g=self.glob)
        elif k in ("expr", "mostra", "prod"):
            d.update(a=self.x(s["a"]))
        elif k == "cas":
            # t op= e means t = t op e
            b = self.add({"k": "bin", "ln": ln, "op": s["op"], "a": self.x(s["l"]), "b": self.x(s["a"])})
            a = self.add({"k": "asg", "ln": ln, "l": self.x(s["l"]), "a": b})
            d.update(k="expr", a=a)
        elif k == "se":
            d.update(cs=[{"c": self.x(c["c"]), "b": self.block(c["b"])} for c in s["cs"]],
                     el=self.block(s["el"] or []))
        elif k == "enq":
            d.update(c=self.x(s["c"]), b=self.block(s["b"]))
        elif k == "para":
            d.update(n=s["n"], a=self.x(s["a"]), z=self.x(s["z"]), inc=self.opt(s["inc"]), b=self.block(s["b"]))
        elif k == "esc":
            d.update(a=self.x(s["a"]), cs=[{"c": self.x(c["c"]), "b": self.block(c["b"])} for c in s["cs"]],
                     el=self.block(s["el"] or []))
        elif k == "seig":
            d.update(a=self.x(s["a"]), p=self.pat(s["p"]), b=self.block(s["b"]), el=self.block(s["el"] or []))
        elif k == "ret":
            d.update(a=self.opt(s["a"]))
        elif k in ("quebra", "continua"):
            pass
        else:
            raise Exception("flatten stmt " + k)
        return self.add(d)

    def program(self, pid, inp=""):
        funcs, mods = {}, {}
        for name, m in self.prog["mods"].items():
            body = []
            for it in m["items"]:
                k = it["k"]
                if k in ("func", "met"):
                    self.glob = False
                    key = "%s.%s" % (name, it["n"]) if k == "func" else it["key"]
                    funcs[key] = {"ps": [{"n": p, "ty": ty_json(t)} for p, t in it["ps"]], "rt": ty_json(it["rt"]),
                                  "body": self.block(it["b"]), "md": name, "ln": it["ln"],
                                  "dn": it["n"] if k == "func" else "%s::%s" % (it["tn"], it["n"])}
                    if k == "met":
                        funcs[key]["self"] = ty_json(it["self"])
                elif k not in ("reg", "uni", "usa", "raw"):
                    self.glob = True
                    body.append(self.s(it))
            names = [{"n": n, "md": md} for md, ns in m["direct"].items() for n in ns]
            mods[name] = {"body": body, "names": names}
        lines = inp.split("\n") if inp else []
        if lines and lines[-1] == "":
            lines.pop()
        funcs.setdefault("_", {"ps": [], "rt": {"k": "vazio"}, "body": [], "md": "", "ln": 0, "dn": "_"})
        return {"pid": pid, "nodes": self.nodes, "funcs": funcs, "mods": mods,
                "order": self.prog.get("order", list(mods)), "inp": [self.codec.enc(clusters(l)) for l in lines]}


def flatten(prog, codec, pid, inp=""):
    return Flat(prog, codec).program(pid, inp)


def single(items):
    return {"mods": {"m": {"items": items}}, "main": "m"}
