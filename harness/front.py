"""Amanda source to the syntax trees of lang.py.

read(files, main) parses the modules and works out the types, so that any
accepted source text can be handed to Amanda.tla: the project's own test
programs, and families that are easier to write as text than as trees.
Raises Unread for what the specification does not cover.
"""
import math, os

import lang
from lang import BOOL, INDEF, INT, REAL, TEXTO, VAZIO, binop

NULO = ("nulo",)
PRIMS = {"int": INT, "real": REAL, "bool": BOOL, "texto": TEXTO, "indef": INDEF, "vazio": VAZIO}
KEYWORDS = ("mostra e ou nao verdadeiro falso caso retorna produz se senao senaose escolha entao enquanto para faca de "
            "continua quebra usa como alvo registo iguala inc fim func met nulo vazio nativa uniao classe").split()
SYMBOLS = ["(", ")", ".", "..", ";", ",", "{", "}", "[", "]", "@", "@@", ":", "?", "::", ":>", "=>", "+", "-", "*", "/",
           "//", "%", "+=", "-=", "*=", "/=", "<", ">", "<=", ">=", "!=", "=", "=="]
LIBS = {"mat": {"abs": REAL, "expoente": REAL, "raizqd": REAL, "arredonda": INT, "piso": INT, "teto": INT, "sen": REAL,
                "cos": REAL, "tan": REAL, "log": REAL, "grausprad": REAL, "radpgraus": REAL}}
BUILTIN = {"leia": TEXTO, "leia_int": INT, "leia_real": REAL, "escreva": VAZIO, "escrevaln": VAZIO, "tam": INT,
           "anexa": VAZIO, "txt_contem": BOOL}


class Unread(Exception):
    pass


# ------------------------------------------------------------------ tokens
clusters = lang.clusters


def lex(src, line=1):
    """(kind, text, line); kinds: id kw int real str fstr op nl eof"""
    i, n, toks = 0, len(src), []
    while i < n:
        c = src[i]
        if c == "\n":
            toks.append(("nl", "\n", line))
            line += 1
            i += 1
        elif c.isspace():
            i += 1
        elif c == "#":
            while i < n and src[i] != "\n":
                i += 1
        elif c in "\"'" or (c == "f" and i + 1 < n and src[i + 1] in "\"'"):
            k = "str"
            if c == "f":
                k = "fstr"
                i += 1
            q, start, buf = src[i], line, []
            i += 1
            while True:
                if i >= n:
                    raise Unread("texto aberto")
                c = src[i]
                if c == q:
                    i += 1
                    break
                if c == "\\" and i + 1 < n and src[i + 1] in "n'\"":
                    buf.append("\n" if src[i + 1] == "n" else src[i + 1])
                    i += 2
                    continue
                if c == "\n":
                    line += 1
                buf.append(c)
                i += 1
            toks.append((k, q + "".join(buf), start))
        elif c.isalpha() or c == "_":
            j = i
            while j < n and (src[j].isalnum() or src[j] == "_"):
                j += 1
            w = src[i:j]
            toks.append(("kw" if w in KEYWORDS else "id", w, line))
            i = j
        elif c.isdecimal():
            j = i
            while j < n and src[j].isdecimal():
                j += 1
            k = "int"
            if j + 1 < n and src[j] == "." and src[j + 1].isdecimal():
                k = "real"
                j += 1
                while j < n and src[j].isdecimal():
                    j += 1
            toks.append((k, src[i:j], line))
            i = j
        else:
            for w in (2, 1):
                if src[i:i + w] in SYMBOLS:
                    toks.append(("op", src[i:i + w], line))
                    i += w
                    break
            else:
                raise Unread("símbolo %r" % c)
    toks.append(("eof", "", line))
    return toks


# ------------------------------------------------------------------ parser
def spanned(parse):
    """The nodes a method makes carry the lines they take up: lo..hi"""
    def f(self, *args):
        lo = self.tok[2]
        out = parse(self, *args)
        for e in out if isinstance(out, list) else [out]:
            if isinstance(e, dict):
                e.setdefault("lo", lo)
                e.setdefault("hi", self.t[self.p - 1][2] if self.t[self.p - 1][0] != "nl" else self.t[self.p - 2][2])
        return out
    return f


class Parser:
    def __init__(self, src, line=1):
        self.t, self.p = lex(src, line), 0

    @property
    def tok(self):
        return self.t[self.p]

    def at(self, *texts):
        k, x, _ = self.tok
        return k in ("op", "kw", "nl") and x in texts

    def take(self, text=None, kind=None):
        k, x, ln = self.tok
        if (text is not None and not (k in ("op", "kw", "nl") and x == text)) or (kind is not None and k != kind):
            raise Unread("linha %d: %r em vez de %r" % (ln, x, text or kind))
        self.p += 1
        return x

    def nls(self):
        while self.at("\n"):
            self.p += 1

    def end(self):
        if self.tok[0] == "eof":
            return
        if not self.at("\n", ";"):
            raise Unread("linha %d: fim de instrução" % self.tok[2])
        self.p += 1

    # ---- types
    def type(self):
        if self.at("["):
            self.take("[")
            t = ("vec", self.type())
            self.take("]")
        else:
            path = [self.take(kind="id")]
            while self.at("."):
                self.take(".")
                path.append(self.take(kind="id"))
            if self.at("["):
                raise Unread("genéricos")
            t = ("name", tuple(path))
        if self.at("?"):
            self.take("?")
            t = ("opt", t)
        return t

    # ---- items
    def module(self):
        items = []
        self.nls()
        while self.at("@@"):
            raise Unread("módulo embutido")
        while self.tok[0] != "eof":
            if self.at("\n"):
                self.take()
            else:
                items += self.decl()
        return items

    @spanned
    def decl(self):
        ln = self.tok[2]
        if self.at("@"):
            raise Unread("anotações")
        if self.at("usa"):
            self.take()
            path = self.take(kind="str")[1:]
            it = {"k": "usa", "path": path, "ln": ln}
            if self.at("=>"):
                self.take()
                if self.at("["):
                    self.take()
                    it["names"] = [self.take(kind="id")]
                    while self.at(","):
                        self.take()
                        it["names"].append(self.take(kind="id"))
                    self.take("]")
                else:
                    it["as"] = self.take(kind="id")
            else:
                self.end()
            return [it]
        if self.at("func"):
            self.take()
            n = self.take(kind="id")
            self.take("(")
            ps = self.params()
            self.take(")")
            rt = VAZIO
            if self.at(":"):
                self.take()
                if self.at("vazio"):
                    self.take()
                else:
                    rt = self.type()
            hh = self.t[self.p - 1][2]
            b = self.block()
            self.take("fim")
            return [{"k": "func", "n": n, "ps": ps, "rt": rt, "b": b, "ln": ln, "hh": hh}]
        if self.at("met"):
            self.take()
            st = self.type()
            self.take("::")
            n = self.take(kind="id")
            self.take("(")
            self.take("alvo")
            ps = []
            if self.at(","):
                self.take()
                ps = self.params()
            self.take(")")
            rt = VAZIO
            if self.at(":"):
                self.take()
                rt = self.type()
            hh = self.t[self.p - 1][2]
            b = self.block()
            self.take("fim")
            return [{"k": "met", "self": st, "n": n, "ps": ps, "rt": rt, "b": b, "ln": ln, "hh": hh}]
        if self.at("registo"):
            self.take()
            n = self.take(kind="id")
            if self.at("["):
                raise Unread("genéricos")
            fs, at = [], []
            while not self.at("fim"):
                if self.at("\n"):
                    self.take()
                    continue
                lo = self.tok[2]
                names = [self.take(kind="id")]
                while self.at(","):
                    self.take()
                    names.append(self.take(kind="id"))
                self.take(":")
                t = self.type()
                at += [(lo, self.t[self.p - 1][2])] * len(names)
                if self.at("="):
                    raise Unread("campo com valor")
                fs += [(x, t) for x in names]
                self.end()
            self.take("fim")
            return [{"k": "reg", "n": n, "fs": fs, "ln": ln, "at": at}]
        if self.at("uniao"):
            self.take()
            n = self.take(kind="id")
            if self.at("["):
                raise Unread("genéricos")
            vs, at = [], []
            self.nls()
            more = not self.at("fim")
            while more:
                lo = self.tok[2]
                v, ts = self.take(kind="id"), []
                if self.at("("):
                    self.take()
                    self.nls()
                    ts.append(self.type())
                    while self.at(","):
                        self.take()
                        self.nls()
                        ts.append(self.type())
                        self.nls()
                    self.take(")")
                vs.append((v, ts))
                at.append((lo, self.t[self.p - 1][2]))
                self.nls()
                more = self.at(",")
                if more:
                    self.take()
                    self.nls()
            self.take("fim")
            return [{"k": "uni", "n": n, "vs": vs, "ln": ln, "at": at}]
        return self.stmt()

    def params(self):
        ps = []
        self.nls()
        if self.tok[0] == "id":
            n = self.take()
            self.take(":")
            ps.append((n, self.type()))
            while not self.at(")"):
                self.nls()
                self.take(",")
                self.nls()
                n = self.take(kind="id")
                self.take(":")
                ps.append((n, self.type()))
                self.nls()
        return ps

    def block(self):
        out = []
        while not self.at("fim", "senao", "senaose", "caso"):
            if self.tok[0] == "eof":
                raise Unread("bloco aberto")
            if self.at("\n"):
                self.take()
            else:
                out += self.decl()
        return out

    # ---- statements
    @spanned
    def stmt(self):
        ln = self.tok[2]
        s = {"ln": ln}
        if self.at("mostra", "retorna", "produz"):
            k = self.take()
            if k == "retorna" and self.at(";", "\n"):
                s.update(k="ret", a=None)
            else:
                s.update(k={"mostra": "mostra", "retorna": "ret", "produz": "prod"}[k], a=self.eq())
            self.end()
        elif self.at("quebra", "continua"):
            s["k"] = self.take()
            self.end()
        elif self.at("enquanto"):
            self.take()
            s.update(k="enq", c=self.eq())
            self.take("faca")
            s["b"] = self.block()
            self.take("fim")
        elif self.at("para"):
            self.take()
            s.update(k="para", n=self.take(kind="id"))
            self.take("de")
            s["a"] = self.eq()
            self.take("..")
            s["z"] = self.eq()
            s["inc"] = None
            if self.at("inc"):
                self.take()
                s["inc"] = self.eq()
            self.take("faca")
            s["b"] = self.block()
            self.take("fim")
        elif self.at("se"):
            self.take()
            if self.at("iguala"):
                self.take()
                s.update(k="seig", a=self.eq())
                self.take("=>")
                s["p"] = self.pattern()
                self.take("entao")
                s["b"], s["el"] = self.block(), []
                if self.at("senao"):
                    self.take()
                    s["el"] = self.block()
            else:
                s.update(k="se", cs=[{"c": self.eq(), "ln": ln}], el=[])
                self.take("entao")
                s["cs"][0]["b"] = self.block()
                while self.at("senaose"):
                    l2 = self.tok[2]
                    self.take()
                    c = {"c": self.eq(), "ln": l2}
                    self.take("entao")
                    c["b"] = self.block()
                    s["cs"].append(c)
                if self.at("senao"):
                    self.take()
                    s["el"] = self.block()
                    s["haselse"] = True
            self.take("fim")
        elif self.at("escolha"):
            self.take()
            s.update(k="esc", a=self.eq(), cs=[], el=[])
            self.take(":")
            self.nls()
            while self.at("caso"):
                l2 = self.tok[2]
                self.take()
                c = {"c": self.eq(), "ln": l2}
                self.take(":")
                c["b"] = self.block()
                s["cs"].append(c)
            if self.at("senao"):
                self.take()
                self.take(":")
                s["el"] = self.block()
                s["haselse"] = True
            self.take("fim")
        elif self.at("iguala"):
            s.update(k="expr", a=self.iguala())
        else:
            return self.simple(ln)
        return [s]

    @spanned
    def simple(self, ln):
        e = self.expression()
        if e["k"] in ("asg", "cas"):
            out = [dict(e, ln=ln) if e["k"] == "cas" else {"k": "expr", "a": e, "ln": ln}]
        elif e["k"] == "var" and self.at(":"):
            self.take()
            t = self.type()
            a = None
            if self.at("="):
                self.take()
                a = self.eq()
            out = [{"k": "decl", "n": e["n"], "ty": t, "a": a, "ln": ln}]
        elif e["k"] == "var" and self.at(","):
            names = [e["n"]]
            while self.at(","):
                self.take()
                names.append(self.take(kind="id"))
            self.take(":")
            out = [{"k": "decls", "ns": names, "ty": self.type(), "ln": ln}]
        else:
            out = [{"k": "expr", "a": e, "ln": ln}]
        self.end()
        return out

    @spanned
    def expression(self):
        e = self.assignment()
        if self.at("+=", "-=", "*=", "/="):
            if e["k"] not in ("var", "get", "idx") or e.get("n") == "alvo" and e["k"] == "var":
                raise Unread("alvo")
            op = self.take()[0]
            return {"k": "cas", "l": e, "op": op, "a": self.eq()}
        return e

    @spanned
    def assignment(self):
        e = self.eq()
        if self.at("="):
            self.take()
            if e["k"] not in ("var", "get", "idx") or e.get("n") == "alvo" and e["k"] == "var":
                raise Unread("alvo")
            return {"k": "asg", "l": e, "a": self.assignment(), "ln": e.get("l0", e["ln"])}
        return e

    def left(self, ops, sub):
        e = sub()
        while self.at(*ops):
            ln = self.tok[2]
            op = self.take()
            e = {"k": "bin", "op": op, "a": e, "b": sub(), "ln": ln, "l0": e.get("l0", e["ln"])}
            e["lo"], e["hi"] = e["l0"], self.t[self.p - 1][2]
        return e

    @spanned
    def eq(self):
        return self.left(("==", "!="), lambda: self.left(("<", ">", "<=", ">="), lambda: self.left(
            ("+", "-", "ou"), lambda: self.left(("*", "/", "//", "%", "e"), self.unary))))

    @spanned
    def unary(self):
        if self.at("+", "-", "nao"):
            ln = self.tok[2]
            op = self.take()
            return {"k": "un", "op": op, "a": self.unary(), "ln": ln}
        return self.call()

    @spanned
    def call(self):
        e = self.primary()
        while self.at("(", ".", "["):
            l0 = e.get("l0", e["ln"])
            if self.at("("):
                self.take()
                e = {"k": "call0", "fn": e, "args": self.args(), "ln": l0}
                self.take(")")
            elif self.at("["):
                self.take()
                b = self.eq()
                ln = self.tok[2]
                self.take("]")
                e = {"k": "idx", "a": e, "b": b, "ln": ln}
            else:
                ln = self.tok[2]
                self.take()
                e = {"k": "get", "a": e, "n": self.take(kind="id"), "ln": ln}
            e["l0"] = l0
        if self.at(":>"):
            ln = self.tok[2]
            self.take()
            e = {"k": "cast", "a": e, "to": self.type(), "ln": ln, "l0": e.get("l0", e["ln"])}
        return e

    def args(self):
        out = []
        self.nls()
        if self.at(")"):
            return out
        while True:
            e = self.eq()
            if e["k"] == "var" and self.at(":"):
                self.take()
                out.append((e["n"], self.eq()))
            else:
                out.append((None, e))
            self.nls()
            if not self.at(","):
                break
            self.take()
            self.nls()
        return out

    @spanned
    def primary(self):
        k, x, ln = self.tok
        if k == "id":
            self.take()
            if self.at("::"):
                self.take()
                v = self.take(kind="id")
                return {"k": "path", "uni": x, "name": v, "ln": ln}
            return {"k": "var", "n": x, "ln": ln}
        if k == "int":
            self.take()
            return dict(lang.lit(lang.val_int(int(x)), INT, x), ln=ln)
        if k == "real":
            self.take()
            return dict(lang.lit(real_value(x), REAL, x), ln=ln)
        if k == "str":
            self.take()
            return dict(lang.tlit(clusters(x[1:]), x[0]), ln=ln)
        if k == "fstr":
            self.take()
            return self.fstring(x, ln)
        if self.at("verdadeiro", "falso"):
            self.take()
            return dict(lang.blit(x == "verdadeiro"), ln=ln)
        if self.at("nulo"):
            self.take()
            return dict(lang.nulo(), ln=ln)
        if self.at("alvo"):
            self.take()
            return {"k": "var", "n": "alvo", "ln": ln}
        if self.at("("):
            self.take()
            e = self.eq()
            self.take(")")
            return dict(e, l0=ln)
        if self.at("["):
            self.take()
            self.nls()
            t = self.type()
            self.take(":")
            out = []
            if not self.at("]"):
                self.nls()
                out.append(self.eq())
                self.nls()
                while self.at(","):
                    self.take()
                    self.nls()
                    out.append(self.eq())
                    self.nls()
            self.nls()
            self.take("]")
            return {"k": "vecl", "ty0": t, "args": out, "ln": ln}
        if self.at("iguala"):
            return self.iguala()
        raise Unread("linha %d: expressão: %r" % (ln, x))

    def fstring(self, x, ln):
        q, s, parts, lit, i = x[0], x[1:], [], "", 0
        exprs = False

        def flush():
            if lit:
                parts.append(dict(lang.tlit(clusters(lit), q), ln=ln))
        while i < len(s):
            if s[i] == "{" and s[i + 1:i + 2] == "{":
                lit += "{"
                i += 2
            elif s[i] == "{":
                j = s.find("}", i)
                if j < 0:
                    raise Unread("f-string")
                flush()
                lit = ""
                p = Parser(s[i + 1:j], ln)
                e = p.eq()
                if p.tok[0] != "eof":
                    raise Unread("f-string")
                if e["k"] == "lit" and "txt" in e:
                    e["ex"] = True
                parts.append(e)
                exprs = True
                i = j + 1
            else:
                lit += s[i]
                i += 1
        if not exprs:
            return dict(lang.tlit(clusters(lit), q), ln=ln)
        flush()
        return {"k": "fstr", "q": q, "args": parts, "ln": ln, "ty": TEXTO}

    @spanned
    def iguala(self):
        ln = self.tok[2]
        self.take("iguala")
        e = {"k": "ig", "a": self.eq(), "arms": [], "ln": ln}
        comma = False
        while True:
            self.nls()
            if self.at("fim") and not comma:
                break
            lo = self.tok[2]
            p = self.pattern()
            self.take("=>")
            self.nls()
            if self.at("faca"):
                self.take()
                arm = {"p": p, "x": None, "body": self.block()}
                self.take("fim")
            else:
                arm = {"p": p, "x": self.eq(), "body": None}
            arm["lo"], arm["hi"] = lo, self.t[self.p - 1][2]
            e["arms"].append(arm)
            self.nls()
            comma = self.at(",")
            if comma:
                self.take()
        self.take("fim")
        return e

    @spanned
    def pattern(self):
        e = self.primary()
        if e["k"] == "lit" and e["ty"] in (INT, TEXTO):
            return e
        if e["k"] == "var" and e["n"] != "alvo":
            p = {"k": "any", "n": e["n"], "ln": e["ln"]}
            if self.at("("):
                p = {"k": "called", "n": e["n"], "subs": [], "ln": e["ln"]}
        elif e["k"] != "path":
            raise Unread("padrão")
        else:
            p = {"k": "adt", "uni": e["uni"], "name": e["name"], "subs": [], "ln": e["ln"]}
        if self.at("("):
            self.take()
            p["subs"].append(self.pattern())
            self.nls()
            while self.at(","):
                self.take()
                p["subs"].append(self.pattern())
            self.take(")")
        return p


def real_value(x):
    return lang.val_double(float(x))


# -------------------------------------------------------------- elaboration
class Mod:
    def __init__(self, name):
        self.name = name
        self.vars, self.funcs, self.types, self.libs = {}, {}, {}, {}
        self.aliases = {}
        self.pi = False
        self.direct = {}


class Elab:
    def __init__(self, files, main):
        self.files, self.prog = files, {"mods": {}, "main": None, "order": []}
        self.mods, self.loading, self.mets, self.defs = {}, [], {}, {}
        self.prog["main"] = self.load(main)
        self.prog["src"] = dict(files)

    def load(self, path):
        path = os.path.normpath(path)
        if path not in self.files:
            raise Unread("ficheiro " + path)
        name = "m" if not self.loading else path[:-4]
        if name in self.mods:
            if name in self.loading:
                raise Unread("ciclo")
            return name
        self.loading.append(name)
        m = Mod(name)
        self.mods[name] = m
        prev = getattr(self, "m", None)
        self.m = m
        items = Parser(self.files[path]).module()
        out, prog_m = [], {"items": None, "alias": {}, "direct": {}, "file": path}
        self.prog["mods"][name] = prog_m
        self.scopes, self.func = [], None
        for it in items:
            sv = self.m
            r = self.item(it)
            self.m = sv
            if r is not None:
                out.append(r)
        prog_m["items"] = out
        prog_m["direct"] = {md: sorted(ns) for md, ns in m.direct.items()}
        prog_m["alias"] = {md: a for a, md in m.aliases.items() if md in self.mods}
        self.prog["order"].append(name)
        self.loading.pop()
        self.m = prev
        self.scopes, self.func = [], None
        return name

    # ---- types
    def ty(self, t):
        if t[0] in ("vec", "opt"):
            return (t[0], self.ty(t[1]))
        if t[0] != "name":
            return t
        path = t[1]
        m = self.m
        if len(path) == 1 and path[0] in PRIMS:
            return PRIMS[path[0]]
        for a in path[:-1]:
            if a not in m.aliases:
                raise Unread("módulo " + a)
            m = self.mods[m.aliases[a]]
        if path[-1] not in m.types:
            raise Unread("tipo " + path[-1])
        return m.types[path[-1]]

    # ---- items
    def item(self, it):
        k = it["k"]
        if k == "usa":
            self.usa(it)
            return dict(it)
        if k == "reg":
            t = ("reg", self.m.name, it["n"])
            self.m.types[it["n"]] = t
            it["fs"] = [(f, self.ty(x)) for f, x in it["fs"]]
            self.defs[t] = it["fs"]
            return it
        if k == "uni":
            t = ("uni", self.m.name, it["n"])
            self.m.types[it["n"]] = t
            it["vs"] = [(v, [self.ty(x) for x in ts]) for v, ts in it["vs"]]
            self.defs[t] = it["vs"]
            return it
        if k in ("func", "met"):
            it["ps"] = [(p, self.ty(t)) for p, t in it["ps"]]
            it["rt"] = self.ty(it["rt"])
            sc = dict(it["ps"])
            if k == "func":
                key = "%s.%s" % (self.m.name, it["n"])
                self.m.funcs[it["n"]] = (key, it["rt"])
            else:
                it["self"] = self.ty(it["self"])
                sc["alvo"] = it["self"]
                it["tn"] = show(it["self"])
                it["key"] = key = "%s.%s::%s" % (self.m.name, it["tn"], it["n"])
            self.func = it
            self.scopes = [sc]
            it["b"] = self.stmts(it["b"])
            self.scopes, self.func = [], None
            if k == "met":
                self.mets[it["self"], it["n"]] = (key, it["rt"])
            return it
        return self.stmt(it)

    def usa(self, it):
        path = it["path"]
        own = os.path.normpath(path if path.endswith(".ama") else path + ".ama")
        if own not in self.files and own[:-4] in LIBS:
            path = own[:-4]
            if it.get("as"):
                self.m.libs[it["as"]] = path
            elif it.get("names") is not None:
                for n in it["names"]:
                    if n == "PI" and n not in self.m.vars:
                        self.m.pi = True
                        continue
                    if n not in LIBS[path]:
                        raise Unread(n)
                    self.m.funcs[n] = ("lib " + n, LIBS[path][n])
            else:
                self.m.pi = self.m.pi or "PI" not in self.m.vars
                for n, t in LIBS[path].items():
                    self.m.funcs[n] = ("lib " + n, t)
            return
        if not path.endswith(".ama"):
            path += ".ama"
        here = self.m
        sv = self.scopes, self.func
        name = self.load(path)
        self.scopes, self.func = sv
        self.m = here
        m = self.mods[name]
        if it.get("as"):
            here.aliases[it["as"]] = name
            return
        names = it.get("names")
        if names is None:
            names = list(m.vars) + list(m.funcs) + list(m.types)
            for a, md in m.aliases.items():
                here.aliases.setdefault(a, md)
            for md, ns in m.direct.items():
                here.direct.setdefault(md, set()).update(ns)
            for a, b in m.libs.items():
                here.libs[a] = b
        for n in names:
            for tab in ("vars", "funcs", "types"):
                if n in getattr(m, tab):
                    getattr(here, tab)[n] = getattr(m, tab)[n]
                    if tab == "vars":
                        here.direct.setdefault(m.vars[n][1], set()).add(n)
                    else:
                        here.direct.setdefault(name, set()).add(n)
                    break
            else:
                if n in m.aliases:
                    here.aliases[n] = m.aliases[n]
                else:
                    raise Unread("item " + n)

    # ---- statements
    def stmts(self, l):
        return [self.stmt(s) for s in l]

    def block(self, l, names=None):
        self.scopes.append(dict(names or {}))
        r = self.stmts(l)
        self.scopes.pop()
        return r

    def declare(self, n, t):
        if self.scopes:
            self.scopes[-1][n] = t
        else:
            self.m.vars[n] = (t, self.m.name)

    def stmt(self, s):
        k = s["k"]
        if k == "decl":
            s["ty"] = self.ty(s["ty"])
            if s["a"] is not None:
                s["a"] = self.x(s["a"])
            self.declare(s["n"], s["ty"])
        elif k == "decls":
            s["ty"] = self.ty(s["ty"])
            for n in s["ns"]:
                self.declare(n, s["ty"])
        elif k in ("expr", "mostra", "prod"):
            s["a"] = self.x(s["a"])
            if k == "mostra" and s["a"]["ty"] == VAZIO:
                raise Unread("mostra de vazio")
        elif k == "cas":
            s["l"], s["a"] = self.x(s["l"]), self.x(s["a"])
        elif k == "se":
            for c in s["cs"]:
                c["c"] = self.x(c["c"])
                c["b"] = self.block(c["b"])
            s["el"] = self.block(s["el"])
        elif k == "enq":
            s["c"] = self.x(s["c"])
            s["b"] = self.block(s["b"])
        elif k == "para":
            for f in ("a", "z", "inc"):
                if s[f] is not None:
                    s[f] = self.x(s[f])
            s["b"] = self.block(s["b"], {s["n"]: INT})
        elif k == "esc":
            s["a"] = self.x(s["a"])
            for c in s["cs"]:
                c["c"] = self.x(c["c"])
                c["b"] = self.block(c["b"])
            s["el"] = self.block(s["el"])
        elif k == "seig":
            s["a"] = self.x(s["a"])
            names = {}
            s["p"] = self.pat(s["p"], s["a"]["ty"], names)
            s["b"] = self.block(s["b"], names)
            s["el"] = self.block(s["el"])
        elif k == "ret":
            if s["a"] is not None:
                s["a"] = self.x(s["a"])
        elif k not in ("quebra", "continua"):
            raise Unread(k)
        return s

    # ---- patterns
    def pat(self, p, ty, names):
        if p["k"] == "any":
            p["ty"] = ty
            if p["n"] != "_":
                names[p["n"]] = ty
            return p
        if p["k"] == "lit":
            return p
        t = self.ty(("name", (p["uni"],)))
        tag, ts = self.variant(t, p["name"])
        p.update(tag=tag, md=t[1])
        p["subs"] = [self.pat(q, u, names) for q, u in zip(p["subs"], ts)]
        return p

    def variant(self, t, name):
        for i, (v, ts) in enumerate(self.defs[t]):
            if v == name:
                return i, ts
        raise Unread("variante " + name)

    # ---- expressions
    def find(self, n):
        for sc in reversed(self.scopes):
            if n in sc:
                return sc[n], None
        if n in self.m.vars:
            t, md = self.m.vars[n]
            return t, None if md == self.m.name else md
        raise Unread("nome " + n)

    def xs(self, l):
        return [self.x(a) for a in l]

    def x(self, e):
        k, ln = e["k"], e["ln"]
        e.pop("l0", None)
        if k == "lit":
            return e
        if k == "var":
            if e["n"] == "PI" and self.m.pi and not any("PI" in sc for sc in self.scopes):
                return dict(lang.lit(lang.val_double(math.pi), REAL, "PI"), ln=ln)
            t, md = self.find(e["n"])
            e["ty"] = t
            if md:
                e.update(k="gvar", md=md)
            return e
        if k == "bin":
            e["a"], e["b"] = self.x(e["a"]), self.x(e["b"])
            if e["op"] in ("+", "-", "*", "/", "//", "%"):
                e["ty"] = INT if e["a"]["ty"] == INT and e["b"]["ty"] == INT and e["op"] != "/" else REAL
            else:
                e["ty"] = BOOL
            return e
        if k == "un":
            e["a"] = self.x(e["a"])
            e["ty"] = e["a"]["ty"]
            return e
        if k == "path":
            t = self.ty(("name", (e["uni"],)))
            tag, ts = self.variant(t, e["name"])
            return {"k": "varn", "md": t[1], "uni": e["uni"], "name": e["name"], "tag": tag, "tys": ts, "args": [], "ty": t, "ln": ln}
        if k == "idx":
            e["a"], e["b"] = self.x(e["a"]), self.x(e["b"])
            e["ty"] = TEXTO if e["a"]["ty"] == TEXTO else e["a"]["ty"][1]
            return e
        if k == "get":
            a = e["a"]
            if a["k"] == "var" and a["n"] in self.m.libs and e["n"] == "PI":
                return dict(lang.lit(lang.val_double(math.pi), REAL, a["n"] + ".PI"), ln=a["ln"])
            if a["k"] == "var" and self.module_of(a["n"]):
                m = self.mods[self.module_of(a["n"])]
                if e["n"] not in m.vars:
                    raise Unread("item " + e["n"])
                t, md = m.vars[e["n"]]
                return {"k": "gvar", "md": md, "n": e["n"], "ty": t, "ln": a["ln"]}
            e["a"] = self.x(a)
            t = e["a"]["ty"]
            if t[0] == "opt" and e["n"] == "valor":
                return {"k": "unw", "a": e["a"], "d": None, "ty": t[1], "ln": e["a"]["ln"]}
            for f, u in self.defs.get(t, ()):
                if f == e["n"]:
                    e["ty"] = u
                    return e
            raise Unread("campo " + e["n"])
        if k == "cast":
            e["a"] = self.x(e["a"])
            e["to"] = e["ty"] = self.ty(e["to"])
            e["fi"] = e["a"]["ty"] == INDEF
            return e
        if k == "vecl":
            e["ty0"] = self.ty(e["ty0"])
            e["args"] = self.xs(e["args"])
            e["ty"] = ("vec", e["ty0"])
            return e
        if k == "fstr":
            e["args"] = self.xs(e["args"])
            return e
        if k == "ig":
            return self.iguala(e)
        if k == "asg":
            e["l"], e["a"] = self.x(e["l"]), self.x(e["a"])
            if e["l"]["k"] == "lit":
                raise Unread("PI")
            e["ty"] = e["l"]["ty"]
            return e
        if k == "call0":
            return self.call(e)
        raise Unread(k)

    def module_of(self, n):
        for sc in self.scopes:
            if n in sc:
                return None
        return self.m.aliases.get(n)

    def call(self, e):
        fn, ln = e["fn"], e["ln"]
        if fn["k"] == "path":
            t = self.ty(("name", (fn["uni"],)))
            tag, ts = self.variant(t, fn["name"])
            return {"k": "varn", "md": t[1], "uni": fn["uni"], "name": fn["name"], "tag": tag, "tys": ts,
                    "args": self.xs([a for _, a in e["args"]]), "ty": t, "ln": ln}
        if fn["k"] == "var":
            return self.named(e, self.m, fn["n"], "")
        if fn["k"] == "get":
            a = fn["a"]
            if a["k"] == "var" and a["n"] in self.m.libs:
                lib = LIBS[self.m.libs[a["n"]]]
                if fn["n"] not in lib:
                    raise Unread(fn["n"])
                return {"k": "bc", "f": fn["n"], "qual": a["n"] + ".", "args": self.xs([x for _, x in e["args"]]),
                        "ty": lib[fn["n"]], "ln": ln}
            if a["k"] == "var" and self.module_of(a["n"]):
                return self.named(e, self.mods[self.module_of(a["n"])], fn["n"], a["n"] + ".")
            a = self.x(a)
            args = self.xs([x for _, x in e["args"]])
            t = a["ty"]
            if t[0] == "opt" and fn["n"] == "valor_ou":
                return {"k": "unw", "a": a, "d": args[0], "ty": t[1], "ln": a["ln"]}
            if (t, fn["n"]) not in self.mets:
                raise Unread("método " + fn["n"])
            key, rt = self.mets[t, fn["n"]]
            return {"k": "mcall", "f": key, "m": fn["n"], "a": a, "args": args, "ty": rt, "ln": fn["ln"]}
        raise Unread("chamada")

    def named(self, e, m, n, qual):
        ln = e["ln"]
        if n in m.types:
            t = m.types[n]
            if t[0] != "reg":
                raise Unread("chamada de tipo")
            return {"k": "new", "md": t[1], "name": t[2], "fs": [f for f, _ in e["args"]], "args": self.xs([a for _, a in e["args"]]),
                    "decl": self.defs[t], "ty": t, "ln": ln}
        if n in m.funcs:
            key, rt = m.funcs[n]
            args = self.xs([a for _, a in e["args"]])
            if key.startswith("lib "):
                return {"k": "bc", "f": key[4:], "args": args, "ty": rt, "ln": ln}
            return {"k": "call", "f": key, "args": args, "ty": rt, "ln": ln}
        if n == "vec":
            t = self.ty(("name", (e["args"][0][1]["n"],)))
            args = self.xs([a for _, a in e["args"][1:]])
            ty = t
            for _ in args:
                ty = ("vec", ty)
            return {"k": "vecn", "ty0": t, "args": args, "ty": ty, "ln": ln}
        if n in BUILTIN or n == "remova":
            args = self.xs([a for _, a in e["args"]])
            return {"k": "bc", "f": n, "args": args, "ty": BUILTIN[n] if n != "remova" else args[0]["ty"][1], "ln": ln}
        raise Unread("função " + n)

    def iguala(self, e):
        e["a"] = self.x(e["a"])
        tys = []
        for arm in e["arms"]:
            names = {}
            arm["p"] = self.pat(arm["p"], e["a"]["ty"], names)
            self.scopes.append(names)
            if arm["x"] is not None:
                arm["x"] = self.x(arm["x"])
                t = arm["x"]["ty"]
                if t == VAZIO:
                    arm["body"] = [{"k": "expr", "a": arm["x"], "ln": arm["x"]["ln"]}]
                    arm["x"] = None
            else:
                arm["body"] = self.stmts(arm["body"])
                last = arm["body"][-1] if arm["body"] else None
                t = last["a"]["ty"] if last and last["k"] == "prod" else VAZIO
            tys.append(t)
            self.scopes.pop()
        e["ty"] = tys[0]
        e["void"] = tys[0] == VAZIO
        return e


def show(t):
    if t[0] == "vec":
        return "[%s]" % show(t[1])
    if t[0] == "opt":
        return "Opcao"
    return t[2] if t[0] in ("reg", "uni") else t[0]


def read(files, main="m.ama"):
    """files: {name: source}.  The program, ready for conf.predict."""
    try:
        return Elab(files, main).prog
    except (KeyError, IndexError, RecursionError) as e:
        raise Unread(repr(e))


def text(src, **more):
    return read(dict({"m.ama": src}, **more))
