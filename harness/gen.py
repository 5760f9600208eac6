"""Random well-typed programs.  Everything that decides their meaning is in
Amanda.tla; this module only has to produce programs that are accepted, end,
and do something worth comparing."""
import random

from lang import *

PRIMS = [INT, REAL, BOOL, TEXTO]
NAMES = ["a", "b", "c", "d", "n", "m", "x", "y", "z", "k"]
WORDS = ["", "a", "ola", "abc", "12", "-7", "3.5", "ção", "x y", "{", "fim", "b", "00", "éé"]

# Reals that are not short in binary, are large, or small
FAR = [0.1, 0.2, 0.3, 0.7, 1.1, 2.3, 3.14, 2.675, 1.005, 0.001, 1e-7, 123456.789, 16777217.0, 33554433.5, 8000001.0, 99999.99, 1e9 + 0.1,
       4503599627370497.5, 9007199254740991.0, 1e15 + 0.3, 1e16, 1e21, 9.2e18, 1e40, 1e-20, 0.333333, 5e-5, 1e22, 1.7e308, 2.5, 0.15625]

BASE = dict(
    # expressions
    lit=6, var=10, arith=6, call=4, mcall=3, idx=3, get=4, cast=2, ig=1.5, unw=2, fstr=2, cmp=5, logic=3, tam=2,
    new=2, vecl=3, vecn=1, varn=3, mat=0.4, contem=0.6,
    # statements
    decl=7, assign=6, chain=0.8, cas=3, mostra=9, se=3, enq=1.2, para=1.6, esc=1, igs=1, seig=1, exprs=2, anexa=2,
    remova=1, block_ret=1,
    # declarations
    funcs=3, regs=2, unis=2, mets=2, mods=0, big=0.02, err=0.06, depth=3, stmts=9, real=1, opt=1, indef=0.5, far=0.12,
)

PROFILES = {
    "mix": {},
    "arith": dict(arith=20, cast=3, big=0.15, regs=0.5, unis=0.5, mets=0.5, vecl=1, ig=0.5, cas=6),
    "real": dict(far=0.4, mat=2, real=6, arith=10, cast=4, regs=2, unis=1.5, vecl=4, funcs=4),
    "vec": dict(idx=10, vecl=6, vecn=3, tam=5, anexa=8, remova=6, assign=10, unis=0.3, regs=1, err=0.1),
    "rec": dict(regs=4, mets=5, new=6, get=10, mcall=8, assign=10, unis=0.3),
    "opt": dict(opt=6, unw=8, cast=4, regs=1.5, unis=0.8),
    "match": dict(unis=4, ig=6, igs=5, seig=4, varn=6, regs=0.5),
    "scope": dict(se=6, enq=2, para=4, decl=14, esc=2, igs=3, seig=2, assign=10, cas=4, funcs=4, regs=0.3, stmts=10),
    "loops": dict(enq=5, para=7, esc=4, se=6, igs=1.5, stmts=8),
    "calls": dict(funcs=6, call=12, mcall=5, ret=3, exprs=5, regs=1.5),
    "text": dict(fstr=8, idx=4, tam=4, cast=4, contem=3, esc=2, unis=0.5, regs=0.7),
    "conv": dict(far=0.3, big=0.1, cast=14, fstr=4, indef=4, real=3, opt=2),
    "mods": dict(mods=1, funcs=3, regs=2, unis=1.5, mets=2, call=10, get=6),
    "err": dict(err=0.35, big=0.12, funcs=5, call=10, mets=3),
}


class Dead(Exception):
    pass


class Gen:
    def __init__(self, rng, profile="mix", size=1.0):
        self.r = rng
        self.w = dict(BASE)
        self.w.update(PROFILES[profile])
        self.profile = profile
        self.size = size
        self.budget = int(160 * size)

    # ------------------------------------------------------------ utilities
    def pick(self, opts):
        """opts: list of (weight, thing)"""
        opts = [(w, o) for w, o in opts if w > 0]
        t = self.r.random() * sum(w for w, _ in opts)
        for w, o in opts:
            t -= w
            if t <= 0:
                return o
        return opts[-1][1]

    def chance(self, p):
        return self.r.random() < p

    def count(self, mean):
        n = int(mean)
        return n + (1 if self.chance(mean - n) else 0)

    # --------------------------------------------------------------- types
    def prim(self):
        return self.pick([(4, INT), (2.5 * self.w["real"], REAL), (2, BOOL), (3, TEXTO)])

    def any_type(self, d=2):
        regs = [t for t in self.types if t[0] == "reg"]
        unis = [t for t in self.types if t[0] == "uni"]
        o = [(8, "prim"), (1.2 * self.w["indef"], "indef")]
        if regs:
            o.append((2 * self.w["regs"], "reg"))
        if unis:
            o.append((1.5 * self.w["unis"], "uni"))
        if d > 0:
            o += [(1 + 0.3 * self.w["vecl"], "vec"), (1.2 * self.w["opt"], "opt")]
        k = self.pick(o)
        if k == "prim":
            return self.prim()
        if k == "indef":
            return INDEF
        if k == "reg":
            return self.r.choice(regs)
        if k == "uni":
            return self.r.choice(unis)
        if k == "vec":
            return ("vec", self.any_type(d - 1) if self.chance(0.5) else self.prim())
        return ("opt", self.r.choice(regs) if regs and self.chance(0.3) else self.prim())

    def castable_text(self, t):
        return t in PRIMS or t[0] in ("reg", "uni", "vec") and False

    # -------------------------------------------------------------- scopes
    def visible(self):
        """name -> (type, readonly, module or None)"""
        if self._vis is None:
            out = {}
            if self.in_func is None or True:
                for n, b in self.imported.items():
                    out[n] = b
                for n, b in self.globals.items():
                    out[n] = b
            for sc in self.scopes:
                out.update(sc)
            self._vis = out
        return self._vis

    def vars_of(self, t, write=False):
        res = []
        for n, (ty, ro, md) in self.visible().items():
            if ty == t and n not in self.hidden and not (write and (ro or md)) and not (write and n == "alvo"):
                res.append((n, md))
        return res

    def declare(self, n, t, ro=False):
        self._vis = None
        if self.scopes:
            self.scopes[-1][n] = (t, ro, None)
        else:
            self.globals[n] = (t, ro, None)

    def fresh(self):
        """A name that can be declared in the current scope; often one that is
        in use in an enclosing scope"""
        taken = set(self.scopes[-1]) if self.scopes else set(self.globals) | set(self.imported) | self.reserved
        for _ in range(20):
            n = self.r.choice(NAMES) + ("" if self.scopes else self.suffix)
            if n not in taken and n not in self.busy:
                return n
        k = 1
        while True:
            n = "v%d%s" % (k, "" if self.scopes else self.suffix)
            if n not in taken and n not in self.reserved and n not in self.busy:
                return n
            k += 1

    def push(self, names=None):
        self._vis = None
        self.scopes.append(dict(names or {}))

    def pop(self):
        self._vis = None
        self.scopes.pop()

    def varnode(self, n, md, t):
        return {"k": "gvar", "n": n.split(".")[-1], "md": md, "ty": t} if md else var(n, t)

    # --------------------------------------------------------- expressions
    def C(self, t, d):
        """An expression that can be stored where a t is expected."""
        if t == REAL and self.chance(0.35):
            return self.E(INT, d)
        if t[0] == "opt":
            c = self.r.random()
            if c < 0.25:
                return nulo()
            if c < 0.75:
                return self.C(t[1], d)
            return self.E(t, d)
        if t == INDEF:
            if self.chance(0.25) and self.vars_of(INDEF):
                return self.E(INDEF, d)
            u = self.any_type(1) if d > 0 else self.prim()
            while u == INDEF or u[0] == "opt":
                u = self.any_type(1)
            return self.E(u, d)
        return self.E(t, d)

    def small(self):
        return self.r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 12, 100])

    def literal(self, t):
        if t == INT:
            if self.chance(self.w["big"]):
                return iexpr(self.r.choice([2 ** 63 - 1, -(2 ** 63), 2 ** 62, -(2 ** 62), 3037000500, 2 ** 31, 2 ** 32,
                                            10 ** 18, -(10 ** 18), 4294967296, 999999999, 1000000000]))
            n = self.small()
            return iexpr(-n if self.chance(0.15) else n)
        if t == REAL:
            if self.chance(self.w["far"]):
                x = self.r.choice(FAR)
                return unop("-", dlit(x), REAL) if self.chance(0.2) else dlit(x)
            n, dd = self.r.choice([(1, 2), (3, 2), (1, 1), (2, 1), (5, 4), (10, 1), (7, 8), (3, 1), (1, 4), (25, 2)])
            return rexpr(-n if self.chance(0.15) else n, dd)
        if t == BOOL:
            return blit(self.chance(0.5))
        if t == TEXTO:
            return tlit(self.r.choice(WORDS), self.r.choice("\"'"))
        raise Dead()

    def reg_decl(self, t):
        return self.regs[t[1:]]["fs"]

    def new(self, t, d):
        fs = list(self.reg_decl(t))
        order = list(fs)
        self.r.shuffle(order)
        return {"k": "new", "md": t[1], "name": t[2], "decl": fs, "fs": [f for f, _ in order],
                "args": [self.C(ft, d - 1) for _, ft in order], "ty": t}

    def varn(self, t, d):
        vs = self.unis[t[1:]]["vs"]
        simple = [v for v in vs if all(x in PRIMS for x in v[1])]
        name, ts, tag = self.r.choice(simple if d <= 0 and simple else vs)
        return {"k": "varn", "md": t[1], "uni": t[2], "name": name, "tag": tag, "tys": ts,
                "args": [self.C(x, d - 1) for x in ts], "ty": t}

    def base(self, t, d):
        """The simplest expression of a type"""
        vs = self.vars_of(t)
        if vs and self.chance(0.6):
            n, md = self.r.choice(vs)
            return self.varnode(n, md, t)
        if t in PRIMS:
            return self.literal(t)
        k = t[0]
        if k == "vec":
            n = self.r.choice([0, 1, 2, 3, 3]) if d > -2 else 0
            return {"k": "vecl", "ty0": t[1], "args": [self.C(t[1], d - 1) for _ in range(n)], "ty": t}
        if k == "reg":
            return self.new(t, d)
        if k == "uni":
            return self.varn(t, d)
        if k == "opt":
            return {"k": "cast", "a": self.paren(self.C(t[1], d - 1) if t[1] in PRIMS and self.chance(0.6) else nulo()), "to": t, "fi": False, "ty": t}
        if k == "indef":
            u = self.prim()
            return {"k": "cast", "a": self.paren(self.literal(u)), "to": INDEF, "fi": False, "ty": t}
        raise Dead()

    def paren(self, n):
        return n

    def funcs_of(self, t):
        return [f for f in self.funcs if f["rt"] == t]

    def mets_of(self, t):
        return [m for m in self.mets if m["rt"] == t]

    def call(self, f, d):
        return {"k": "call", "f": f["key"], "args": [self.C(t, d - 1) for _, t in f["ps"]], "ty": f["rt"]}

    def mcall(self, m, d):
        return {"k": "mcall", "f": m["key"], "m": m["n"], "a": self.E(m["self"], d - 1),
                "args": [self.C(t, d - 1) for _, t in m["ps"]], "ty": m["rt"]}

    def getters(self, t):
        return [(rt, f) for rt in self.types if rt[0] == "reg" for f, ft in self.reg_decl(rt) if ft == t]

    def index(self, d):
        if self.chance(self.w["err"]):
            return self.r.choice([ilit(self.r.choice([5, 9, 100])), unop("-", ilit(1), INT), self.E(INT, d - 1)])
        return ilit(self.r.choice([0, 0, 0, 1, 1, 2]))

    def E(self, t, d):
        """An expression whose type is exactly t."""
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            return self.base(t, d)
        w = self.w
        o = [(w["lit"] if t in PRIMS else 3, "base")]
        if self.vars_of(t):
            o.append((w["var"], "var"))
        if self.funcs_of(t) and self.callable_now:
            o.append((w["call"], "call"))
        if self.mets_of(t) and self.callable_now:
            o.append((w["mcall"], "mcall"))
        if self.getters(t):
            o.append((w["get"], "get"))
        if self.vars_of(("vec", t)):
            o.append((w["idx"], "idx"))
        if self.vars_of(("opt", t)) or w["opt"] > 3 and t[0] in ("int", "real", "bool", "texto", "reg"):
            o.append((w["unw"], "unw"))
        if d >= 2 and not self.no_ig:
            o.append((w["ig"], "ig"))
        if t == INT:
            o += [(w["arith"], "arith"), (w["cast"], "cast"), (w["tam"], "tam"), (w["mat"] if self.has_mat else 0, "matint")]
        elif t == REAL:
            o += [(w["arith"], "arith"), (w["cast"], "cast"), (w["mat"] if self.has_mat else 0, "matreal")]
        elif t == BOOL:
            o += [(w["cmp"], "cmp"), (w["logic"], "logic"), (w["cast"] * 0.5, "cast"), (w["contem"], "contem")]
        elif t == TEXTO:
            o += [(w["fstr"], "fstr"), (w["cast"], "cast"), (w["idx"] * 0.5, "tidx")]
        elif t[0] == "vec" and t[1] in PRIMS:
            o.append((w["vecn"], "vecn"))
        return getattr(self, "e_" + self.pick(o))(t, d)

    def e_base(self, t, d):
        return self.base(t, d)

    def e_var(self, t, d):
        n, md = self.r.choice(self.vars_of(t))
        return self.varnode(n, md, t)

    def e_call(self, t, d):
        return self.call(self.r.choice(self.funcs_of(t)), d)

    def e_mcall(self, t, d):
        return self.mcall(self.r.choice(self.mets_of(t)), d)

    def e_get(self, t, d):
        rt, f = self.r.choice(self.getters(t))
        return {"k": "get", "a": self.E(rt, d - 1), "n": f, "ty": t}

    def e_idx(self, t, d):
        v = ("vec", t)
        n, md = self.r.choice(self.vars_of(v))
        return {"k": "idx", "a": self.varnode(n, md, v), "b": self.index(d), "ty": t}

    def e_tidx(self, t, d):
        a = self.E(TEXTO, d - 1) if self.chance(0.4) else tlit(self.r.choice(["abc", "ção!", "xyz"]))
        return {"k": "idx", "a": a, "b": self.index(d), "ty": TEXTO}

    def e_unw(self, t, d):
        o = ("opt", t)
        a = self.E(o, d - 1)
        dv = None if self.chance(0.25 + self.w["err"]) else self.C(t, d - 1)
        return {"k": "unw", "a": a, "d": dv, "ty": t}

    def e_arith(self, t, d):
        if self.chance(0.12):
            return unop("+" if self.chance(0.15) else "-", self.E(t, d - 1), t)
        if t == INT:
            op = self.pick([(6, "+"), (5, "-"), (4, "*"), (2, "//"), (2, "%")])
            a = self.E(INT, d - 1)
            b = self.E(INT, d - 1)
            if op in ("//", "%") and not self.chance(self.w["err"]):
                b = iexpr(self.r.choice([1, 2, 3, 5, 7, -2, -3]))
            elif op == "*" and self.chance(0.6):
                b = iexpr(self.r.choice([0, 1, 2, 3, -1, -2]))
            return binop(op, a, b, INT)
        op = self.pick([(6, "+"), (5, "-"), (4, "*"), (3, "/"), (1, "//"), (1, "%")])
        sides = self.r.choice([(REAL, REAL), (INT, REAL), (REAL, INT)] + ([(INT, INT)] if op == "/" else []))
        a, b = self.E(sides[0], d - 1), self.E(sides[1], d - 1)
        if op in ("/", "//", "%") and not self.chance(self.w["err"]):
            b = self.r.choice([ilit(2), ilit(4), ilit(1), ilit(3), ilit(10)]) if sides[1] == INT else self.r.choice([rlit(1, 2), rlit(2), rlit(1, 4), rlit(8), dlit(0.1), dlit(3.0)])
        elif op == "*" and not self.chance(self.w["far"]):
            b = self.r.choice([ilit(2), ilit(3)]) if sides[1] == INT else self.r.choice([rlit(1, 2), rlit(3, 2), rlit(2)])
        return binop(op, a, b, REAL)

    def e_cast(self, t, d):
        src = {INT: [INT, REAL, TEXTO, INDEF], REAL: [INT, REAL, TEXTO, INDEF], BOOL: [INT, REAL, TEXTO, INDEF, BOOL],
               TEXTO: [INT, REAL, BOOL, TEXTO, INDEF]}[t]
        s = self.r.choice(src)
        if s == INDEF:
            if self.chance(self.w["err"]) or not self.chance(0.7):
                a = self.E(INDEF, d - 1)
                if not self.chance(0.1 + self.w["err"]):
                    s, a = t, self.E(t, d - 1)
            else:
                a = {"k": "cast", "a": self.E(t, d - 1), "to": INDEF, "fi": False, "ty": INDEF}
        elif s == TEXTO and t in (INT, REAL):
            a = tlit(self.r.choice(["12", "-7", "+3", "0", "007", "2", "10"] + (["1.5", "-0.25", "2.0"] if t == REAL else [])
                                   + (["", "x", "1x", " 1", "9999999999999999999"] if self.chance(self.w["err"] * 3) else [])))
            if t == REAL and a["txt"] == list("9999999999999999999"):
                a = tlit("4")
        else:
            a = self.E(s, d - 1)
        return {"k": "cast", "a": a, "to": t, "fi": s == INDEF, "ty": t}

    def e_tam(self, t, d):
        vecs = [(n, md, ty) for n, (ty, ro, md) in self.visible().items() if ty[0] == "vec" and n not in self.hidden]
        if vecs and self.chance(0.7):
            n, md, ty = self.r.choice(vecs)
            a = self.varnode(n, md, ty)
        else:
            a = self.E(TEXTO, d - 1)
        return {"k": "bc", "f": "tam", "args": [a], "ty": INT}

    def e_matint(self, t, d):
        return {"k": "bc", "f": self.r.choice(["piso", "teto", "arredonda"]), "args": [self.C(REAL, d - 1)], "ty": INT}

    def e_matreal(self, t, d):
        c = self.r.random()
        if c < 0.6:
            return {"k": "bc", "f": "abs", "args": [self.C(REAL, d - 1)], "ty": REAL}
        if c < 0.8:
            return {"k": "bc", "f": "raizqd", "args": [ilit(self.r.choice([0, 1, 4, 9, 16, 100])) if self.chance(0.5) else self.C(REAL, d - 1)], "ty": REAL}
        return {"k": "bc", "f": "expoente", "args": [ilit(self.r.choice([0, 1, 2, 3])), ilit(self.r.choice([0, 1, 2, 5]))], "ty": REAL}

    def e_contem(self, t, d):
        return {"k": "bc", "f": "txt_contem", "args": [self.E(TEXTO, d - 1), self.E(TEXTO, d - 1)], "ty": BOOL}

    def e_cmp(self, t, d):
        c = self.r.random()
        if c < 0.55:
            a, b = self.r.choice([(INT, INT), (INT, INT), (REAL, REAL), (INT, REAL), (REAL, INT)])
            return binop(self.r.choice(["<", ">", "<=", ">=", "==", "!="]), self.E(a, d - 1), self.E(b, d - 1), BOOL)
        if c < 0.8:
            s = self.r.choice([BOOL, TEXTO])
            return binop(self.r.choice(["==", "!="]), self.E(s, d - 1), self.E(s, d - 1), BOOL)
        opts = [ty for _, (ty, ro, md) in self.visible().items() if ty[0] == "opt"]
        regs = [ty for _, (ty, ro, md) in self.visible().items() if ty[0] == "reg"]
        if opts and self.chance(0.7):
            o = self.r.choice(opts)
            return binop(self.r.choice(["==", "!="]), self.E(o, d - 1), nulo(), BOOL)
        if regs:
            s = self.r.choice(regs)
            return binop(self.r.choice(["==", "!="]), self.E(s, d - 1), self.E(s, d - 1), BOOL)
        return binop("==", self.E(INT, d - 1), self.E(INT, d - 1), BOOL)

    def e_logic(self, t, d):
        if self.chance(0.3):
            return unop("nao", self.E(BOOL, d - 1), BOOL)
        return binop(self.r.choice(["e", "ou"]), self.E(BOOL, d - 1), self.E(BOOL, d - 1), BOOL)

    def e_fstr(self, t, d):
        q = self.r.choice("\"'")
        parts = []
        self.no_ig += 1
        for _ in range(self.r.choice([1, 2, 2, 3, 4])):
            if self.chance(0.4):
                p = tlit(self.r.choice(["a", "= ", ", ", "ção ", "x", "1", "falso", " "]), q)
                if parts and parts[-1]["k"] == "lit" and not parts[-1].get("ex"):
                    continue
            else:
                p = self.flat_expr(self.r.choice(PRIMS), d - 1, q)
                p["ex"] = True
            parts.append(p)
        self.no_ig -= 1
        if not any(p.get("ex") for p in parts):
            p = self.base(INT, 0)
            p["ex"] = True
            parts.append(p)
        return {"k": "fstr", "q": q, "args": parts, "ty": TEXTO}

    def flat_expr(self, t, d, q):
        """For inside a f-string: no texts with its quote, no braces"""
        for _ in range(8):
            e = self.E(t, min(d, 2))
            if self.flat_ok(e, q):
                return e
        vs = self.vars_of(t)
        if vs:
            n, md = self.r.choice(vs)
            return self.varnode(n, md, t)
        if t == TEXTO:
            return {"k": "cast", "a": ilit(3), "to": TEXTO, "fi": False, "ty": TEXTO}
        return self.literal(t)

    def flat_ok(self, e, q):
        if isinstance(e, dict):
            if e.get("k") == "fstr" or e.get("k") == "ig":
                return False
            if "txt" in e:
                return False
            return all(self.flat_ok(v, q) for v in e.values())
        if isinstance(e, (list, tuple)):
            return all(self.flat_ok(v, q) for v in e)
        return True

    def e_vecn(self, t, d):
        # vec(int, a, b) makes a [[int]]
        dims = 1
        base = t[1]
        if self.chance(self.w["err"] * 0.5):
            n = unop("-", ilit(1), INT)
        else:
            n = ilit(self.r.choice([0, 1, 2, 3, 4]))
        return {"k": "vecn", "ty0": base, "args": [n], "ty": t}

    # ------------------------------------------------------------ patterns
    def bind_name(self, used):
        for _ in range(10):
            n = self.r.choice(NAMES)
            if n not in used:
                return n
        return "p%d" % len(used)

    def pattern(self, t, binds, d=1, top=False):
        if t == INT and self.chance(0.55):
            n = self.r.choice([0, 1, 2, 3, 10])
            return {"k": "lit", "v": val_int(n), "src": str(n)}
        if t == TEXTO and self.chance(0.55):
            return {"k": "lit", "txt": list(self.r.choice(["", "a", "abc", "ola", "12"]))}
        if t[0] == "uni" and (top or (d > 0 and self.chance(0.6))):
            name, ts, tag = self.r.choice(self.unis[t[1:]]["vs"])
            return self.adt(t, name, ts, tag, binds, d)
        return self.anyp(t, binds)

    def anyp(self, t, binds):
        if not binds.get("_") and self.chance(0.2):
            # a pattern can have a single _
            binds["_"] = True
            return {"k": "any", "n": "_", "ty": t}
        n = self.bind_name(set(binds) | self.busy)
        binds[n] = (t, False, None)
        return {"k": "any", "n": n, "ty": t}

    def adt(self, t, name, ts, tag, binds, d, plain=False):
        subs = [] if ts and self.chance(0.1) else [self.anyp(x, binds) if plain else self.pattern(x, binds, d - 1) for x in ts]
        return {"k": "adt", "md": t[1], "uni": t[2], "name": name, "tag": tag, "subs": subs}

    def arms(self, t, body):
        """body(binds) -> (x, stmts).  Always exhaustive."""
        out = []

        def arm(p, binds):
            b = {n: v for n, v in binds.items() if n != "_"}
            x, st = body(b)
            out.append({"p": p, "x": x, "body": st})

        if t[0] == "uni":
            if self.chance(0.5):
                vs = list(self.unis[t[1:]]["vs"])
                self.r.shuffle(vs)
                for name, ts, tag in vs:
                    while ts and self.chance(0.4):
                        b = {}
                        p = self.adt(t, name, ts, tag, b, 2)
                        arm(p, b)
                    b = {}
                    p = self.adt(t, name, ts, tag, b, 1, plain=True)
                    arm(p, b)
                return out
        for _ in range(self.r.choice([0, 1, 2, 2, 3])):
            if t in (INT, TEXTO) or t[0] == "uni":
                b = {}
                p = self.pattern(t, b, 2, top=True)
                arm(p, b)
        b = {}
        p = self.anyp(t, b)
        arm(p, b)
        return out

    def target(self, d):
        t = self.pick([(2, INT), (1.5, TEXTO)] + [(3, u) for u in self.types if u[0] == "uni"])
        return t, self.E(t, d)

    def e_ig(self, t, d):
        tt, target = self.target(d - 1)

        def body(binds):
            self.push(binds)
            if self.chance(0.75) or self.budget < 0:
                r = (self.E(t, d - 1), None)
            else:
                sv = self.loop_ok, self.ret_ok
                self.loop_ok, self.ret_ok = False, False
                st = self.block(self.r.choice([1, 2]), 1, new=False)
                st.append({"k": "prod", "a": self.E(t, d - 1)})
                self.loop_ok, self.ret_ok = sv
                r = (None, st)
            self.pop()
            return r

        return {"k": "ig", "a": target, "arms": self.arms(tt, body), "ty": t}

    # ---------------------------------------------------------- statements
    def block(self, n, d, names=None, new=True):
        if new:
            self.push(names)
        out = []
        for _ in range(n):
            s = self.stmt(d)
            out.append(s)
            if s["k"] in ("ret", "quebra", "continua"):
                break
        if new:
            self.pop()
        return out

    def stmt(self, d):
        self.budget -= 1
        w = self.w
        o = [(w["decl"], "decl"), (w["mostra"], "mostra"), (w["assign"], "assign"), (w["cas"], "cas"), (w["chain"], "chain"),
             (w["exprs"], "exprs"), (w["anexa"], "anexa"), (w["remova"], "remova")]
        if d > 0 and self.budget > 0:
            o += [(w["se"], "se"), (w["enq"], "enq"), (w["para"], "para"), (w["esc"], "esc"), (w["igs"], "igs"), (w["seig"], "seig")]
        if self.loop_ok and d < 2:
            o.append((1.5, "loopctl"))
        if self.ret_ok and self.scopes and len(self.scopes) > 1:
            o.append((w["block_ret"], "ret"))
        for _ in range(30):
            k = self.pick(o)
            s = getattr(self, "s_" + k)(d)
            if s:
                if self.chance(0.05):
                    s["skip"] = self.r.choice([1, 2])
                if self.chance(0.04):
                    s["rem"] = self.r.choice(["nota", "fim", "x: int = 3", "'\"{"])
                return s
        return {"k": "mostra", "a": ilit(1)}

    def decl(self, t):
        n = self.fresh()
        was = n in self.hidden
        self.hidden.add(n)  # a variable cannot be used in its initial value
        a = None
        if t not in PRIMS or self.chance(0.85):
            a = self.C(t, self.w["depth"])
        if not was:
            self.hidden.discard(n)
        self.declare(n, t)
        return {"k": "decl", "n": n, "ty": t, "a": a}

    def s_decl(self, d):
        if self.chance(0.08):
            t = self.prim()
            ns = []
            for _ in range(2):
                n = self.fresh()
                self.declare(n, t)
                ns.append(n)
            return {"k": "decls", "ns": ns, "ty": t}
        return self.decl(self.any_type())

    def s_mostra(self, d):
        t = self.pick([(5, self.prim()), (1, self.any_type(1))])
        return {"k": "mostra", "a": self.E(t, self.w["depth"])}

    def lvalues(self, pred):
        out = []
        for n, (ty, ro, md) in self.visible().items():
            if n in self.hidden:
                continue
            if not ro and not md and n != "alvo" and pred(ty):
                out.append((var(n, ty), ty))
            if ty[0] == "reg":
                for f, ft in self.reg_decl(ty):
                    if pred(ft):
                        out.append(({"k": "get", "a": self.varnode(n, md, ty), "n": f, "ty": ft}, ft))
            if ty[0] == "vec" and pred(ty[1]):
                out.append(({"k": "idx", "a": self.varnode(n, md, ty), "b": self.index(1), "ty": ty[1]}, ty[1]))
        return out

    def lvalue(self, pred=lambda t: True):
        ls = self.lvalues(pred)
        return self.r.choice(ls) if ls else None

    def s_assign(self, d):
        l = self.lvalue()
        if not l:
            return None
        return {"k": "expr", "a": {"k": "asg", "l": l[0], "a": self.C(l[1], self.w["depth"]), "ty": l[1]}}

    def s_chain(self, d):
        l = self.lvalue()
        if not l:
            return None
        t = l[1]
        m = self.lvalue(lambda u: u == t or (t == REAL and u == INT))
        if not m:
            return None
        inner = {"k": "asg", "l": m[0], "a": self.C(m[1], 2), "ty": m[1]}
        return {"k": "expr", "a": {"k": "asg", "l": l[0], "a": inner, "ty": t}}

    def s_cas(self, d):
        l = self.lvalue(lambda u: u in (INT, REAL))
        if not l:
            return None
        if l[1] == INT:
            op = self.pick([(4, "+"), (3, "-"), (1, "*")])
            a = self.E(INT, 2) if op != "*" else ilit(self.r.choice([1, 2, 3]))
        else:
            op = self.pick([(4, "+"), (3, "-"), (1, "*"), (1, "/")])
            a = self.E(self.r.choice([INT, REAL]), 2) if op in "+-" else self.r.choice([ilit(2), rlit(1, 2)])
        return {"k": "cas", "l": l[0], "op": op, "a": a}

    def s_exprs(self, d):
        c = self.r.random()
        if c < 0.8 and self.callable_now:
            fs = [("f", f) for f in self.funcs] + [("m", m) for m in self.mets]
            if not fs:
                return None
            k, f = self.r.choice(fs)
            return {"k": "expr", "a": self.call(f, 2) if k == "f" else self.mcall(f, 2)}
        return {"k": "expr", "a": self.E(self.prim(), 2)}

    def s_anexa(self, d):
        vs = [(n, md, ty) for n, (ty, ro, md) in self.visible().items() if ty[0] == "vec" and n not in self.hidden and n not in self.frozen]
        if not vs:
            return None
        n, md, ty = self.r.choice(vs)
        return {"k": "expr", "a": {"k": "bc", "f": "anexa", "args": [self.varnode(n, md, ty), self.C(ty[1], 2)], "ty": VAZIO}}

    def s_remova(self, d):
        vs = [(n, md, ty) for n, (ty, ro, md) in self.visible().items() if ty[0] == "vec" and n not in self.hidden]
        if not vs or not self.chance(0.6):
            return None
        n, md, ty = self.r.choice(vs)
        e = {"k": "bc", "f": "remova", "args": [self.varnode(n, md, ty), self.index(1)], "ty": ty[1]}
        if self.chance(0.5):
            return {"k": "expr", "a": e}
        return {"k": "mostra", "a": e} if ty[1] != VAZIO else None

    def s_se(self, d):
        cs = [{"c": self.E(BOOL, 2), "b": self.block(self.r.choice([1, 2, 3]), d - 1)}
              for _ in range(self.r.choice([1, 1, 1, 2, 3]))]
        el = self.block(self.r.choice([1, 2]), d - 1) if self.chance(0.5) else []
        return {"k": "se", "cs": cs, "el": el}

    def loop_body(self, n, d, names, pre=()):
        sv = self.loop_ok
        self.loop_ok = True
        self.push(names)
        b = list(pre) + self.block(n, d, new=False)
        self.pop()
        self.loop_ok = sv
        return b

    def s_enq(self, d):
        if self.loops >= 2:
            return None
        ints = self.vars_of(INT, write=True)
        if not ints:
            return None
        n, _ = self.r.choice(ints)
        # the counter may be any int variable in scope: it only gets closer
        for sc in reversed([self.globals] + self.scopes):
            if n in sc:
                home = sc
                break
        if home is self.globals and self.callable_now:
            # functions could change it
            return None
        old = home[n]
        home[n] = (INT, True, None)
        self._vis = None
        self.busy.add(n)
        self.loops += 1
        lim = self.r.choice([1, 2, 3, 4])
        step = self.r.choice([1, 1, 2])
        bound = binop("-", ilit(100), ilit(100 - lim), INT) if self.chance(0.2) else ilit(lim)
        c = binop(self.r.choice(["<", "<="]), var(n, INT), bound, BOOL)
        if self.chance(0.3):
            c = binop("e", {**c, "par": True}, self.E(BOOL, 1), BOOL)
        pre = [{"k": "cas", "l": var(n, INT), "op": "+", "a": ilit(step)}]
        b = self.loop_body(self.r.choice([1, 2, 3]), d - 1, {}, pre)
        self.loops -= 1
        self.busy.discard(n)
        home[n] = old
        self._vis = None
        # bounded below: start from something close
        init = {"k": "expr", "a": {"k": "asg", "l": var(n, INT), "a": iexpr(self.r.choice([0, 0, 1, -1, 2])), "ty": INT}}
        return {"k": "se", "cs": [{"c": blit(True), "b": [init, {"k": "enq", "c": c, "b": b}]}], "el": []}

    def s_para(self, d):
        if self.loops >= 2:
            return None
        n = self.fresh_loop()
        a = iexpr(self.r.choice([0, 0, 1, -2, 3]))
        z = self.E(INT, 1) if self.chance(0.15) else iexpr(self.r.choice([0, 1, 2, 3, 4, 5, -1]))
        if z["k"] != "lit" and z["k"] != "un":
            z = binop("%", {**z, "par": True}, ilit(6), INT)
        inc = None
        if self.chance(0.3):
            inc = ilit(self.r.choice([1, 2, 3]))
        self.loops += 1
        self.busy.add(n)
        b = self.loop_body(self.r.choice([1, 2, 3]), d - 1, {n: (INT, True, None)})
        self.busy.discard(n)
        self.loops -= 1
        return {"k": "para", "n": n, "a": a, "z": z, "inc": inc, "b": b}

    def fresh_loop(self):
        for _ in range(10):
            n = self.r.choice(NAMES + ["i", "j"])
            if n not in self.busy:
                return n
        return "i%d" % self.r.randrange(1000)

    def s_esc(self, d):
        t = self.r.choice([INT, INT, TEXTO])
        a = self.E(t, 2)
        cs = [{"c": self.E(t, 1), "b": self.block(self.r.choice([1, 2]), d - 1)} for _ in range(self.r.choice([1, 2, 3]))]
        el = self.block(1, d - 1) if self.chance(0.6) else []
        return {"k": "esc", "a": a, "cs": cs, "el": el}

    def s_igs(self, d):
        tt, target = self.target(1)

        def body(binds):
            return (None, self.block(self.r.choice([1, 2]), d - 1, names=binds))

        return {"k": "expr", "a": {"k": "ig", "a": target, "void": True, "arms": self.arms(tt, body), "ty": VAZIO}}

    def s_seig(self, d):
        tt, target = self.target(1)
        binds = {}
        p = self.pattern(tt, binds, 2, top=True)
        names = {n: v for n, v in binds.items() if n != "_"}
        b = self.block(self.r.choice([1, 2]), d - 1, names=names)
        el = self.block(1, d - 1) if self.chance(0.5) else []
        return {"k": "seig", "a": target, "p": p, "b": b, "el": el}

    def s_loopctl(self, d):
        return {"k": self.r.choice(["quebra", "continua"])}

    def s_ret(self, d):
        rt = self.in_func["rt"]
        return {"k": "ret", "a": None if rt == VAZIO else self.C(rt, 2)}

    # -------------------------------------------------------- declarations
    def fname(self, base):
        k = 1
        while True:
            n = "%s%d%s" % (base, k, self.suffix)
            if n not in self.reserved:
                self.reserved.add(n)
                return n
            k += 1

    def d_reg(self):
        n = self.fname("R")
        fs, used = [], set()
        for _ in range(self.r.choice([1, 2, 2, 3, 4])):
            f = self.r.choice(["a", "b", "c", "x", "y", "nome", "val"])
            if f in used:
                continue
            used.add(f)
            fs.append((f, self.any_type(1)))
        t = ("reg", self.mod, n)
        self.regs[t[1:]] = {"fs": fs}
        self.types.append(t)
        return {"k": "reg", "n": n, "fs": fs}

    def d_uni(self):
        n = self.fname("U")
        vs = []
        for i, v in enumerate(self.r.sample(["A", "B", "C", "D", "E"], self.r.choice([1, 2, 2, 3, 4]))):
            ts = [self.any_type(1) if self.chance(0.3) else self.prim() for _ in range(self.r.choice([0, 1, 1, 2]))]
            vs.append((v, ts, self.tags))
            self.tags += 1
        t = ("uni", self.mod, n)
        self.unis[t[1:]] = {"vs": vs}
        self.types.append(t)
        return {"k": "uni", "n": n, "vs": [(v, ts) for v, ts, _ in vs]}

    def body(self, rt, names, d=2, extra=()):
        sv = (self.scopes, self.loop_ok, self.ret_ok, self.busy, self.loops, self.frozen)
        self.scopes, self.loop_ok, self.ret_ok, self.busy, self.loops = [], False, True, set(), 0
        self.push(names)
        b = list(extra) + [self.stmt(d) for _ in range(self.r.choice([1, 2, 3, 4]))]
        if rt != VAZIO:
            if self.chance(0.3):
                self.push()
                x = [{"k": "ret", "a": self.C(rt, 2)}]
                self.pop()
                b.append({"k": "se", "cs": [{"c": self.E(BOOL, 2), "b": x}], "el": [{"k": "ret", "a": self.C(rt, 2)}]})
            else:
                b.append({"k": "ret", "a": self.C(rt, 3)})
        self.pop()
        self.scopes, self.loop_ok, self.ret_ok, self.busy, self.loops, self.frozen = sv
        self._vis = None
        return b

    def params(self, lo=0):
        ps, used = [], set()
        for _ in range(self.r.choice([0, 1, 1, 2, 2, 3])):
            n = self.r.choice(NAMES)
            if n not in used:
                used.add(n)
                ps.append((n, self.any_type()))
        return ps

    def d_func(self):
        n = self.fname("f")
        rt = VAZIO if self.chance(0.2) else self.any_type()
        key = "%s.%s" % (self.mod, n)
        f = {"n": n, "key": key, "rt": rt, "ps": self.params()}
        self.in_func = f
        names = {p: (t, False, None) for p, t in f["ps"]}
        if self.chance(0.25) and rt != VAZIO:
            # recursive: the first parameter counts down
            f["ps"] = [("q", INT)] + f["ps"]
            names["q"] = (INT, True, None)
            stop = {"k": "se", "cs": [{"c": binop("<=", var("q", INT), ilit(0), BOOL),
                                       "b": [{"k": "ret", "a": self.base(rt, 0)}]}], "el": []}
            stop["cs"][0]["b"][0]["a"] = self.only_params(rt)
            b = self.body(rt, names, extra=[stop])
            rec = {"k": "call", "f": key, "args": [binop("-", var("q", INT), ilit(1), INT)] + [var(p, t) for p, t in f["ps"][1:]], "ty": rt}
            at = 1 + self.r.randrange(len(b) - 1) if len(b) > 1 else 1
            if rt == INT:
                st = {"k": "mostra", "a": binop("+", ilit(1), rec, INT)}
            else:
                st = {"k": "mostra", "a": rec}
            # params may have been redeclared nowhere in the body's own scope
            b.insert(at, st)
            f["rec"] = True
        else:
            b = self.body(rt, names)
        self.in_func = None
        self.funcs.append(f)
        return {"k": "func", "n": n, "ps": f["ps"], "rt": rt, "b": b}

    def only_params(self, rt):
        """A value that mentions no variable (it comes first in the body)"""
        sv = self.scopes, self.globals, self.imported
        self.scopes, self.globals, self.imported = [], {}, {}
        self._vis = None
        cn, self.callable_now = self.callable_now, False
        e = self.base(rt, 0)
        self.callable_now = cn
        self.scopes, self.globals, self.imported = sv
        self._vis = None
        return e

    def d_met(self):
        own = [t for t in self.types if t[1] == self.mod] + ([self.prim()] if self.chance(0.15) else [])
        if not own:
            return None
        t = self.r.choice(own)
        tn = t[2] if t[0] in ("reg", "uni") else t[0]
        n = self.r.choice(["m1", "m2", "soma", "x1", "tam2"])
        if (t, n) in self.metnames:
            return None
        self.metnames.add((t, n))
        rt = VAZIO if self.chance(0.2) else self.any_type()
        key = "%s.%s::%s" % (self.mod, tn, n)
        m = {"n": n, "key": key, "rt": rt, "ps": self.params(), "self": t}
        self.in_func = m
        names = {p: (u, False, None) for p, u in m["ps"]}
        names["alvo"] = (t, True, None)
        b = self.body(rt, names)
        self.in_func = None
        self.mets.append(m)
        return {"k": "met", "self": t, "tn": tn, "n": n, "key": key, "ps": m["ps"], "rt": rt, "b": b}

    # ------------------------------------------------------------- modules
    def reset_module(self, name):
        self.mod = name
        self.globals, self.scopes, self.imported = {}, [], {}
        self.hidden, self.busy, self.frozen = set(), set(), set()
        self.reserved = set()
        self._vis = None
        self.loop_ok = self.ret_ok = False
        self.in_func = None
        self.no_ig = 0
        self.loops = 0
        self.callable_now = True
        self.has_mat = False

    def module(self, name, nst):
        items = []
        for _ in range(self.count(self.w["regs"] * self.r.random())):
            items.append(self.d_reg())
        for _ in range(self.count(self.w["unis"] * self.r.random())):
            items.append(self.d_uni())
        todo = ["func"] * self.count(self.w["funcs"] * self.r.random() * 1.3) + ["met"] * self.count(self.w["mets"] * self.r.random() * 1.3)
        todo += ["stmt"] * nst
        body = todo[:]
        self.r.shuffle(body)
        for k in body:
            it = {"func": self.d_func, "met": self.d_met, "stmt": lambda: self.stmt(2)}[k]()
            if it:
                items.append(it)
        return items

    def export(self, name):
        return {"globals": dict(self.globals), "funcs": [f for f in self.funcs if f["key"].startswith(name + ".")],
                "types": [t for t in self.types if t[1] == name]}

    def program(self):
        self.types, self.regs, self.unis, self.funcs, self.mets, self.metnames, self.tags = [], {}, {}, [], [], set(), 0
        mods = {}
        exports = {}
        names = []
        if self.w["mods"] > 0:
            names = ["la", "lb", "lc"][:self.r.choice([1, 2, 2, 3])]
        all_mets = []
        unique = self.chance(0.5)
        deps = {}
        for name in names + ["m"]:
            self.reset_module(name)
            self.suffix = name[1:] if unique else ""
            # what earlier modules offer
            self.funcs, self.types = [], []
            alias, direct, usas = {}, {}, []
            av = [x for x in exports]
            chosen = av if name == "m" else [x for x in av if self.chance(0.5)]
            self.r.shuffle(chosen)
            deps[name] = []
            for x in chosen:
                ex = exports[x]
                # modules imported globally share a scope with their importer
                mode = self.r.choice(["alias", "global", "global", "items"] if unique else ["alias", "items"])
                own = list(ex["globals"]) + [f["n"] for f in ex["funcs"]] + [t[2] for t in ex["types"]]
                if mode == "items" and not own:
                    mode = "alias"
                if mode == "alias":
                    al = x.upper()
                    alias[x] = al
                    usas.append({"k": "usa", "path": x + ".ama", "as": al})
                    vis = own
                    for n in ex["globals"]:
                        self.imported["%s.%s" % (al, n)] = (ex["globals"][n][0], True, x)
                elif mode == "global":
                    usas.append({"k": "usa", "path": x + ".ama"})
                    direct[x] = own
                    vis = own
                else:
                    vis = [n for n in own if self.chance(0.7) and n not in self.reserved]
                    if not vis:
                        continue
                    usas.append({"k": "usa", "path": x + ".ama", "names": vis})
                    direct[x] = vis
                deps[name].append(x)
                if mode != "alias":
                    self.reserved |= set(vis)
                    for n in ex["globals"]:
                        if n in vis:
                            self.imported[n] = (ex["globals"][n][0], True, x)
                self.funcs += [f for f in ex["funcs"] if f["n"] in vis]
                # variants and patterns of a uniao cannot be written as A.U::V
                self.types += [t for t in ex["types"] if t[2] in vis and not (mode == "alias" and t[0] == "uni")]
            self.mets = [m for m in all_mets if m["self"] in self.types or m["self"] in PRIMS and name == "m" and False]
            # values of types that cannot be named here are out of reach
            self.prune()
            self.mods_alias = alias
            nst = max(2, int(self.w["stmts"] * self.size * (0.35 if name != "m" else 1)))
            pre = []
            if self.w["mat"] > 0 and self.chance(0.12) and name == "m":
                pre.append({"k": "usa", "path": "mat"})
                self.has_mat = True
                self.reserved |= {"abs", "raizqd", "expoente", "PI", "piso", "teto", "arredonda", "sen", "cos", "tan", "log"}
            self.budget = int(160 * self.size)
            items = self.module(name, nst)
            if name == "m":
                items += self.finale()
            mods[name] = {"items": usas + pre + items, "alias": alias, "direct": direct}
            mine = [f for f in self.funcs if f["key"].startswith(name + ".")]
            exports[name] = {"globals": {n: b for n, b in self.globals.items()}, "funcs": mine,
                             "types": [t for t in self.types if t[1] == name]}
            all_mets = [m for m in all_mets if m["key"] not in {q["key"] for q in self.mets}] + self.mets
            if self.w["mods"] > 0:
                self.loosen(exports[name])
        order, seen = [], set()

        def visit(n):
            if n in seen:
                return
            seen.add(n)
            for x in deps[n]:
                visit(x)
            order.append(n)

        visit("m")
        return {"mods": {n: mods[n] for n in mods if n in seen}, "main": "m", "order": order}

    def loosen(self, ex):
        """Exported things only mention types of the module itself"""
        def own(t):
            if t[0] in ("vec", "opt"):
                return own(t[1])
            return t in PRIMS or t in (INDEF, VAZIO) or t in ex["types"]
        bad = {t for t in ex["types"] if t[0] == "reg" and not all(own(x) for _, x in self.regs[t[1:]]["fs"])
               or t[0] == "uni" and not all(own(x) for _, ts, _ in self.unis[t[1:]]["vs"] for x in ts)}
        while True:
            more = set()
            keep = [t for t in ex["types"] if t not in bad]
            ex["types"] = keep
            more = {t for t in keep if t[0] == "reg" and not all(own(x) for _, x in self.regs[t[1:]]["fs"])
                    or t[0] == "uni" and not all(own(x) for _, ts, _ in self.unis[t[1:]]["vs"] for x in ts)}
            if not more:
                break
            bad |= more
        ex["funcs"] = [f for f in ex["funcs"] if own(f["rt"]) and all(own(t) for _, t in f["ps"])]
        ex["globals"] = {n: b for n, b in ex["globals"].items() if own(b[0])}

    def prune(self):
        ok = set(self.types)

        def own(t):
            if t[0] in ("vec", "opt"):
                return own(t[1])
            return t in PRIMS or t in (INDEF, VAZIO) or t in ok
        self.funcs = [f for f in self.funcs if own(f["rt"]) and all(own(t) for _, t in f["ps"])]
        self.mets = [m for m in self.mets if own(m["rt"]) and all(own(t) for _, t in m["ps"])]
        while True:
            n = len(self.types)
            self.types = [t for t in self.types
                          if t[0] == "reg" and all(own(x) for _, x in self.regs[t[1:]]["fs"])
                          or t[0] == "uni" and all(own(x) for _, ts, _ in self.unis[t[1:]]["vs"] for x in ts)]
            ok = set(self.types)
            if len(self.types) == n:
                break
        self.funcs = [f for f in self.funcs if own(f["rt"]) and all(own(t) for _, t in f["ps"])]
        self.mets = [m for m in self.mets if m["self"] in ok and own(m["rt"]) and all(own(t) for _, t in m["ps"])]
        self.imported = {n: b for n, b in self.imported.items() if own(b[0])}
        self._vis = None

    def finale(self):
        """Show what is left in the variables of the module"""
        out = []
        for n, (t, ro, md) in list(self.globals.items()):
            if t[0] == "reg":
                for f, ft in self.reg_decl(t):
                    if ft[0] != "uni":
                        out.append({"k": "mostra", "a": {"k": "get", "a": var(n, t), "n": f, "ty": ft}})
            else:
                out.append({"k": "mostra", "a": var(n, t)})
        return out


def program(seed, profile="mix", size=1.0):
    return Gen(random.Random("%s/%s" % (profile, seed)), profile, size).program()
