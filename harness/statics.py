"""Families of programs for the static rules (AmaStatic.tla): most of them
wrong in one place.  Each function returns sources of m.ama, or dicts of files."""
import itertools

PRE = """registo R
    c: int
    t: texto
fim
registo S
    c: int
fim
uniao U2
    X,
    Y(texto)
fim
uniao U
    A,
    B(int),
    C(real, U2)
fim
func nada()
    mostra 1
fim
func f(x: int): int
    retorna x
fim
met R::soma(alvo, k: int): int
    retorna alvo.c + k
fim
met U::nome(alvo): texto
    retorna "u"
fim
met int::dobro(alvo): int
    retorna alvo * 2
fim
u2: U2 = U2::X
"""
# Type, a value of it
TYPES = [("int", "3"), ("real", "1.5"), ("bool", "verdadeiro"), ("texto", '"ab"'), ("indef", "7"), ("[int]", "[int: 1, 2]"), ("[real]", "[real: 1]"), ("R", 'R(c: 1, t: "x")'),
         ("S", "S(c: 2)"), ("U", "U::B(2)"), ("int?", "5"), ("real?", "nulo"), ("R?", "nulo"), ("[int]?", "nulo"), ("indef?", "1")]
OTHERS = ["nulo", "nada()", "nada", "f", "R", "int", "U", "U::A", "U::C", "zz", "alvo", "tam", "f(1)", "[texto: ]", '"a"', "1", "vec(int, 2)", "2.5"]
OPS = ["==", "!=", "<", ">", "<=", ">=", "+", "-", "ou", "*", "/", "//", "%", "e"]


def variables():
    return PRE + "".join("v%d: %s = %s\n" % (k, t, v) for k, (t, v) in enumerate(TYPES))


def values():
    return ["v%d" % k for k in range(len(TYPES))] + OTHERS


def operators():
    pre = variables()
    out = [pre + "mostra %s %s %s\n" % (a, op, b) for op in OPS for a in values() for b in values()]
    out += [pre + "mostra %s%s\n" % (op, a) for op in ("-", "+", "nao ") for a in values()]
    out += [pre + "%s %s %s\n" % (a, op, b) for op in ("+=", "-=", "*=", "/=") for a in values() for b in values()]
    return out


def casts():
    pre = variables()
    types = [t for t, _ in TYPES] + ["U2", "vazio", "zz", "f", "[zz]", "int?", "texto?", "bool?", "[texto]"]
    return [pre + "mostra %s:>%s\n" % (a, t) for a in values() for t in types if t != "vazio"]


SLOTS = ["x: {t} = {e}\n", "x: {t} = {v}\nx = {e}\n", "func g(p: {t})\nfim\ng({e})\n", "func g(): {t}\n    retorna {e}\nfim\n", "mostra [{t}: {e}]\n", "mostra [{t}: {v}, {e}]\n",
         "registo Q\n    a: {t}\nfim\nq: Q = Q(a: {e})\n", "registo Q\n    a: {t}\nfim\nq: Q = Q(a: {v})\nq.a = {e}\n", "w: [{t}] = [{t}: {v}]\nw[0] = {e}\n", "w: [{t}] = [{t}: ]\nanexa(w, {e})\n",
         "uniao Q\n    A({t}, int)\nfim\nq: Q = Q::A({e}, 1)\n", "met S::g(alvo, p: {t}): int\n    retorna 1\nfim\nmostra v8.g({e})\n", "o: {t}? = nulo\nmostra o.valor_ou({e})\n",
         "func g(p: {t})\n    escolha p:\n        caso {e}:\n            mostra 1\n    fim\nfim\n", "func g(p: {t}): {t}\n    p = p = {e}\n    retorna p\nfim\n",
         "func g(p: {t}): {t}\n    retorna iguala 1\n        0 => p,\n        _ => {e}\n    fim\nfim\n", "met {t}::g(alvo): int\n    retorna 1\nfim\nmostra ({e}).g()\n",
         "func g(p: {t})\n    p = {e}\n    p = {v}\nfim\n"]


def slots():
    pre = variables()
    return [pre + s.format(t=t, v=v, e=e) for s in SLOTS for t, v in TYPES for e in values() if not (t.endswith("?") and "{t}?" in s) and not (t.startswith("[") and s.startswith("met"))]


PLACES = ["se {e} entao\n    mostra 1\nfim\n", "se verdadeiro entao\n    mostra 1\nsenaose {e} entao\n    mostra 2\nfim\n", "enquanto {e} faca\n    quebra\nfim\n",
          "para i de {e}..3 faca\n    mostra i\nfim\n", "para i de 0..{e} faca\n    mostra i\nfim\n", "para i de 0..3 inc {e} faca\n    mostra i\nfim\n",
          "mostra {e}[0]\n", "mostra v5[{e}]\n", "mostra v3[{e}]\n", "v5[{e}] = 1\n", "{e}[0] = 1\n", "mostra f\"{{{e}}}\"\n", "mostra tam({e})\n", "mostra remova({e}, 0)\n", "mostra remova(v5, {e})\n",
          "anexa({e}, 1)\n", "anexa(v5, {e})\n", "escolha {e}:\n    caso 1:\n        mostra 1\nfim\n", "escolha {e}:\n    caso \"a\":\n        mostra 1\n    senao:\n        mostra 2\nfim\n",
          "iguala {e}\n    x => 1\nfim\n", "iguala {e}\n    1 => 1,\n    _ => 2\nfim\n", "iguala {e}\n    \"a\" => 1,\n    _ => 2\nfim\n", "iguala {e}\n    U::A => 1,\n    _ => 2\nfim\n",
          "iguala {e}\n    U2::X => 1,\n    _ => 2\nfim\n", "se iguala {e} => U::B(x) entao\n    mostra x\nfim\n", "mostra {e}.c\n", "mostra {e}.valor\n", "mostra {e}.valor_ou(1)\n", "mostra {e}.soma(1)\n",
          "mostra {e}.dobro()\n", "mostra {e}.nome()\n", "{e}.c = 1\n", "{e}.valor = 1\n", "{e}.soma = 1\n", "mostra {e}()\n", "mostra {e}(1)\n", "mostra {e}(x: 1)\n", "mostra f({e})\n", "mostra f(x: {e})\n",
          "{e} = 1\n", "{e} += 1\n", "mostra {e}.soma\n", "vec({e}, 1)\n", "mostra vec(int, {e})\n", "mostra tam(vec({e}, 1))\n", "leia({e})\n", "escreva({e})\n", "mostra txt_contem({e}, \"a\")\n", "mostra {e}\n", "{e}\n",
          "func g(): int\n    retorna {e}\nfim\n", "func g()\n    retorna {e}\nfim\n", "retorna {e}\n", "produz {e}\n", "mostra iguala 1\n    _ => {e}\nfim\n", "mostra U::B({e})\n", "mostra R(c: 1, t: {e})\n",
          "mostra v10 == {e}\n", "x, y: {e}\n", "mostra {e} == nulo\n", "mostra (iguala 1\n    1 => {e},\n    _ => 1\nfim)\n"]


def places():
    pre = variables()
    return [pre + p.format(e=e) for p in PLACES for e in values()]


def arities():
    out = []
    args = ["1", "1, 2", "", "x: 1", "1, x: 1", "x: 1, 1", "c: 1", "c: 1, t: \"a\"", "t: \"a\", c: 1", "c: 1, c: 1", "c: 1, z: 2", "1, \"a\"", "v3", "v5", "v5, 1", "int, 1", "int, 1, 2", "R, 1", "v3, v3"]
    for fn in ("f", "nada", "R", "U::A", "U::B", "U::C", "U::Z", "U", "v7.soma", "v9.nome", "v0.dobro", "v10.valor", "v10.valor_ou", "tam", "anexa", "remova", "vec", "leia", "escreva", "txt_contem", "int", "v0", "zz", "alvo",
               "Opcao", "(f)", "v5[0]", "f(1)", "v7.c"):
        out += [variables() + "mostra %s(%s)\n" % (fn, a) for a in args] + [variables() + "%s(%s)\n" % (fn, a) for a in args[:3]]
    return out


# ------------------------------------------------------------------ C20
def bodies(depth, fn):
    """Bodies of a function, all the ways to return or not"""
    leaf = ["retorna 1", "mostra 1", ""]
    if depth == 0:
        return leaf
    sub = bodies(depth - 1, fn)
    out = list(leaf)
    ind = lambda s: "".join("    " + l + "\n" for l in s.split("\n")) if s else ""
    for a in sub:
        out.append("enquanto p > 0 faca\n%sfim" % ind(a))
        out.append("para i de 0..2 faca\n%sfim" % ind(a))
        out.append("se p > 0 entao\n%sfim" % ind(a))
        out.append("escolha p:\n    senao:\n%sfim" % ind(a))
        out.append("iguala p\n    _ => faca\n%s    fim\nfim" % ind(a))
        out.append("se iguala p => 1 entao\n%sfim" % ind(a))
        out.append(a + "\nmostra 2")
        out.append("mostra 2\n" + a)
    few = sub if depth == 1 else sub[:3] + sub[3::5]
    for a, b in itertools.product(few, few):
        out.append("se p > 0 entao\n%ssenao\n%sfim" % (ind(a), ind(b)))
        out.append("escolha p:\n    caso 1:\n%s    senao:\n%sfim" % (ind(a), ind(b)))
        out.append("escolha p:\n    caso 1:\n%s    caso 2:\n%sfim" % (ind(a), ind(b)))
        out.append("iguala p\n    1 => faca\n%s    fim,\n    _ => faca\n%s    fim\nfim" % (ind(a), ind(b)))
        out.append("se iguala p => 1 entao\n%ssenao\n%sfim" % (ind(a), ind(b)))
        out.append("se p > 0 entao\n%ssenaose p < 0 entao\n%sfim" % (ind(a), ind(b)))
        out.append("se p > 0 entao\n%ssenaose p < 0 entao\n%ssenao\n    retorna 3\nfim" % (ind(a), ind(b)))
        out.append("iguala U::A\n    U::A => faca\n%s    fim,\n    U::B => faca\n%s    fim\nfim" % (ind(a), ind(b)))
    seen, u = set(), []
    for s in out:
        if s not in seen:
            seen.add(s)
            u.append(s)
    return u


def returns(depth=1):
    out = []
    for b in bodies(depth, "f"):
        body = "".join("    " + l + "\n" for l in b.split("\n")) if b else ""
        out.append("uniao U\n    A,\n    B\nfim\nfunc f(p: int): int\n%sfim\nmostra 1\n" % body)
        if depth == 1:
            out.append("uniao U\n    A,\n    B\nfim\nmet U::f(alvo, p: int): int\n%sfim\nmostra 1\n" % body)
            out.append("uniao U\n    A,\n    B\nfim\nfunc f(p: int)\n%sfim\nmostra 1\n" % body.replace("retorna 1", "retorna").replace("retorna 3", "retorna"))
            out.append("uniao U\n    A,\n    B\nfim\nfunc f(p: int): int\n    retorna iguala p\n        1 => 5,\n        _ => faca\n%s            produz 4\n        fim\n    fim\nfim\n" %
                       body.replace("    ", "            "))
    return out


def returned():
    """Calls of functions that return on every path end with a value"""
    out = []
    pre = "uniao U\n    A,\n    B\nfim\n"
    for b in bodies(1, "f"):
        body = "".join("    " + l + "\n" for l in b.split("\n")) if b else ""
        out.append(pre + "func f(p: int): int\n%s    retorna 9\nfim\nmostra f(0)\nmostra f(1)\nmostra f(2)\nmostra f(-1)\n" % body.replace("enquanto p > 0 faca\n", "enquanto p > 0 faca\n        p -= 1\n"))
    return out


# ------------------------------------------------------------------ C04
def scopes():
    out = []
    opens = ["se verdadeiro entao\n{b}fim\n", "se falso entao\n    mostra 0\nsenaose verdadeiro entao\n{b}fim\n", "se falso entao\n    mostra 0\nsenao\n{b}fim\n", "enquanto k < 1 faca\n    k += 1\n{b}fim\n",
             "para {n} de 0..2 faca\n{b}fim\n", "para i de 0..2 faca\n{b}fim\n", "escolha 1:\n    caso 1:\n{b}fim\n", "escolha 1:\n    senao:\n{b}fim\n", "iguala 1\n    {n} => faca\n{b}    fim\nfim\n",
             "iguala 1\n    _ => faca\n{b}    fim\nfim\n", "se iguala 1 => {n} entao\n{b}fim\n", "se iguala 1 => 2 entao\n    mostra 1\nsenao\n{b}fim\n", "func g(): int\n{b}    retorna 1\nfim\n", "func g({n}: int): int\n{b}    retorna 1\nfim\n",
             "met int::g(alvo, {n}: int): int\n{b}    retorna 1\nfim\n", "func {n}(): int\n{b}    retorna 1\nfim\n", "uniao Q\n    A(int),\n    B\nfim\niguala Q::A(3)\n    Q::A({n}) => faca\n{b}    fim,\n    Q::B => 1\nfim\n"]
    uses = ["mostra x\n", "x = 2\n", "x: int = 5\nmostra x\n", "x: texto = \"a\"\nmostra x\n", "x: int = x\nmostra x\n", "x += 1\n", "y: int = x\nx: int = y\nmostra x\n", "x, y: int\nmostra x\n", "mostra x()\n", "x: int = 1\nx: int = 2\n"]
    for o, u, before, after in itertools.product(opens, uses, ["", "x: int = 1\n", "func x(): int\n    retorna 1\nfim\n", "registo x\n    a: int\nfim\n"], ["", "mostra x\n", "x: int = 3\nmostra x\n"]):
        body = "".join("    " + l + "\n" for l in u.splitlines())
        out.append("k: int\n" + before + o.replace("{b}", body).replace("{n}", "x") + after)
    # in the same scope
    decls = ["x: int = 1\n", "x, y: int\n", "func x(): int\n    retorna 1\nfim\n", "registo x\n    a: int\nfim\n", "uniao x\n    A\nfim\n", "mostra x\n", "mostra x()\n", "mostra x(a: 1).a\n", "mostra x::A\n", "x = 1\n", "z: x = x::A\n",
             "para x de 0..1 faca\n    mostra x\nfim\n", "met x::m(alvo): int\n    retorna 1\nfim\n", "func w(a: x): int\n    retorna 1\nfim\n", "usa \"mat\" => x\n", "usa \"b\" => x\n", "usa \"b\" => [x]\n", "usa \"b\"\n"]
    for a, b in itertools.product(decls, decls):
        out.append({"m.ama": a + b, "b.ama": "x: int = 4\n"})
        if not a.startswith(("func", "usa", "met")) and not b.startswith(("func", "usa", "met")):
            out.append("func g(): int\n" + "".join("    " + l + "\n" for l in (a + b).splitlines()) + "    retorna 1\nfim\n")
            out.append("se verdadeiro entao\n" + "".join("    " + l + "\n" for l in (a + b).splitlines()) + "fim\n")
    # functions and methods inside other things
    for o in opens:
        for d in ("func h(): int\n    retorna 1\nfim\n", "met int::h(alvo): int\n    retorna 1\nfim\n", "registo H\n    a: int\nfim\nmostra H(a: 1).a\n", "uniao H\n    A\nfim\nmostra H::A\n"):
            out.append("k: int\n" + o.replace("{b}", "".join("    " + l + "\n" for l in d.splitlines())).replace("{n}", "x"))
    return out


# ------------------------------------------------------------------ C11
def exhaustive():
    """Which sets of arms cover every value"""
    out = []
    pre = "uniao V\n    P,\n    Q(int)\nfim\nuniao U\n    A,\n    B(V),\n    C(int, V)\nfim\n"
    ups = ["U::A", "U::B", "U::B(V::P)", "U::B(V::Q)", "U::B(V::Q(1))", "U::B(V::Q(n))", "U::B(_)", "U::C", "U::C(1, _)", "U::C(n, V::P)", "U::C(n, V::Q)", "U::C(2, V::Q(3))", "U::C(_, v)", "z", "_", "V::P", "1"]
    for k in (1, 2, 3):
        for c in itertools.product(ups, repeat=k):
            out.append(pre + "func f(u: U): int\n    retorna iguala u\n" + ",\n".join("        %s => %d" % (p, i) for i, p in enumerate(c)) + "\n    fim\nfim\n")
    full = ["U::A", "U::B(V::P)", "U::B(V::Q)", "U::C(1, _)", "U::C(_, V::P)", "U::C(_, V::Q(_))", "U::B(_)", "U::C"]
    for k in (4, 5, 6):
        for c in itertools.permutations(full, k):
            if hash(c) % 7 == 0 or k == 4 and hash(c) % 3 == 0:
                out.append(pre + "func f(u: U): int\n    retorna iguala u\n" + ",\n".join("        %s => %d" % (p, i) for i, p in enumerate(c)) + "\n    fim\nfim\n")
    return out


def arms():
    """What the blocks of a match give"""
    out = []
    blocks = ["1", "2.5", "\"a\"", "nulo", "nada()", "faca\n        mostra 1\n    fim", "faca\n        produz 1\n    fim", "faca\n        produz \"b\"\n    fim", "faca\n        produz 1\n        mostra 2\n    fim", "faca\n    fim",
              "faca\n        retorna 1\n    fim", "faca\n        se v > 1 entao\n            retorna 1\n        fim\n        produz 2\n    fim", "faca\n        se v > 1 entao\n            produz 3\n        fim\n    fim",
              "faca\n        quebra\n    fim", "faca\n        retorna 1\n        produz 2\n    fim", "iguala v\n        1 => 5,\n        _ => 6\n    fim"]
    uses = ["mostra {m}\n", "{m}\n", "x: int = {m}\nmostra x\n", "v = {m}\n", "mostra 1 + {m}\n"]
    for a, b in itertools.product(blocks, blocks):
        m = "iguala v\n    1 => %s,\n    _ => %s\nfim" % (a, b)
        for k, u in enumerate(uses):
            body = u.format(m=m)
            if (len(a) + len(b) + k) % 2:
                out.append("func nada()\nfim\nfunc f(v: int): int\n" + body + "retorna 0\nfim\n")
            else:
                out.append("func nada()\nfim\nv: int = 1\nenquanto verdadeiro faca\n" + body + "fim\n")
    return out


# ------------------------------------------------------------------ C12
def imports():
    out = []
    b = "x: int = 1\nfunc g(a: int): int\n    retorna a\nfim\nregisto R\n    c: int\nfim\nuniao U\n    A,\n    B(R)\nfim\nmet R::m(alvo): int\n    retorna alvo.c\nfim\n"
    uses = ["mostra x\n", "mostra {q}x\n", "x = 2\n", "{q}x = 2\n", "mostra g(1)\n", "mostra {q}g(1)\n", "r: {q}R = {q}R(c: 1)\nmostra r.m()\n", "r: R = {q}R(c: 1)\n", "mostra {q}R(c: 2).m()\n", "mostra {q}zz\n", "mostra U::A\n",
            "met R::n(alvo): int\n    retorna 1\nfim\nmostra R(c: 1).n()\n", "met {q}R::n(alvo): int\n    retorna 1\nfim\nmostra {q}R(c: 1).n()\n", "met {q}R::m(alvo): int\n    retorna 1\nfim\n", "x: int = 3\nmostra x\n",
            "func g(): int\n    retorna 1\nfim\nmostra g()\n", "registo R\n    c: texto\nfim\nmostra R(c: \"a\").c\n", "mostra {q}y\n", "mostra {q}h()\n", "mostra {q}tam(\"a\")\n", "mostra {q}int\n", "z: {q}int = 3\n", "mostra A\n", "A = 1\n",
            "w: {q}U = U::B(R(c: 4))\nmostra iguala w\n    U::A => 1,\n    U::B(r) => r.c\nfim\n", "mostra {q}x.y\n", "mostra {q}g\n", "{q}x += 1\n", "mostra {q}x + {q}g({q}x)\n"]
    for imp in ("usa \"b\"\n", "usa \"b\" => A\n", "usa \"b\" => [x]\n", "usa \"b\" => [g, R]\n", "usa \"b\" => [U, R]\n", "usa \"b\" => [x, x]\n", "usa \"b\" => [zz]\n", "usa \"b\" => [h]\n", "usa \"b\" => [y, A]\n", "usa \"b\"\nusa \"b\" => A\n",
                "usa \"b\" => A\nusa \"b\" => C\n", "usa \"b\" => A\nusa \"c\" => A\n", "usa \"b\" => [x]\nusa \"b\"\n", "usa \"b\" => [x]\nusa \"c\" => [x]\n", "usa \"b\"\nusa \"c\"\n", "usa \"c\" => A\nusa \"b\"\n", "usa \"b\" => x\n",
                "x: int = 0\nusa \"b\" => x\n", "A: int = 0\nusa \"b\" => A\n", "x: int = 0\nusa \"b\" => [x]\n", "x: int = 0\nusa \"b\"\n", "usa \"zz\"\n", "usa \"m\"\n", "usa \"m\" => A\n", "usa \"d\"\n", "usa \"d\" => A\n", "usa \"e\" => A\n",
                "usa \"b.ama\" => A\n"):
        for u in uses:
            for q in ("", "A."):
                if q == "" and "{q}" in u or q:
                    out.append({"m.ama": imp + u.format(q=q), "b.ama": b, "c.ama": "usa \"b\" => B\nx: int = 5\nh: int = B.x\n", "d.ama": "usa \"m\"\n", "e.ama": "usa \"b\"\ny: int = x\n"})
                elif "{q}" not in u:
                    out.append({"m.ama": imp + u, "b.ama": b, "c.ama": "usa \"b\" => B\nx: int = 5\nh: int = B.x\n", "d.ama": "usa \"m\"\n", "e.ama": "usa \"b\"\ny: int = x\n"})
    # graphs of three modules, every way to include
    ways = ["usa \"%s\"\n", "usa \"%s\" => Q%s\n", "usa \"%s\" => [%s1]\n"]

    def inc(to, w):
        return ways[w] % ((to,) if w == 0 else (to, to.upper() if w == 1 else to))
    edges = [("m", "a"), ("m", "b"), ("a", "b"), ("b", "a"), ("a", "m"), ("a", "a")]
    for k in (1, 2, 3):
        for es in itertools.combinations(edges, k):
            if not any(x == "m" for x, _ in es):
                continue
            for ws in itertools.product(range(3), repeat=k):
                files = {}
                for f in "mab":
                    src = "".join(inc(t, w) for (s, t), w in zip(es, ws) if s == f)
                    src += "%s1: int = 1\nfunc %s2(): int\n    retorna %s1\nfim\n" % (f, f, f)
                    if f == "m":
                        files["m.ama"] = src
                        continue
                    files[f + ".ama"] = src
                out.append(files)
                for e in ("a1", "b1", "a2()", "QA.a1", "QB.b1", "QA.QB.b1", "QA.b1", "QB.b2()", "QA.QB.b2()"):
                    out.append(dict(files, **{"m.ama": files["m.ama"] + "mostra %s\n" % e}))
    seen, u = set(), []
    for f in out:
        k = tuple(sorted(f.items()))
        if k not in seen:
            seen.add(k)
            u.append(f)
    return u


def files(c):
    return {"m.ama": c} if isinstance(c, str) else c
