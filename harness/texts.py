"""Families of programs written as source text.  Each function returns a list
of sources (or (files, input) pairs); front.py reads them for Amanda.tla."""
import itertools
import random


def indent(s, k=1):
    return "".join("    " * k + l + "\n" for l in s.splitlines())


# ------------------------------------------------------------------ C19
def jump(guard, j, v, k):
    """The jump j, taken when v is k (v an int variable)"""
    g = {
        "se": "se {v} == {k} entao\n    {j}\nfim",
        "senao": "se {v} != {k} entao\n    mostra \"s\"\nsenao\n    {j}\nfim",
        "senaose": "se {v} > 90 entao\n    mostra \"s\"\nsenaose {v} == {k} entao\n    {j}\nsenao\n    mostra \"t\"\nfim",
        "caso": "escolha {v}:\n    caso 77:\n        mostra \"w\"\n    caso {k}:\n        {j}\n    senao:\n        mostra \"x\"\nfim",
        "casosenao": "escolha {v}:\n    caso 77:\n        mostra \"w\"\n    senao:\n        se {v} == {k} entao\n            {j}\n        fim\nfim",
        "seiguala": "se iguala {v} => {k} entao\n    {j}\nsenao\n    mostra \"n\"\nfim",
        "braco": "iguala {v}\n    {k} => faca\n        {j}\n    fim,\n    outro => faca\n        mostra outro\n    fim\nfim",
        "duplo": "se {v} >= {k} entao\n    z: int = {v}\n    se z == {k} entao\n        y: int = 3\n        {j}\n    fim\nfim",
    }[guard]
    return g.format(v=v, k=k, j=j)


def loop(kind, d, body):
    v = "i%d" % d
    if kind == "enq":
        return "%s: int = 0\nenquanto %s < 3 faca\n    %s += 1\n%sfim" % (v, v, v, indent(body))
    if kind == "para":
        return "para %s de 0..3 faca\n%sfim" % (v, indent(body))
    return "para %s de 1..6 inc 2 faca\n%sfim" % (v, indent(body))


GUARDS = ["se", "senao", "senaose", "caso", "casosenao", "seiguala", "braco", "duplo"]
KINDS = ["enq", "para", "inc"]
JUMPS = ["quebra", "continua"]


def place(body, where):
    tail = "\nmostra \"fim\"\n"
    if where == "global":
        return body + tail
    if where == "func":
        return "func f(p: int): int\n" + indent("q: int = 7\n" + body + tail + "retorna p + q") + "fim\nmostra f(1)\nmostra f(2)\n"
    if where == "met":
        return ("registo R\n    c: int\nfim\nmet R::f(alvo, p: int)\n" + indent("q: int = 7\n" + body + tail + "mostra p + q + alvo.c") +
                "fim\nr: R = R(c: 4)\nr.f(1)\nr.f(2)\n")
    if where == "bloco":
        return "se verdadeiro entao\n" + indent("q: int = 7\n" + body + "\nmostra q") + "fim" + tail
    raise Exception(where)


def loops():
    """Two nested loops, each with a jump, the inner one before or after the
    jump of the outer one; and single loops."""
    out = []
    inner = [None] + list(itertools.product(KINDS, GUARDS, JUMPS))
    outer = list(itertools.product(KINDS, GUARDS, JUMPS))
    k = 0
    for (ko, go, jo), i in itertools.product(outer, inner):
        for after in (False, True) if i else (False,):
            k += 1
            pieces = ["mostra \"a\"", "mostra i1"]
            jmp = jump(go, jo, "i1", 1 if ko != "para" else k % 2)
            if i:
                ki, gi, ji = i
                inn = loop(ki, 2, "mostra i2 + 10\n" + jump(gi, ji, "i2", 1) + "\nmostra i2 + i1 + 20")
                pieces += ([jmp, inn] if not after else [inn, jmp])
            else:
                pieces.append(jmp)
            pieces.append("mostra \"b\"\nmostra i1")
            body = loop(ko, 1, "\n".join(pieces))
            out.append(place(body, ["global", "func", "met", "bloco"][k % 4]))
    return out


def jumps_in_values():
    """Jumps out of the blocks of a match whose value is being used"""
    out = []
    for ctx, kind, j in itertools.product(
            ["mostra {e}", "t += {e}", "mostra 100 + {e}", "mostra g(5, {e})", "v[0] = {e}", "mostra [int: 7, {e}]", "mostra f\"{{t}} fim\"\nmostra {e} * 2 + t",
             "se {e} > 1 entao\n    mostra \"maior\"\nfim", "x: int = {e}\nmostra x", "v[{e} % 2] = t", "mostra v[{e} % 2]", "anexa(v, {e})", "r.c = {e}",
             "mostra R(c: {e}).c", "mostra iguala {e}\n    0 => 10,\n    n => n * 2\nfim"], KINDS, JUMPS):
        e = "(iguala i1\n    1 => faca\n        w: int = 4\n        se w > 3 entao\n            %s\n        fim\n        produz w\n    fim,\n    n => n + 1\nfim)" % j
        body = "mostra i1\n" + ctx.format(e=e) + "\nmostra tam(v)"
        if kind == "enq":
            lp = "i1: int = 0 - 1\nenquanto i1 < 3 faca\n    i1 += 1\n" + indent(body) + "fim"
        else:
            lp = loop(kind, 1, body)
        pre = "registo R\n    c: int\nfim\nfunc g(a: int, b: int): int\n    retorna a * 10 + b\nfim\n"
        run = "t: int = 0\nv: [int] = [int: 5, 6]\nr: R = R(c: 1)\n" + lp + "\nmostra t\nmostra v\nmostra r.c"
        out.append(pre + run + "\n")
        out.append(pre + "func h(): int\n" + indent(run + "\nretorna t") + "fim\nmostra h() + h()\n")
    return out


def ranges():
    out = []
    vals = [-3, -1, 0, 1, 2, 3, 5]
    for a, z in itertools.product(vals, vals):
        body = "".join("para i de %d..%d%s faca\n    mostra i\nfim\nmostra \"-\"\n" % (a, z, i)
                       for i in ("", " inc 1", " inc 2", " inc 3", " inc 7"))
        out.append(body)
    big = 2 ** 63 - 1
    for a, i in ((big - 2, ""), (big - 5, " inc 3"), (big - 5, " inc 5"), (big - 4, " inc %d" % big), (0, " inc %d" % big)):
        out.append("para i de %d..%d%s faca\n    mostra i\nfim\nmostra \"fim\"\n" % (a, big, i))
    # the limits are evaluated again every time
    out.append("n: int = 5\npara i de 0..n faca\n    n -= 1\n    mostra i\nfim\nmostra n\n")
    out.append("n: int = 1\npara i de 0..20 inc n faca\n    n += 1\n    mostra i\nfim\nmostra n\n")
    out.append("func l(k: int): int\n    mostra k\n    retorna k\nfim\npara i de l(0)..l(4) inc l(2) faca\n    mostra i + 100\nfim\n")
    out.append("func l(k: int): int\n    mostra k\n    retorna k\nfim\npara i de l(0)..l(3) faca\n    i += 1\n    mostra i + 100\nfim\n")
    return out


def choices():
    out = []
    for n in (1, 2, 3, 4):
        for els in (False, True):
            src = "func f(x: int): int\n    r: int = 0\n    escolha x:\n"
            for k in range(n):
                src += "        caso %d:\n            r = %d\n            mostra \"c%d\"\n" % (k % 3, 10 + k, k)
            src += ("        senao:\n            r = 99\n" if els else "") + "    fim\n    retorna r\nfim\n"
            out.append(src + "".join("mostra f(%d)\n" % k for k in range(-1, 5)))
            src = "func f(x: texto): int\n    r: int = 0\n    escolha x:\n"
            for k in range(n):
                src += "        caso \"%s\":\n            r = %d\n" % ("abc"[:k % 3 + 1], 10 + k)
            src += ("        senao:\n            r = 99\n" if els else "") + "    fim\n    retorna r\nfim\n"
            out.append(src + "".join("mostra f(\"%s\")\n" % k for k in ("", "a", "ab", "abc", "abcd", "A")))
    for n in (1, 2, 3):
        for els in (False, True):
            for truth in itertools.product((0, 1), repeat=n):
                src = "func c(k: int, b: int): bool\n    mostra k\n    retorna b == 1\nfim\n"
                for k in range(n):
                    src += "%s c(%d, %d) entao\n    mostra \"r%d\"\n" % ("se" if k == 0 else "senaose", k, truth[k], k)
                src += ("senao\n    mostra \"s\"\n" if els else "") + "fim\nmostra \"fim\"\n"
                out.append(src)
    # cases are evaluated in order until one applies, the value only once
    out.append("func c(k: int): int\n    mostra k\n    retorna k\nfim\nescolha c(2):\n    caso c(1):\n        mostra \"um\"\n    caso c(2):\n        mostra \"dois\"\n    caso c(3):\n        mostra \"tres\"\nfim\n")
    out.append("func c(k: int): int\n    mostra k\n    retorna k\nfim\nescolha c(2):\n    caso c(2):\n        escolha c(5):\n            caso 4:\n                mostra \"x\"\n            senao:\n                mostra \"y\"\n        fim\n    caso c(2):\n        mostra \"dois\"\nfim\nmostra 1\n")
    return out


# ------------------------------------------------------------------ C04
def many_locals(deep=True):
    """More variables in one frame than fit in a byte"""
    out = []
    for n in (1, 2, 3, 127, 128, 254, 255, 256, 257, 258, 300, 513) if deep else (2, 255, 256, 257):
        decl = "".join("v%d: int = %d\n" % (k, k * 3) for k in range(n))
        sums = "s: int = 0\n" + "".join("s = s * 3 %% 1000003 + v%d\n" % k for k in range(n)) + "mostra s\n"
        some = "".join("mostra v%d\n" % k for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))))
        out.append("func f(): int\n" + indent(decl + sums + some + "retorna s") + "fim\nmostra f()\n")
        out.append("se verdadeiro entao\n" + indent(decl + sums + some) + "fim\n")
        # nested blocks, one variable each
        if n <= 128:
            src, tail = "", ""
            for k in range(n):
                src += "se verdadeiro entao\n    v%d: int = %d\n" % (k, k * 3)
                tail += "    mostra v%d\nfim\n" % (n - 1 - k)
            out.append(src + tail)
            out.append("func f(p: int)\n" + src + tail + "mostra p\nfim\nf(4)\n")
        # parameters and variables together
        p = min(n, 255)
        args = ", ".join("a%d: int" % k for k in range(p))
        vals = ", ".join(str(k * 7) for k in range(p))
        body = decl + "t: int = 0\n" + "".join("t = t * 3 %% 1000003 + a%d\n" % k for k in range(p)) + sums
        out.append("func f(%s): int\n" % args + indent(body + "mostra t\nretorna t - s") + "fim\nmostra f(%s)\n" % vals)
        if n <= 254:
            out.append("registo R\n    c: int\nfim\nmet R::f(alvo, %s): int\n" % args + indent(body + "mostra t\nretorna t - s + alvo.c") +
                       "fim\nr: R = R(c: 5)\nmostra r.f(%s)\n" % vals)
        # a second block takes the place of the first one
        out.append("func f(): int\n    k: int = 1\n    se verdadeiro entao\n" + indent(decl + sums, 2) + "    fim\n    se verdadeiro entao\n" +
                   indent(decl.replace(" = ", " = 1 + ") + sums, 2) + "    fim\n    retorna k\nfim\nmostra f()\n")
        # a match, a loop and a choice, whose hidden variables come after many
        out.append("func f(q: int): int\n" + indent(
            decl + "para i de 0..2 faca\n    w: int = i + q\n    mostra w\n    mostra iguala w\n        0 => 5,\n        x => x + v0\n    fim\n"
            "    escolha w:\n        caso 1:\n            y: int = 4\n            mostra y\n        senao:\n            mostra \"s\"\n    fim\nfim\n" + sums + some + "retorna s") +
            "fim\nmostra f(0)\nmostra f(1)\n")
    for n in (1, 255, 256, 257, 300):
        # the globals of a module and its constants
        decl = "".join("g%d: int = %d\n" % (k, k + 1000) for k in range(n))
        out.append(decl + "".join("mostra g%d\n" % k for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))) +
                   "".join("g%d = g%d + 1\n" % (k, (k + 1) % n) for k in range(n)) +
                   "s: int = 0\n" + "".join("s = s * 3 %% 1000003 + g%d\n" % k for k in range(n)) + "mostra s\n")
    return out


def shadows():
    """The same name declared at the levels of every subset of a nest of
    blocks, assigned and read at every level"""
    out = []
    heads = [("se verdadeiro entao", "fim"), ("para k{d} de 0..1 faca", "fim"), ("enquanto tam(u) < {d} faca\n    anexa(u, 1)", "fim"),
             ("iguala 5\n    _ => faca", "    fim\nfim"), ("se iguala 4 => {n} entao", "fim"), ("escolha 3:\n    caso 3:", "fim"), ("para {n} de 0..1 faca", "fim")]
    depth = 3
    k = 0
    for kinds in itertools.product(range(len(heads)), repeat=depth):
        for mask in range(2 ** (depth + 1)):
            k += 1
            def level(d):
                s = ""
                declares = mask >> d & 1
                bound = d > 0 and kinds[d - 1] in (4, 6)
                if d > 0 and bound:
                    s += "mostra x\n"
                if declares and not bound:
                    s += "mostra x\nx: int = %d\n" % (10 * (d + 1))
                s += "x += %d\nmostra x\n" % (d + 1)
                if d < depth:
                    h, t = heads[kinds[d]]
                    s += h.format(d=d + 1, n="x") + "\n" + indent(level(d + 1), 2) + t + "\n"
                s += "x += 100\nmostra x\n"
                return s
            body = "u: [int] = [int:]\n"
            if k % 2:
                out.append("x: int = 1\n" + "func f(x: int)\n    u: [int] = [int:]\n    se verdadeiro entao\n" + indent(level(0), 2) + "    fim\n    mostra x\nfim\nf(1)\nmostra x\n")
            else:
                out.append("x: int = 1\nu: [int] = [int:]\nse verdadeiro entao\n" + indent(level(0)) + "fim\nmostra x\n")
    return out


# ------------------------------------------------------------------ C05
def recursion():
    out = []
    for n in (1, 2, 10, 255, 256, 257, 500, 996, 997, 998, 999, 1000, 1001, 1500):
        out.append("func f(n: int): int\n    se n <= 1 entao\n        retorna 1\n    fim\n    retorna 1 + f(n - 1)\nfim\nmostra f(%d)\n" % n)
        out.append("func f(n: int): int\n    se n <= 1 entao\n        retorna 1\n    fim\n    retorna 1 + f(n - 1)\nfim\nfunc g(n: int): int\n    a: int = 5\n    b: int = f(n)\n    retorna a + b\nfim\nmostra g(%d)\n" % n)
        out.append("c: int = 0\nfunc f()\n    c += 1\n    se c < %d entao\n        f()\n    fim\nfim\nf()\nmostra c\n" % n)
        out.append("func f(n: int)\n    a: int = n * 2\n    se n > 1 entao\n        f(n - 1)\n    fim\n    se a %% 50 == 0 entao\n        mostra a + n\n    fim\nfim\nf(%d)\nmostra \"fim\"\n" % n)
        out.append("registo R\n    c: int\nfim\nfunc f(r: R, n: int): int\n    se n <= 1 entao\n        retorna r.c\n    fim\n    retorna f(r, n - 1)\nfim\nmet R::m(alvo, n: int): int\n    retorna f(alvo, n)\nfim\nr: R = R(c: 7)\nmostra r.m(%d)\n" % n)
        out.append("func f(n: int): int\n    para i de 0..1 faca\n        se n > 1 entao\n            retorna f(n - 1) + i\n        fim\n    fim\n    retorna n\nfim\nmostra f(%d)\nmostra f(3)\n" % n)
    return out


def call_shapes():
    out = []
    for n in (0, 1, 2, 3, 10, 127, 128, 129, 200, 253, 254, 255):
        ps = ", ".join("p%d: int" % k for k in range(n))
        for shift in (0, 1):
            vals = ", ".join(str((k * 37 + shift) % 1009) for k in range(n))
            body = "s: int = 1\n" + "".join("s = (s * 31 + p%d) %% 1000003\n" % k for k in range(n))
            out.append("func f(%s): int\n" % ps + indent(body + "retorna s") + "fim\na: int = 3\nmostra f(%s)\nmostra a + f(%s) * 2\n" % (vals, vals))
        if n <= 254:
            out.append("registo R\n    c: int\nfim\nmet R::f(alvo%s): int\n" % (", " + ps if ps else "") + indent(body + "retorna s + alvo.c") +
                       "fim\nr: R = R(c: 3)\nmostra r.f(%s)\n" % vals)
    # arguments that are calls themselves, with operands pending
    f = "func t(k: int): int\n    mostra k\n    retorna k\nfim\nfunc f(a: int, b: int, c: int): int\n    x: int = a * 100 + b * 10 + c\n    mostra x\n    retorna x % 10\nfim\n"
    for e in ("f(t(1), t(2), t(3))", "f(f(1, 2, 3), f(4, 5, 6), f(7, 8, 9))", "t(9) + f(t(1), f(t(2), t(3), t(4)), t(5)) * t(6)",
              "f(t(1) + f(1, 1, 2), t(2) - t(1), [int: t(4), t(5)][t(1)])", "t(t(t(t(3))))", "f(1, f(2, f(3, f(4, 5, 6), 7), 8), 9)"):
        out.append(f + "mostra %s\n" % e)
        out.append(f + "func g(q: int): int\n    z: int = q + 1\n    w: int = %s\n    retorna z * 1000 + w\nfim\nmostra g(4)\nmostra g(5) + g(6)\n" % e)
    # results of every type, and functions that give nothing
    for ty, v in (("int", "4"), ("real", "4"), ("real", "2.5"), ("texto", "\"ola\""), ("bool", "verdadeiro"), ("[int]", "[int: 1, 2]"), ("int?", "nulo"), ("int?", "3"),
                  ("indef", "8"), ("R", "R(c: 2)"), ("U", "U::A"), ("U", "U::B(3)"), ("[real]", "[real: 1]"), ("R?", "R(c: 3)"), ("R?", "nulo")):
        pre = "registo R\n    c: int\nfim\nuniao U\n    A,\n    B(int)\nfim\n"
        out.append(pre + "func f(): %s\n    retorna %s\nfim\nfunc g(x: %s): %s\n    y: %s = x\n    retorna y\nfim\na: %s = f()\nb: %s = g(g(f()))\nmostra a\nmostra b\nmostra g(%s)\n" % (ty, v, ty, ty, ty, ty, ty, v))
    # the early ends of a function
    out.append("func f(n: int)\n    se n == 1 entao\n        mostra \"um\"\n        retorna\n    fim\n    para i de 0..3 faca\n        se i == n - 2 entao\n            retorna\n        fim\n        mostra i\n    fim\n    mostra \"fim\"\nfim\nf(0)\nf(1)\nf(2)\nf(3)\nf(4)\n")
    out.append("func f(n: int): int\n    enquanto verdadeiro faca\n        n += 1\n        para i de 0..n faca\n            se i * n > 20 entao\n                retorna i * 100 + n\n            fim\n        fim\n    fim\n    retorna 0\nfim\nmostra f(0)\nmostra f(7) + f(30)\n")
    out.append("func f(n: int): texto\n    escolha n:\n        caso 1:\n            retorna \"um\"\n        caso 2:\n            retorna \"dois\"\n        senao:\n            retorna iguala n\n                3 => \"tres\",\n                k => f\"{k}?\"\n            fim\n    fim\nfim\nmostra f(1)\nmostra f(2)\nmostra f(3)\nmostra f(4)\n")
    # frames keep their own variables
    out.append("func f(n: int): int\n    a: int = n\n    b: int = 0\n    se n > 0 entao\n        c: int = n * 2\n        b = f(n - 1)\n        mostra c\n    fim\n    mostra a\n    retorna a + b\nfim\nmostra f(5)\n")
    out.append("func f(n: int): int\n    se n < 2 entao\n        retorna n\n    fim\n    retorna f(n - 1) + f(n - 2)\nfim\nmostra f(12)\n")
    out.append("func a(m: int, n: int): int\n    se m == 0 entao\n        retorna n + 1\n    senaose n == 0 entao\n        retorna a(m - 1, 1)\n    senao\n        retorna a(m - 1, a(m, n - 1))\n    fim\nfim\nmostra a(2, 3)\n")
    return out


# ------------------------------------------------------------------ C07
INTS = {            # expressions of type int with the value 7
    "literal": "7", "variavel": "i", "global": "g", "soma": "(3 + 4)", "negativo": "(-(-7))", "mais": "(+7)", "funcao": "f(7)", "metodo": "r.m()", "campo": "r.c",
    "indice": "v[1]", "linha": "w[0][1]", "iguala": "(iguala 1\n    1 => 7,\n    _ => 8\nfim)", "bloco": "(iguala i\n    1 => 1,\n    n => faca\n        z: int = n\n        produz z\n    fim\nfim)",
    "conversao": "(7.9:>int)", "texto": "(\"7\":>int)", "indef": "(q:>int)", "valor": "o.valor", "valor_ou": "n.valor_ou(7)", "tam": "tam(\"abcdefg\")", "quociente": "(15 // 2)", "resto": "(17 % 10)",
    "remova": "remova([int: 1, 7], 1)", "piso": "M.piso(7.5)", "modulo": "A.k", "funcmodulo": "A.h()", "parametro": "p", "alvo_campo": "s.c", "produto": "7 * 1", "valoru": "(iguala u\n    U::B(x) => x,\n    _ => 0\nfim)",
}
REALS = {           # places where a real is expected; {e} is the int
    "decl": "x: real = {e}\nmostra x\nmostra x / 2\nmostra x // 2", "atribui": "x: real\nx = {e}\nmostra x\nmostra x / 2",
    "argumento": "mostra ar({e})", "segundo": "mostra ar2(1.5, {e}, 2)", "metodo": "mostra r.ar({e})", "retorna": None, "retornamet": None,
    "vector": "x: [real] = [real: 1.5, {e}, {e}]\nmostra x\nmostra x[1] / 2", "indice": "x: [real] = [real: 1.5]\nx[0] = {e}\nmostra x\nmostra x[0] / 2",
    "anexa": "x: [real] = [real:]\nanexa(x, {e})\nmostra x\nmostra x[0] / 2", "registo": "x: S = S(a: {e}, b: 1)\nmostra x.a\nmostra x.b\nmostra x.a / 2",
    "campo": "x: S = S(a: 0.5, b: 0.5)\nx.a = {e}\nmostra x.a\nmostra x.a / 2", "uniao": "x: U = U::C({e}, {e})\nmostra iguala x\n    U::C(a, b) => f\"{a} {b} {a / 2}\",\n    _ => \"?\"\nfim".replace("{a", "{{a").replace("{b", "{{b").replace("a}", "a}}").replace("b}", "b}}").replace("2}", "2}}"),
    "opcional": "x: real? = {e}\nmostra x\nmostra x.valor / 2", "opcatr": "x: real? = nulo\nx = {e}\nmostra x\nmostra x.valor / 2",
    "valor_ou": "x: real? = nulo\nmostra x.valor_ou({e})\ny: real? = 0.5\nmostra y.valor_ou({e})", "cadeia": "x: real\ny: real\nx = y = {e}\nmostra x\nmostra y",
    "mais": "mostra 0.5 + {e}\nmostra {e} + 0.5", "menos": "mostra 0.5 - {e}\nmostra {e} - 0.5", "vezes": "mostra 0.5 * {e}\nmostra {e} * 0.5",
    "divide": "mostra 3.5 / {e}\nmostra {e} / 0.5\nmostra {e} / 2\nmostra {e} / {e}", "quociente": "mostra 14.5 // {e}\nmostra {e} // 0.5", "resto": "mostra 9.5 % {e}\nmostra {e} % 2.5",
    "compara": "mostra 6.5 < {e}\nmostra {e} <= 7.0\nmostra {e} > 7.5\nmostra 7.0 >= {e}", "igual": "mostra 7.0 == {e}\nmostra {e} != 7.0\nmostra {e} == 7.5",
    "composto": "x: real = 0.5\nx += {e}\nmostra x\nx -= {e}\nmostra x\nx *= {e}\nmostra x\nx /= {e}\nmostra x",
    "compcampo": "x: S = S(a: 0.5, b: 0.5)\nx.a += {e}\nmostra x.a\nx.a /= {e}\nmostra x.a", "compindice": "x: [real] = [real: 0.5]\nx[0] += {e}\nmostra x\nx[0] /= {e}\nmostra x",
    "inteira": "y: int = {e}\ny /= 2\nmostra y", "lib": "mostra M.abs({e})\nmostra M.piso({e})", "opcparam": "mostra aopc({e})", "opcvec": "x: [real?] = [real?: nulo, {e}]\nmostra x\nanexa(x, {e})\nx[0] = {e}\nmostra x",
    "opcregisto": "x: T = T(a: {e})\nmostra x.a\nx.a = {e}\nmostra x.a", "converte": "mostra ({e}):>real\nmostra (({e}):>real) / 2\nx: real? = ({e}):>real?\nmostra x",
    "opcuniao": "x: U = U::D({e})\nmostra iguala x\n    U::D(a) => a.valor,\n    _ => 0.5\nfim", "vecuniao": "x: [real] = [real: {e}]\nu2: U = U::E([real: {e}, 1])\nmostra iguala u2\n    U::E(a) => a,\n    _ => x\nfim",
    "aninhado": "x: [[real]] = [[real]: [real: {e}], [real: 1, {e}]]\nmostra x\nx[0][0] = {e}\nx[1] = [real: {e}, {e}]\nmostra x", "fstring": "x: real = {e}\nmostra f\"<{{x}}>\"\nmostra x:>texto\nmostra f\"{{x + {e}}}\"",
    "param": "mostra ap({e})", "indef": "x: real = {e}\ny: indef = x\nmostra y\nmostra y:>real\nmostra (y:>real) / 2",
}
BAD = {("inteira", None)}


def promotions():
    pre = ("usa \"mat\" => M\nusa \"a.ama\" => A\nuniao U\n    A,\n    B(int),\n    C(real, real),\n    D(real?),\n    E([real])\nfim\nregisto R\n    c: int\nfim\n"
           "registo S\n    a, b: real\nfim\nregisto T\n    a: real?\nfim\n"
           "func f(x: int): int\n    retorna x\nfim\nmet R::m(alvo): int\n    retorna alvo.c\nfim\nmet R::ar(alvo, x: real): real\n    mostra x\n    retorna x / 2\nfim\n"
           "func ar(x: real): real\n    mostra x\n    retorna x / 2\nfim\nfunc ar2(a: real, x: real, b: real): texto\n    retorna f\"{a} {x} {b} {x / 2}\"\nfim\n"
           "func aopc(x: real?): real\n    mostra x\n    retorna x.valor / 2\nfim\nfunc ap(x: real): real\n    y: real = x\n    x = 7\n    mostra y\n    retorna x\nfim\ng: int = 7\nu: U = U::B(7)\n")
    loc = "i: int = 7\nr: R = R(c: 7)\ns: R = r\nv: [int] = [int: 1, 7]\nw: [[int]] = [[int]: v]\nq: indef = 7\no: int? = 7\nn: int? = nulo\np: int = 7\n"
    mod = "k: int = 7\nfunc h(): int\n    retorna k\nfim\n"
    out = []
    n = 0
    for (en, e), (pn, t) in itertools.product(INTS.items(), REALS.items()):
        n += 1
        if pn == "inteira":
            continue
        if "\n" in e and pn == "fstring":
            continue
        if pn == "fstring" and '"' in e:
            continue
        if t is None:
            head = "func k9(p: int): real\n" if pn == "retorna" else "met S::k9(alvo, p: int): real\n"
            src = pre + loc + head + indent(loc.replace("p: int = 7\n", "") + "se p < 0 entao\n    retorna 0.5\nfim\nretorna " + e) + "fim\n"
            c = "k9(7)" if pn == "retorna" else "S(a: 1, b: 2).k9(7)"
            src += "x: real = %s\nmostra x\nmostra %s / 2\n" % (c, c)
        else:
            body = t.format(e=e)
            if n % 2:
                src = pre + loc + body + "\n"
            else:
                src = pre + "func k9(p: int)\n" + indent(loc.replace("p: int = 7\n", "") + body) + "fim\nk9(7)\n"
        out.append({"m.ama": src, "a.ama": mod})
    return out


# ------------------------------------------------------------------ C08
def vec_ops(sizes):
    ops = []
    for t in ("a", "b", "c"):
        ops += ["anexa(%s, {n})" % t, "%s[0] = {n}" % t, "mostra tam(%s)" % t, "%s[1] += {n}" % t, "mostra remova(%s, 0)" % t, "%s[tam(%s) - 1] = {n}" % (t, t)]
    ops += ["b = a", "c = a", "a = [int: {n}, {n}]", "c = b", "trocado(a, {n})", "mostra remova(a, tam(a) - 1)", "c = dobro(b)", "m[0] = a", "m[1][0] = {n}", "mostra m[0][tam(m[0]) - 1]",
            "anexa(m, b)", "b = m[1]", "mostra a[1] + b[0]", "m[0] = remova(m, 1)", "r.v = a", "r.v[0] = {n}", "anexa(r.v, {n})", "b = r.v"]
    return ops


def vec_histories(count, seed, length=7):
    rng = random.Random(seed)
    pre = ("registo R\n    v: [int]\nfim\nfunc trocado(v: [int], n: int)\n    v[0] = n\n    v = [int: n, n, n]\n    v[1] = 0\nfim\n"
           "func dobro(v: [int]): [int]\n    w: [int] = [int:]\n    para i de 0..tam(v) faca\n        anexa(w, v[i] * 2)\n    fim\n    retorna w\nfim\n")
    ini = "a: [int] = [int: 1, 2]\nb: [int] = vec(int, 2)\nc: [int] = a\nm: [[int]] = vec(int, 2, 2)\nr: R = R(v: [int: 3])\n"
    ops = vec_ops(2)
    out = []
    for _ in range(count):
        n = 10
        body = ""
        for _ in range(length):
            n += 1
            body += rng.choice(ops).format(n=n) + "\n"
            if rng.random() < 0.5:
                body += "mostra a\n" + rng.choice(["mostra b\n", "mostra c\n", "mostra m\n", "mostra r.v\n"])
        body += "mostra a\nmostra b\nmostra c\nmostra m\nmostra r.v\n"
        src = pre + ini + body
        if rng.random() < 0.3:
            src = pre + "func h()\n" + indent(ini + body) + "fim\nh()\n"
        out.append(src)
    return out


def vec_bounds():
    """Every operation at every index around the bounds"""
    out = []
    for size in (0, 1, 2, 3):
        el = ", ".join(str(10 + k) for k in range(size))
        for i in (-(2 ** 62), -2, -1, 0, size - 2, size - 1, size, size + 1, 2 ** 31, 2 ** 32, 2 ** 62, 2 ** 63 - 1):
            if size > 0 or i in (-1, 0, 1):
                for op in ("mostra v[{i}]", "v[{i}] = 5", "mostra remova(v, {i})", "v[{i}] += 1", "x: int\nx = v[{i}] = 4\nmostra x"):
                    idx = str(i) if i >= 0 else "(%d)" % i if False else "0 - %d" % -i
                    out.append("v: [int] = [int: %s]\nmostra v\n" % el + op.format(i=idx) + "\nmostra v\nmostra tam(v)\n")
                t = "abcdef"[:size]
                out.append("t: texto = \"%s\"\nmostra tam(t)\nmostra t[%s]\nmostra t\n" % (t, str(i) if i >= 0 else "0 - %d" % -i))
    for dims in itertools.product((0, 1, 2, 3), repeat=2):
        src = "m: [[int]] = vec(int, %d, %d)\nmostra m\nmostra tam(m)\n" % dims
        src += "n: int = 1\npara i de 0..%d faca\n    para j de 0..%d faca\n        m[i][j] = n\n        n += 1\n    fim\nfim\nmostra m\n" % dims
        out.append(src + ("anexa(m[0], 9)\nm[%d] = [int: 8]\nmostra m\nmostra m[%d][%d]\n" % (dims[0] - 1, dims[0] - 1, dims[1]) if dims[0] else "mostra m[0]\n"))
    for dims in itertools.product((1, 2), repeat=3):
        src = "m: [[[texto]]] = vec(texto, %d, %d, %d)\nm[0][0][0] = \"x\"\nmostra m\n" % dims
        out.append(src + "m[%d][%d][%d] = \"y\"\nmostra m\nmostra tam(m[0][0])\n" % tuple(d - 1 for d in dims))
    for ty in ("int", "real", "bool", "texto"):
        out.append("v: [%s] = vec(%s, 3)\nmostra v\nmostra v[1]\nmostra tam(v)\nw: [[%s]] = vec(%s, 2, 1)\nw[0][0] = v[2]\nmostra w\n" % (ty, ty, ty, ty))
    for n in ("0", "0 - 1", "1", "2 ** 1" if False else "2", "0 - %d" % 2 ** 62):
        out.append("mostra vec(int, %s)\n" % n)
        out.append("mostra vec(int, 2, %s)\n" % n)
        out.append("mostra vec(int, %s, 0 - 1)\n" % n)
    for k in (0, 1, 2, 100, 253, 254, 255):
        src = "v: [int] = [int: %s]\nmostra v\nmostra tam(v)\n" % ", ".join(str(j) for j in range(k))
        out.append(src + ("anexa(v, 4)\nmostra v[%d] * 10 + remova(v, 0)\nmostra v\n" % (k // 2)))
    return out


# ------------------------------------------------------------------ C09
def records():
    out = []
    for n in (1, 2, 3, 4):
        fs = ["f%d" % k for k in range(n)]
        for perm in itertools.permutations(range(n)):
            src = "func t(k: int): int\n    mostra k\n    retorna k * 10\nfim\nregisto R\n" + "".join("    %s: %s\n" % (f, "int" if k % 2 == 0 else "real") for k, f in enumerate(fs)) + "fim\n"
            init = "R(" + ", ".join("f%d: t(%d)" % (k, k) for k in perm) + ")"
            src += "r: R = %s\n" % init + "".join("mostra r.%s\n" % f for f in fs)
            src += "s: R = r\nq: R = %s\n" % init + "".join("s.f%d = %d\n" % (k, 5 + k) for k in perm) + "".join("mostra r.%s\nmostra q.%s\n" % (f, f) for f in fs)
            src += "mostra r == s\nmostra r == q\nmostra r != q\nmostra r\n"
            out.append(src)
    # 254, 255 fields
    for n in (100, 127, 128, 254, 255):
        src = "registo R\n" + "".join("    f%d: int\n" % k for k in range(n)) + "fim\nr: R = R(" + ", ".join("f%d: %d" % (k, (k * 7) % 1000) for k in reversed(range(n))) + ")\n"
        out.append(src + "".join("mostra r.f%d\n" % k for k in sorted({0, 1, n // 2, n - 2, n - 1})) + "r.f%d = 1\nmostra r.f%d + r.f0\n" % (n - 1, n - 1))
    # the same method names on several types, next to functions of the name
    types = [("registo R\n    c: int\nfim\n", "R", "R(c: 1)"), ("registo S\n    c: int\n    d: int\nfim\n", "S", "S(c: 2, d: 3)"), ("uniao U\n    A,\n    B(int)\nfim\n", "U", "U::B(4)"),
             ("", "int", "5"), ("", "texto", "\"x\""), ("", "bool", "verdadeiro"), ("", "real", "1.5")]
    for combo in itertools.combinations(types, 3):
        for order in itertools.permutations(combo):
            src = "".join(d for d, _, _ in order) + "func m(k: int): texto\n    retorna f\"func {k}\"\nfim\n"
            for d, t, _ in order:
                src += "met %s::m(alvo, k: int): texto\n    retorna f\"%s {k}\"\nfim\nmet %s::n(alvo): texto\n    retorna alvo.m(7)\nfim\n" % (t, t, t)
            for k, (_, t, v) in enumerate(order):
                src += "x%d: %s = %s\nmostra x%d.m(%d)\nmostra x%d.n()\n" % (k, t, v, k, k, k)
            out.append(src + "mostra m(9)\n")
    # objects in objects, vectors and optional fields
    pre = "registo P\n    x, y: int\nfim\nregisto L\n    a: P\n    b: P\n    v: [P]\n    o: P?\nfim\nfunc mexe(p: P)\n    p.x += 100\n    p = P(x: 0, y: 0)\n    p.x = 5\nfim\nmet P::soma(alvo, q: P): P\n    alvo.x += q.x\n    retorna alvo\nfim\n"
    show = "mostra l.a.x\nmostra l.b.x\nmostra l.v[0].x\nmostra p.x\nmostra q.x\n"
    ops = ["l.a = q", "l.b.x = 7", "l.a.x += 1", "l.v[0] = l.b", "l.v[0].x = 9", "mexe(p)", "mexe(l.b)", "mexe(l.v[0])", "p = l.a", "q = p.soma(l.b)", "q = q.soma(q)", "p.soma(q).x = 3",
           "l.o = p\nl.o.valor.x = 11", "l.b = l.a", "anexa(l.v, p)\nl.v[1].x = 21", "l.v = [P: q]", "mostra l.a == l.b", "mostra p == l.v[0]", "p.x = q.x = l.a.x"]
    for h in itertools.product(ops, repeat=2):
        out.append(pre + "p: P = P(x: 1, y: 2)\nq: P = P(y: 4, x: 3)\nl: L = L(b: P(x: 5, y: 6), v: [P: p], a: p, o: nulo)\n" + "\n".join(h) + "\n" + show)
    return out


# ------------------------------------------------------------------ C10
def optionals():
    out = []
    types = [("int", ["0", "5", "0 - 1"], "9"), ("real", ["0.0", "2.5", "3"], "1.5"), ("bool", ["falso", "verdadeiro"], "verdadeiro"), ("texto", ["\"\"", "\"nulo\"", "\"a\""], "\"d\""),
             ("R", ["R(c: 0)"], "R(c: 8)"), ("[int]", ["[int:]", "[int: 0]"], "[int: 1, 2]"), ("U", ["U::A", "U::B(0)"], "U::B(2)"), ("indef", ["0", "\"\"", "falso"], "4")]
    pre = "registo R\n    c: int\nfim\nuniao U\n    A,\n    B(int)\nfim\n"
    for t, vals, dflt in types:
        for v in vals + ["nulo"]:
            v0 = v
            for prod in ("direto", "atribui", "param", "retorna", "campo", "campoatr", "elem", "elematr", "anexa", "metodo", "cast", "copia", "uniao", "ramo"):
                o = "o"
                src = pre
                if prod == "direto":
                    src += "o: %s? = %s\n" % (t, v)
                elif prod == "atribui":
                    src += "o: %s? = nulo\no = %s\no = nulo\no = %s\n" % (t, v, v)
                elif prod == "param":
                    src += "func p(o: %s?)\n    mostra o == nulo\n    mostra o != nulo\n    mostra o.valor_ou(%s)\nfim\np(%s)\no: %s? = %s\np(o)\n" % (t, dflt, v, t, v)
                elif prod == "retorna":
                    src += "func p(k: int): %s?\n    se k == 0 entao\n        retorna nulo\n    fim\n    retorna %s\nfim\nmostra p(0) == nulo\nmostra p(1) == nulo\no: %s? = p(1)\n" % (t, v, t)
                elif prod == "campo":
                    src += "registo Q\n    z: int\n    o: %s?\nfim\nq: Q = Q(o: %s, z: 1)\n" % (t, v)
                    o = "q.o"
                elif prod == "campoatr":
                    src += "registo Q\n    o: %s?\nfim\nq: Q = Q(o: nulo)\nq.o = %s\n" % (t, v)
                    o = "q.o"
                elif prod == "elem":
                    src += "v: [%s?] = [%s?: nulo, %s]\n" % (t, t, v)
                    o = "v[1]"
                elif prod == "elematr":
                    src += "v: [%s?] = [%s?: nulo]\nv[0] = %s\n" % (t, t, v)
                    o = "v[0]"
                elif prod == "anexa":
                    src += "v: [%s?] = [%s?:]\nanexa(v, nulo)\nanexa(v, %s)\nmostra remova(v, 0) == nulo\n" % (t, t, v)
                    o = "v[0]"
                elif prod == "metodo":
                    src += "met R::p(alvo): %s?\n    retorna %s\nfim\nr: R = R(c: 1)\n" % (t, v)
                    o = "r.p()"
                elif prod == "cast":
                    if t not in ("int", "real", "bool", "texto") or v.startswith("0 -"):
                        continue
                    src += "o: %s? = %s:>%s?\n" % (t, v, t)
                elif prod == "copia":
                    src += "a: %s? = %s\nb: %s? = a\no: %s? = b\na = nulo\nb = %s\n" % (t, v, t, t, dflt)
                elif prod == "uniao":
                    src += "uniao W\n    X(%s?),\n    Y\nfim\nw: W = W::X(%s)\no: %s? = iguala w\n    W::X(z) => z,\n    W::Y => nulo:>%s?\nfim\n" % (t, v, t, t) if t in ("int", "real", "bool", "texto") else \
                        "uniao W\n    X(%s?),\n    Y\nfim\nw: W = W::X(%s)\nn: %s? = nulo\no: %s? = iguala w\n    W::X(z) => z,\n    W::Y => n\nfim\n" % (t, v, t, t)
                elif prod == "ramo":
                    src += "n: %s? = nulo\nm: %s? = %s\nfunc es(k: int): %s?\n    retorna iguala k\n        0 => n,\n        _ => m\n    fim\nfim\nmostra es(0) == nulo\no: %s? = es(1)\n" % (t, t, v, t, t)
                src += "mostra %s == nulo\nmostra %s != nulo\nmostra %s.valor_ou(%s)\nse %s != nulo entao\n    mostra \"tem\"\nsenao\n    mostra \"nulo\"\nfim\nmostra %s\nmostra %s.valor\nmostra \"fim\"\n" % (
                    o, o, o, dflt, o, o, o)
                out.append(src)
    return out


# ------------------------------------------------------------------ C14
BINARY = ["==", "!=", "<", "<=", ">", ">=", "+", "-", "ou", "*", "/", "//", "%", "e"]
GROUPS = "registo R\n    n: int\n    p: bool\nfim\nfunc f(k: int): int\n    retorna k + 1\nfim\na: int = 7\nb: int = 3\nc: int = 2\nd: int = 5\np: bool = verdadeiro\nq: bool = falso\ns: bool = verdadeiro\nx: real = 1.5\nv: [int] = [int: 4, 9]\nr: R = R(n: 6, p: falso)\nt: texto = \"12\"\n"


def kinds_of(ops, rng):
    """Operands that suit the operators around them, where there are any"""
    out = []
    for i in range(len(ops) + 1):
        near = [ops[j] for j in (i - 1, i) if 0 <= j < len(ops)]
        logic = all(o in ("e", "ou") for o in near) or (any(o in ("e", "ou") for o in near) and rng.random() < .5)
        out.append("b" if logic else "n")
    return out


def groupings(seed=1, deep=False):
    """Expressions of up to four operators, with and without parentheses"""
    rng = random.Random(seed)
    ints = ["a", "b", "c", "d", "x", "v[1]", "r.n", "f(a)", "t:>int", "10", "tam(v)"]
    bools = ["p", "q", "s", "r.p", "verdadeiro", "a:>bool"]
    pre = ["", "", "", "-", "+", "- -", "nao ", "nao nao "]
    post = ["", "", "", "", ":>int", ":>real", ":>texto", ":>bool"]
    out = []

    def put(ops, plain=False):
        ks = kinds_of(ops, rng)
        es = []
        for k in ks:
            e = rng.choice(ints if k == "n" else bools)
            if not plain:
                e = rng.choice(pre if k == "n" else pre[:3] + pre[6:]) + e
                if ":>" not in e:
                    e += rng.choice(post)
            es.append(e)
        if not plain and len(ops) > 1 and rng.random() < .5:
            i = rng.randrange(len(ops))
            j = rng.randrange(i, len(ops)) + 1
            es[i] = rng.choice(["(", "(", "-(", "nao ("]) + es[i]
            es[j] += ")" + rng.choice(["", "", ":>int", ":>bool"])
        out.append(GROUPS + "mostra " + "".join(e + (" " + o + " " if o else "") for e, o in zip(es, list(ops) + [""])) + "\n")

    for o in BINARY:
        put((o,), True)
    for k in (2, 3):
        for ops in itertools.product(BINARY, repeat=k):
            put(ops, True)
            put(ops)
    for _ in range(20000 if deep else 3000):
        put([rng.choice(BINARY) for _ in range(rng.choice([1, 2, 4, 4, 5]))], rng.random() < .3)
    for e in ("a = b = c", "a = b += c", "a += b = c", "a -= b - c", "a *= b + c", "a //= b", "v[0] = v[1] = a", "v[0] += v[1] * b", "r.n = a = b + c", "r.n -= v[0] - b", "x /= b - c", "(a) = b", "(v[0]) = b", "((r.n)) += b",
              "a = (b = c)", "a + b = c", "-a = b", "f(a) = b", "a == b = c", "(a): int = 3", "a:>int = 3", "p e q = p"):
        out.append(GROUPS + e + "\nmostra a\nmostra b\nmostra v\nmostra r.n\nmostra x\n")
    return out


def prefixed():
    """Every prefix before every operand with every cast after it, well typed
    or not"""
    atoms = ["a", "x", "p", "t", "i", "big", "'7'", "2.75", "f(a)", "r.n", "r.p", "v[1]", "(a)", "(x)", "(-x)", "(nao p)", "(t)", "f(x:>int)", "t[0]", "3"]
    post = ["", ":>int", ":>real", ":>texto", ":>bool", ":>indef", ":>(int)", "):>int", ":>int):>bool", ":>texto):>int", ":>bool):>texto", ":>int):>real"]
    out = []
    for a in atoms:
        for u in ("", "-", "+", "nao ", "- -", "nao -", "-nao ", "+-", "nao nao "):
            for c in post:
                e = u + a + c
                if c.count(")") > c.count("("):
                    for k in ("(" + e, u + "(" + a + c):
                        out.append(k)
                else:
                    out.append(e)
    out += ["%s %s %s" % (l, o, r) for o in ("+", "*", "<", "e", "==") for l in ("-x:>int", "nao a:>bool", "-t:>int") for r in ("-x:>int", "nao a:>bool", "-t:>real", "-f(a):>texto:>int")]
    return [GROUPS + "i: indef = 4\nbig: real = 30000000000000000000.0\nmostra %s\n" % e for e in dict.fromkeys(out)]


# ------------------------------------------------------------------ C13
def literals():
    """What literals denote"""
    out = []
    pieces = ["a", "\\n", "\\'", '\\"', "\\", "\\\\", "\\t", "{", "}", "'", '"', " ", "#", "é", "\n", "n", "\U0001f600", "//"]
    for q in "'\"":
        for n in (0, 1, 2, 3):
            for p in itertools.product(pieces, repeat=n):
                body = "".join(p)
                if n == 3 and hash_(body) % 11:
                    continue
                out.append("mostra %s%s%s\nmostra 1\n" % (q, body, q))
    for w in ("0", "1", "00", "007", "10", "9223372036854775807", "1.0", "0.5", "00.50", "1.25", "100000000.0", "0.0", "3.10"):
        out.append("mostra %s\nmostra %s:>texto\n" % (w, w))
    return out


def hash_(s):
    h = 7
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h


def bulk(deep=False):
    """Programs with long texts, many constants, names, functions and types"""
    out = []
    for n in (0, 1, 120, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 70000):
        for ch in ("z", "é", "€", "😀"):
            if n * len(ch.encode()) <= 140000:
                out.append("mostra tam('%s')\nmostra '%s'\nmostra 1" % (ch * n, ch * min(n, 300)))
    for n in (100, 127, 128, 255, 256, 257, 300, 600) + ((3000,) if deep else ()):
        out.append("\n".join("mostra %d" % (i * 7 + 1000) for i in range(n)))
        out.append("\n".join("mostra 't%d'" % i for i in range(n)))
        out.append("\n".join("v%d:int = %d" % (i, i) for i in range(n)) + "\n" + "\n".join("mostra v%d" % i for i in (0, n // 2, n - 2, n - 1)))
        out.append("\n".join("func f%d():int\n  retorna %d\nfim" % (i, i * 3) for i in range(n)) + "\n" + "\n".join("mostra f%d()" % i for i in (0, n // 2, n - 2, n - 1)))
        out.append("\n".join("registo R%d\n  a%d:int\n  b:int\nfim" % (i, i) for i in range(n)) + "\n" + "\n".join("x%d:R%d = R%d(a%d: %d, b: 2)\nmostra x%d.a%d\nmostra x%d" % ((i,) * 4 + (i + 5,) + (i,) * 3) for i in (0, n // 2, n - 2, n - 1)))
        k = min(n, 250)
        out.append("registo R\n" + "\n".join("  a%d:int" % i for i in range(k)) + "\nfim\nr:R = R(" + ", ".join("a%d: %d" % (i, i) for i in range(k)) + ")\n" + "\n".join("mostra r.a%d" % i for i in range(0, k, 7)))
        out.append("func f(" + ", ".join("p%d:int" % i for i in range(k)) + "):int\n  retorna p0 + p%d * 1000\nfim\nmostra f(" % (k - 1) + ", ".join(str(i + 1) for i in range(k)) + ")")
    for a in (2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 47, 2 ** 53, 2 ** 62, 2 ** 63 - 1, 10 ** 18):
        for d in (-1, 0, 1):
            if a + d < 2 ** 63:
                out.append("mostra %d\nmostra -%d\nmostra '%d'" % (a + d, a + d, a + d))
    for r in ("0.5", "0.25", "1.0", "100.5", "1024.0009765625", "0.0", "7999999.5"):
        out.append("mostra %s\nmostra -%s + 1.0\nmostra '%s'" % (r, r, r))
    return out


# ------------------------------------------------------------------ C24
LINES = ("", "0", "7", "-3", "+5", "007", " 3", "3 ", "3.5", "-0.25", ".5", "5.", "1e3", "abc", "ç ã", "verdadeiro", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "\u0663", "- 3", "--3",
         "'aspas'", "  ", "\t", "a\\nb", "1_000", "0x10", "😀", "12345.125", "-", "+", "1,5", "nulo", "#", "1 2", "a" * 300)


def reading(rng, n):
    """Sequences of reads and writes over sequences of lines: (source, input)"""
    out = []
    reads = {"leia": "texto", "leia_int": "int", "leia_real": "real"}
    for f in reads:                                     # every line with every function, twice
        for l in LINES:
            for end in ("\n", ""):
                out.append(("mostra %s('')\nmostra 'depois'\n" % f, l + end))
            out.append(("a:%s = %s('> ')\nmostra a\nmostra leia('')\n" % (reads[f], f), l + "\nresto\n"))
    for l in ("a\r\nb", "a\r", "\n\n\nx", "x\n\n", "\n"):
        out.append(("mostra leia('')\nmostra leia('')\nmostra leia('')\nmostra leia('')\n", l))
    shows = ["mostra '#'", "escreva('e')", "escrevaln('l')", "escreva(1.5)", "escrevaln(verdadeiro)", "escreva([int: 1, 2])", "escreva('')", "escrevaln('')", "escreva('a\\nb')", "escrevaln(7)", "mostra 2.0", "escreva('é😀')"]
    asks = ["''", "'? '", "'linha\\n'", "'ç: '", "'Número: '"]
    while len(out) < n:
        lines, body, good = [], [], True
        for k in range(rng.randrange(1, 7)):
            r = rng.random()
            if r < 0.4:
                body.append(rng.choice(shows))
                continue
            f = rng.choice(sorted(reads))
            ok = {"leia": LINES, "leia_int": ("0", "7", "-3", "+5", "007", "9223372036854775807"), "leia_real": ("3.5", "-0.25", ".5", "5.", "7", "12345.125")}[f]
            lines.append(rng.choice(ok if rng.random() < 0.93 else LINES))
            call = "%s(%s)" % (f, rng.choice(asks))
            v = "v%d" % k
            form = rng.randrange(7)
            if form == 0:
                body += ["%s:%s = %s" % (v, reads[f], call), "mostra %s" % v]
            elif form == 1:
                body.append("mostra " + call)
            elif form == 2:
                body.append('mostra f"<{%s}>"' % call)
            elif form == 3:
                body += ["%s:indef = %s" % (v, call), "escrevaln(%s:>%s)" % (v, reads[f])]
            elif form == 4:
                body.append(call)
            elif form == 5 and f != "leia":
                body.append("mostra %s * 2" % call)
            else:
                body.append("escreva(%s)" % call)
        if rng.random() < 0.3:
            m = rng.randrange(1, 4)
            body = ["para i de 0..%d faca" % m] + indent("\n".join(body)).split("\n") + ["fim"]
            lines = lines * m
        elif rng.random() < 0.3:
            body = ["func f()"] + indent("\n".join(body)).split("\n") + ["fim", "f()"] + (["f()"] if rng.random() < 0.5 else [])
            lines = lines * 2
        if rng.random() < 0.1:
            lines = lines[:-1]
        text = "\n".join(lines) + rng.choice(["", "\n", "\n", "\nsobra\n"])
        out.append(("\n".join(body) + "\nmostra 'fim'\n", text))
    return out


def containing():
    """txt_contem on all pairs of short texts and some longer ones"""
    hay = ["", "a", "b", "aa", "ab", "aab", "aba", "abab", "abcabc", "aaab", "ção", "😀a😀", "a b", "a\\nb", "ab" * 40 + "c", "\\'", "'".join(["a", "b"]) and "a\\'b", "ABC", "a.b", "a*b", "[a]"]
    need = hay + ["c", "abc", "bca", "ã", "😀", " ", "\\n", "aaa", ".", "*", "B", "bab"]
    return ["mostra txt_contem('%s', '%s')\nt:texto = '%s'\nse txt_contem(t, '%s') entao\n  mostra 1\nsenao\n  mostra 2\nfim\n" % (h, x, h, x) for h in hay for x in need]


def mathematics():
    """The functions of mat on values whose results are exact, from every kind of argument"""
    vals = ["0", "1", "-1", "2", "3", "-7", "4", "9", "144", "10000", "0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "0.25", "-0.75", "0.75", "7.0", "-7.0", "3.125", "1000000.5", "-1000000.5", "0.4990234375", "-0.4990234375"]
    one = ("abs", "piso", "teto", "arredonda", "raizqd", "sen", "cos", "tan", "grausprad", "radpgraus")
    out = []
    for f in one:
        for v in vals:
            for pre, call in (("usa 'mat'\n", f), ("usa 'mat' => M\n", "M." + f), ("usa 'mat' => [%s]\n" % f, f)):
                out.append(pre + "mostra %s(%s)\nx:real = %s\nmostra %s(x)\nmostra %s(x):>texto\n" % (call, v, v, call, call))
                out.append(pre + "func g(x:real):real\n  retorna %s(x)\nfim\nmostra g(%s) + 1\nr:real = %s(%s)\nmostra r\n" % (call, v, call, v))
    for f in ("expoente", "log"):
        for v in vals:
            for w in ("0", "1", "2", "3", "10", "0.5", "2.5"):
                out.append("usa 'mat'\nmostra %s(%s, %s)\na:int = 2\nmostra %s(%s, a) * 2\n" % (f, v, w, f, v))
    # what lies between bounds: the scaled integer part, and comparisons
    more = ["0.001", "1.0471975511965976", "3.141592653589793", "-2.0943951023931953", "57.29577951308232", "123456.789", "-98765.4321", "0.9999999", "0.000001", "1234567890.5", "180", "90", "45", "-360", "6.25", "100.0", "2.718281828459045"]
    for f in ("sen", "cos", "tan", "grausprad", "radpgraus"):
        for v in vals + more:
            for k in ("1000", "1000000"):
                out.append("usa 'mat'\nmostra arredonda(%s(%s) * %s)\nx:real = %s\nmostra (%s(x) * %s):>int\nmostra %s(x) > 0.25\nmostra %s(x) <= -0.5\n" % (f, v, k, v, f, k, f, f))
    for v in vals + more:
        out.append("usa 'mat'\nx:real = %s\nd:real = sen(x) * sen(x) + cos(x) * cos(x)\nmostra d > 0.99999999\nmostra d < 1.00000001\nmostra arredonda(d * 1000)\n" % v)
        out.append("usa 'mat'\nx:real = grausprad(%s)\nmostra arredonda(radpgraus(x) * 1000)\nmostra arredonda((tan(x) - sen(x) / cos(x)) * 1000000)\n" % v)
    bases = ["2", "10", "0.5", "2.718281828459045", "7.5", "1", "0", "-3", "1000000", "0.001"]
    for v in vals + more:
        for w in bases + ["-1", "-2", "-0.5", "1.5", "3.7"]:
            for f in ("log", "expoente"):
                out.append("usa 'mat'\nx:real = %s\ny:real = %s\nr:real = %s(x, y)\nmostra r > 1\nmostra r == r\nmostra (r < 0) ou (r > 0) ou (r == 0)\nse (r > -1000000) e (r < 1000000) entao\n    mostra arredonda(r * 1000)\n    mostra piso(r)\nfim\n" % (v, w, f))
    special = ["1.0 / 0", "-1.0 / 0", "0.0 / 0", "-0.0"]
    small = ["0", "1", "-1", "2", "0.5", "-1.5", "3", "1.0 / 0", "-1.0 / 0", "0.0 / 0"]
    for v in special:
        for f in one:
            out.append("usa 'mat'\nz:real = 0\nx:real = %s\nmostra %s(x)\nmostra %s(x) == %s(x)\n" % (v.replace(" 0", " z"), f, f, f))
        for w in small:
            for f in ("expoente", "log"):
                out.append("usa 'mat'\nz:real = 0\nx:real = %s\ny:real = %s\nmostra %s(x, y)\nmostra %s(y, x)\n" % (v.replace(" 0", " z"), w.replace(" 0", " z"), f, f))
    return out


def sharing(rng, count):
    """Vectors of indef that hold one another and themselves, as trees and
    cycles, written after every change."""
    out = []
    for _ in range(count):
        n = rng.randrange(2, 5)
        names = ["v%d" % i for i in range(n)]
        src = "".join("%s: [indef] = [indef: %s]\n" % (x, ", ".join(rng.choice(["1", "2.5", "falso", "'t'", "'é'"]) for _ in range(rng.randrange(1, 4)))) for x in names)
        for _ in range(rng.randrange(2, 7)):
            x, y = rng.choice(names), rng.choice(names)
            src += rng.choice(["anexa(%s, %s)\n" % (x, y), "%s[0] = %s\n" % (x, y), "%s = [indef: %s, 7, %s]\n" % (x, y, rng.choice(names))])
            src += "mostra %s\n" % rng.choice(names)
        src += "".join("mostra %s\nmostra tam(%s)\n" % (x, x) for x in names) + "escrevaln(v0)\n"
        out.append(src)
    return out


def chains():
    """Long chains of values, each holding the next: N stands for the length."""
    decl = {"reg": "registo No\n    v: int\n    prox: No?\nfim\n", "uni": "uniao L\n    Nada,\n    No(int, L)\nfim\n", "vec": ""}
    start = {"reg": "l: No? = nulo\n", "uni": "l: L = L::Nada\n", "vec": "l: indef = 1\n"}
    new = {"reg": "No(v: i, prox: l)", "uni": "L::No(i, l)", "vec": "[indef: l, i]"}
    tail = {"reg": "mostra l.valor.v - N\n", "uni": "iguala l\n    L::Nada => faca\n        mostra 0\n    fim,\n    L::No(k, r) => faca\n        mostra k - N\n    fim\nfim\n", "vec": "mostra 'x'\n"}
    out = []
    for k in ("reg", "uni", "vec"):
        build = "para i de 0..N faca\n    l = %s\nfim\n" % new[k]
        pre = decl[k] + start[k]
        out.append(pre + build + tail[k])
        out.append(pre + build + start[k].split(":")[0] + start[k][start[k].index(" ="):] + build + tail[k])
        out.append(pre + "func f(): int\n" + "".join("    " + x + "\n" for x in (start[k] + build).splitlines()) + "    retorna 3\nfim\nmostra f()\nmostra f()\n")
        out.append(pre + "v: [indef] = [indef: 0]\n" + build + "anexa(v, l)\n" + start[k].split(":")[0] + start[k][start[k].index(" ="):] + "remova(v, 1)\nmostra tam(v)\n")
    return out
