"""Programs that stop with an error: every error, in every place a value can
stand, inside every kind of block, function and module."""
import itertools

from texts import indent

DECLS = ("registo R\n    c: int\n    d: int\nfim\nregisto S\n    v: [int]\n    r: R\n    o: int?\nfim\nuniao U\n    A,\n    B(int),\n    C(int, int)\nfim\n"
         "func um(a: int): int\n    retorna a\nfim\nfunc dois(a: int, b: int): int\n\n    retorna a + b\nfim\n"
         "func nada(a: int)\n    b: int = a\nfim\nfunc sem_fim(n: int): int\n    m: int = n\n\n    retorna sem_fim(m + 1)\nfim\n"
         "func parte(n: int): int\n    k: int = 0\n    mostra \"parte\"\n    mostra n // k\n    retorna 1\nfim\n"
         "met R::soma(alvo, a: int): int\n    retorna alvo.c + a\nfim\nmet R::parte(alvo): int\n    mostra \"met\"\n    k: [int] = [int:]\n    retorna k[alvo.c]\nfim\nmet R::eu(alvo, a: int): R\n    retorna alvo\nfim\n"
         "met int::parte(alvo): int\n    retorna alvo // 0\nfim\n")
VARS = ("big: int = 9223372036854775807\nz: int = 0\nv: [int] = [int: 1, 2]\nw: [[int]] = [[int]: v, v]\nt: texto = \"aé\"\no: int? = nulo\nro: R? = nulo\nq: indef = \"x\"\n"
        "r: R = R(c: 3, d: 4)\ns: S = S(v: v, r: r, o: nulo)\nu: U = U::B(3)\nn: int = 0\n")

INTS = ["(big + 1)", "(0 - big - 2)", "big * 2", "-(-big - 1)", "(-big - 1) // -1", "(1 // z)", "1 % z", "((1 / z):>int)", "((1.5 // z):>int)", "((1.5 % z):>int)", "v[2]", "v[z - 1]", "w[1][7]", "w[2][0]", "remova(v, 5)",
        "remova(v, z - 1)", "tam(t[2])", "tam(t[z - 1])", "o.valor", "ro.valor.c", "s.o.valor", "(t:>int)", "((t:>real):>int)", "(q:>int)", "tam(q:>texto) + (((q:>bool):>texto):>int)",
        "tam(vec(int, z - 1))", "tam(vec(int, 2, z - 3))", "sem_fim(0)", "parte(1)", "r.parte()", "z.parte()", "leia_int(\"\")", "(leia_real(\"\"):>int)", "um(parte(2))", "r.soma(parte(2))", "parte(parte(1))",
        "(iguala 3\n    0 => 1,\n    k => k // z\nfim)", "(iguala z\n    0 => faca\n        a: int = 1\n        b: int = a // z\n        produz b\n    fim,\n    k => k\nfim)", "(iguala U::B(1 // z)\n    U::B(k) => k,\n    _ => 2\nfim)",
        "dois(\n    1,\n    1 // z\n)", "dois(\n    parte(1),\n    2\n)", "[int:\n    1,\n    1 // z\n][0]", "[int:\n    1,\n    2\n][5]", "R(\n    c: 1,\n    d: 1 // z\n).c", "M.parte(3)", "M.fundo(3)", "M.T(a: 0).parte()", "importada(2)"]

PLACES = {
    "mostra": "mostra {e}", "expr": "um({e})", "decl": "x: int = {e}", "real": "x: real = {e}", "indef": "x: indef = {e}", "opc": "x: int? = {e}", "atribui": "n = {e}", "cadeia": "n = z = {e}", "composto": "n += {e}", "comp2": "n -= 1 + {e}",
    "indice": "v[0] = {e}", "lugar": "v[{e}] = 1", "alvo": "w[{e}][0] = 1", "indcomp": "v[0] += {e}", "campo": "r.c = {e}", "campocomp": "r.c *= {e}", "fundo": "s.r.d = {e}", "fundo2": "s.v[0] = {e}",
    "se": "se {e} > 1 entao\n    mostra 1\nfim", "senaose": "se n == 9 entao\n    mostra 1\nsenaose {e} > 1 entao\n    mostra 2\nfim", "senaose2": "se n == 9 entao\n    mostra 1\nsenaose n == 8 entao\n    mostra 1\nsenaose {e} > 1 entao\n    mostra 2\nsenao\n    mostra 3\nfim",
    "enquanto": "enquanto {e} < 0 faca\n    mostra 1\nfim", "inicio": "para i de {e}..3 faca\n    mostra i\nfim", "fim": "para i de 0..{e} faca\n    mostra i\nfim", "inc": "para i de 0..9 inc {e} faca\n    mostra i\nfim",
    "escolha": "escolha {e}:\n    caso 1:\n        mostra 1\nfim", "caso": "escolha n:\n    caso 7:\n        mostra 1\n    caso {e}:\n        mostra 1\n    senao:\n        mostra 2\nfim",
    "arg": "mostra um({e})", "arg1": "mostra dois({e}, 1)", "arg2": "mostra dois(1, {e})", "argl": "mostra dois(\n    1,\n    {e}\n)", "argm": "mostra r.soma({e})", "alvom": "mostra R(c: {e}, d: 1).soma(2)", "alvomm": "mostra r.eu(1).eu({e}).soma(3)",
    "elem": "mostra [int: 1, {e}, 3]", "eleml": "mostra [int:\n    1,\n    {e},\n    3\n]", "esq": "mostra {e} + 1", "dir": "mostra 1 + {e}", "dir2": "mostra 2 * (3 - {e})", "un": "mostra -{e}", "logico": "mostra falso e ({e} > 1)", "cmp": "mostra 1 < {e}", "igual": "mostra {e} == {e}",
    "conv": "mostra ({e}):>texto", "ind": "mostra v[{e}]", "indt": "mostra t[{e}]", "grupo": "mostra (({e}))", "iguala": "mostra iguala {e}\n    0 => 1,\n    k => k\nfim", "braco": "mostra iguala n\n    7 => 1,\n    k => {e}\nfim",
    "bracob": "iguala n\n    7 => faca\n        mostra 7\n    fim,\n    k => faca\n        mostra \"k\"\n        mostra {e}\n    fim\nfim", "produz": "x: int = iguala n\n    7 => 1,\n    k => faca\n        mostra \"k\"\n        produz {e}\n    fim\nfim", "seiguala": "se iguala {e} => 3 entao\n    mostra 1\nsenao\n    mostra 2\nfim",
    "nome": "x: R = R(c: 1, d: {e})", "nomel": "x: R = R(\n    c: 1,\n    d: {e}\n)", "var": "x: U = U::B({e})", "var2": "x: U = U::C(1, {e})", "anexa": "anexa(v, {e})", "remova": "mostra remova(v, {e})", "vec": "mostra vec(int, {e})", "vec2": "mostra vec(int, 2, {e})",
    "valor_ou": "mostra o.valor_ou({e})", "tam": "mostra tam([int: {e}])", "escreva": "escrevaln({e})", "depois": "mostra n; mostra {e}; mostra n", "lib": "mostra abs({e})", "impor": "mostra M.vale({e})", "impglob": "n = M.g + {e}",
}
ONELINE = {"fmt": "mostra f\"<{{{e}}}>\"", "fmt2": "mostra f\"{{n}} {{{e}}} {{n}}\""}

WRAPS = {
    "global": "mostra \"a\"\n{b}\nmostra \"z\"\n",
    "func": "func f(p: int)\n{V}    mostra \"a\"\n{B}    mostra \"z\"\nfim\nmostra \"i\"\nf(1)\nmostra \"f\"\n",
    "valor": "func f(p: int): int\n{V}\n{B}    retorna p\nfim\nmostra \"i\"\n\nmostra 2 + f(1)\n",
    "met": "met S::f(alvo, p: int): int\n{V}{B}    retorna p\nfim\nmostra \"i\"\nx9: int = s.f(3)\n",
    "cadeia": "func f(p: int): int\n{V}{B}    retorna p\nfim\nfunc g(p: int): int\n    mostra \"g\"\n    se p > 0 entao\n        retorna 1 + f(p - 1)\n    fim\n    retorna 3\nfim\nmet R::h(alvo, k: int): int\n    y: int = 1\n    y += g(k)\n    retorna y\nfim\n"
              "func base()\n    para j de 0..3 faca\n        mostra j\n        mostra r.h(j)\n    fim\nfim\nbase()\n",
    "rec": "func f(p: int): int\n    se p > 0 entao\n        a: int = f(p - 1)\n        retorna a\n    fim\n{V}{B}    retorna p\nfim\nmostra f(3)\n",
    "bloco": "se verdadeiro entao\n    k: int = 5\n{B}    mostra k\nfim\n",
    "senao": "se n == 5 entao\n    mostra 0\nsenao\n    mostra \"s\"\n{B}fim\n",
    "ciclo": "para k9 de 0..4 faca\n    mostra k9\n    se k9 < 2 entao\n        continua\n    fim\n{B}fim\n",
    "enq": "k9: int = 0\nenquanto k9 < 4 faca\n    k9 += 1\n    se k9 == 3 entao\n{BB}    fim\nfim\n",
    "caso": "escolha n:\n    caso 1:\n        mostra 1\n    caso 0:\n        mostra \"c\"\n{BB}    senao:\n        mostra 2\nfim\n",
    "braco": "iguala u\n    U::A => faca\n        mostra 1\n    fim,\n    U::B(k8) => faca\n        mostra k8\n{BB}    fim,\n    _ => faca\n        mostra 2\n    fim\nfim\n",
    "modulo": None, "topo": None,
}

IMPORTED = ("usa \"fundo.ama\" => F\ng: int = 4\nregisto T\n    a: int\nfim\nfunc parte(n: int): int\n\n    mostra \"p\"\n    retorna n // (g - 4)\nfim\nmet T::parte(alvo): int\n    retorna parte(alvo.a)\nfim\nfunc fundo(n: int): int\n"
            "    mostra \"f\"\n    retorna 1 + F.parte(n)\nfim\nfunc vale(n: int): int\n    retorna n\nfim\n")
DEEP = "func parte(n: int): int\n    v: [int] = [int: 1]\n\n\n    retorna v[n]\nfim\n"
OWN = "func importada(n: int): int\n    k: texto = \"oito\"\n    retorna (k:>int) + n\nfim\n"


def program(e, place, wrap):
    b = place.format(e=e)
    uses = "usa \"mat\"\nusa \"i.ama\" => M\nusa \"o.ama\" => [importada]\n"
    files = {"i.ama": IMPORTED, "fundo.ama": DEEP, "o.ama": OWN}
    if wrap in ("modulo", "topo"):
        inner = uses + DECLS + VARS
        if wrap == "modulo":
            files["l.ama"] = inner + "func f(p: int): int\n    mostra \"l\"\n" + indent(b) + "    retorna p\nfim\nfunc g(p: int): int\n    retorna f(p)\nfim\n"
            files["m.ama"] = "usa \"l.ama\" => L\n\nfunc g(p: int): int\n    retorna L.g(p) + 1\nfim\nmostra \"m\"\nmostra g(3)\n"
        else:
            files["l.ama"] = inner + "mostra \"l\"\n" + b + "\nmostra \"z\"\n"
            files["m.ama"] = "\n\nusa \"l.ama\" => L\nmostra \"m\"\n"
    else:
        loc = indent(VARS) if wrap != "met" else indent(VARS)
        src = WRAPS[wrap].replace("{V}", loc).replace("{BB}", indent(b, 2)).replace("{B}", indent(b)).replace("{b}", b)
        files["m.ama"] = uses + DECLS + VARS + src
    return files, "x\n"


def failing():
    """Every error in every place, the wrapper changing; and every place in
    every wrapper, the error changing; one-line errors in f-strings."""
    out = []
    k = 0
    wraps = list(WRAPS)
    for e in INTS:
        for p in PLACES.values():
            k += 1
            out.append(program(e, p, wraps[k * 5 % len(wraps)]))
        if "\n" not in e and '"' not in e and "\\" not in e:
            for p in ONELINE.values():
                k += 1
                out.append(program(e, p, wraps[k * 5 % len(wraps)]))
    for p, w in itertools.product(PLACES.values(), wraps):
        k += 1
        out.append(program(INTS[k * 7 % len(INTS)], p, w))
    return out
