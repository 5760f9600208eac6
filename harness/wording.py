"""What texts contain, where they come from and what is done with them (C17);
every conversion of every value (C18)."""
import itertools
import os
import random
import re

from texts import LINES, indent

# Texts as lists of user perceived characters, whatever they come from
CONTENTS = [[], ["a"], ["a", "b", "c"], ["e\u0301"], ["a", "e\u0301", "b"], ["a\u0323\u0303", "x"], ["x", "\u00e9", "e\u0301", "\u00e9"], ["\U0001f469\u200d\U0001f469\u200d\U0001f467"],
            ["\u00e7", "\U0001f469\u200d\U0001f467", "\u00e3", "o"], ["\U0001f44d\U0001f3fd", "1"], ["\u2764\ufe0f", "a", "1\ufe0f\u20e3"], ["a", "\U0001f1f5\U0001f1f9", "b"], ["\u20ac", "\U0001f600", "\U0001f600", "z"],
            [" "], [" ", "a", " "], ["a", "\t", "b"], ["a", "\n", "b"], ["\n"], ["a", "\n"], ["{", "{", "}"], ["{", "{"], ["}"], ["\\"], ["a", "\\", "\\", "n"], ["\\", "t"], ["'"], ["'", "a", "'"], ["\""], ["\"", "a", "\""], ["a", "'", "\"", "b"],
            ["\"", "\""], ["'", "'"], ["#", " ", "a"], ["1", "2"], ["-", "7"], ["v", "e", "r", "d", "a", "d", "e", "i", "r", "o"], ["n", "u", "l", "o"], ["\u03a9", "\u00df", "\u0130"], ["\u4e2d", "\u6587"], ["\u05d0", "\u05d1"],
            ["a"] * 40 + ["\u00e9"], ["o\u0308"] * 20, list("Uma frase com v\u00e1rias palavras."), ["a", "a"], ["a", "a", "a"], ["\u00e9", "a"], ["0"], ["A"], ["a", "."]]


def quoted(chars, q, fmt=False):
    s = ""
    for c in chars:
        s += {"\n": "\\n", q: "\\" + q}.get(c, c)
    return q + s + q


def writable(chars, q, fmt=False):
    """Whether a literal between the quotes q can hold the text"""
    s = "".join(chars)
    if "\\n" in s or "\\'" in s or '\\"' in s or s.endswith("\\"):
        return False
    if fmt:
        t = s.replace("{{", "")
        return "{" not in t and "}" not in t
    return True


def forms(chars):
    """(name, declarations, statements, expression, input) that give the text"""
    s = "".join(chars)
    out = []
    q = "'" if '"' in s else '"'
    lit = None
    for k in ("'", '"'):
        if writable(chars, k):
            lit = quoted(chars, k)
            out.append(("literal" + k, "", "", lit, ""))
            if "\n" in s:
                out.append(("linhas" + k, "", "", k + s.replace(k, "\\" + k) + k, ""))
    if lit is None:
        if "\n" not in s:
            out.append(("leia", "", "", "leia('')", s + "\n"))
        return out
    if "\n" not in s:
        out.append(("leia", "", "", "leia('')", s + "\n"))
    if writable(chars, "'", True) and not ({"'", "{"} & set(s)):
        out.append(("fmt0", "", "", "f" + quoted(chars, "'", True), ""))
    n = len(chars)
    for cut in sorted({0, 1, n // 2, n - 1, n} & set(range(n + 1))):
        a, b = chars[:cut], chars[cut:]
        for k in ("'", '"'):
            if writable(a, k) and writable(b, k) and k not in a + b:
                if writable(b, k, True) and "{" not in b:
                    out.append(("fmt1%s%d" % (k, cut), "", "p1: texto = %s\n" % quoted(a, k), "f%s{p1}%s%s" % (k, quoted(b, k)[1:-1], k), ""))
                if writable(a, k, True) and "{" not in a:
                    out.append(("fmt2%s%d" % (k, cut), "", "p1: texto = %s\n" % quoted(b, k), "f%s%s{p1}%s" % (k, quoted(a, k)[1:-1], k), ""))
                out.append(("fmt3%s%d" % (k, cut), "", "p1: texto = %s\np2: texto = %s\n" % (quoted(a, k), quoted(b, k)), "f%s{p1}{p2}%s" % (k, k), ""))
    if n == 1:
        out.append(("indice", "", "p1: texto = %s\n" % quoted(["x"] + chars + ["y"], q) if writable(["x"] + chars + ["y"], q) else "p1: texto = %s\n" % lit, "p1[1]" if writable(["x"] + chars + ["y"], q) else "p1[0]", ""))
        out.append(("indice2", "", "", "%s[0]" % lit, ""))
    out.append(("indef", "", "p1: indef = %s\n" % lit, "(p1:>texto)", ""))
    out.append(("copia", "", "p1: texto = %s\np2: texto = p1\n" % lit, "p2", ""))
    out.append(("func", "func pf(a: texto): texto\n    retorna a\nfim\n", "", "pf(%s)" % lit, ""))
    out.append(("campo", "registo PR\n    a: texto\nfim\n", "p1: PR = PR(a: %s)\n" % lit, "p1.a", ""))
    out.append(("elemento", "", "p1: [texto] = [texto: 'q', %s]\n" % lit, "p1[1]", ""))
    out.append(("remova", "", "p1: [texto] = [texto: %s, 'q']\n" % lit, "remova(p1, 0)", ""))
    out.append(("opcional", "", "p1: texto? = %s\n" % lit, "p1.valor", ""))
    out.append(("valor_ou", "", "p1: texto? = nulo\n", "p1.valor_ou(%s)" % lit, ""))
    out.append(("iguala", "", "p1: int = 3\n", "(iguala p1\n    1 => 'um',\n    _ => faca\n        p3: texto = %s\n        produz p3\n    fim\nfim)" % lit, ""))
    out.append(("uniao", "uniao PU\n    A(texto),\n    B\nfim\n", "p1: PU = PU::A(%s)\n" % lit, "(iguala p1\n    PU::A(k) => k,\n    _ => 'z'\nfim)", ""))
    out.append(("modulo", "", "", "PM.dado()", ""))
    return out


def uses(chars, rng):
    """Statements that use t, which holds the text"""
    n, s = len(chars), "".join(chars)
    q = "'" if '"' in s else '"'
    lit = quoted(chars, q) if writable(chars, q) else None
    out = ["mostra t\nmostra tam(t)", "escreva(t)\nescrevaln(t)", "mostra f\"[{t}]\"\nmostra tam(f\"{t}xy\")", "mostra f\"<{t}>\"\nmostra f\"{t}{t}\"\nmostra f\"{t} {tam(t)}\"\nmostra tam(f\"{t}{t}\")",
           "v: [texto] = [texto: t, t]\nmostra v\nanexa(v, t)\nmostra f'{v[2]}{v[0]}'", "x: indef = t\nmostra x\nmostra tam(x:>texto)\nmostra x:>bool", "o: texto? = t\nmostra o\nmostra o.valor_ou('d')", "mostra t:>bool\nmostra nao (t:>bool)",
           "para i de 0..tam(t) faca\n    mostra t[i]\n    mostra tam(t[i])\nfim", "r: texto = \"\"\npara i de 0..tam(t) faca\n    r = f'{t[i]}{r}'\nfim\nmostra r\nmostra tam(r)\nmostra r == t", "t = f'{t}z'\nmostra t\nmostra t[tam(t) - 1]\nmostra tam(t)",
           "mostra t == ''\nmostra t == 'a'\nmostra t != 'aa'\nmostra t == f'{t}'", "c: texto = t\nt = 'outro'\nmostra c\nmostra t", "mostra [texto: t]\nmostra [indef: t, 1, t]", "mostra [[texto]: [texto: t], [texto: '']]", "mostra f't=\"{t}\"'\nmostra f\"t='{t}'\"", "mostra f'\"{t}'\nmostra f'{t}\"'\nmostra f\"'{t}'\"",
           "mostra f'a{{{{{t}'\nmostra f'{t} {1 + 2} {t}'"]
    for i in {0, 1, n // 2, n - 1, n, n + 1, -1, 2 ** 40}:
        out.append("mostra t[%s]" % (i if i >= 0 else "0 - %d" % -i) + ("\nmostra t[%d] == t" % i if 0 <= i < n else ""))
    if lit:
        out.append("mostra t == %s\nmostra %s != t\nescolha t:\n    caso 'nada':\n        mostra 0\n    caso %s:\n        mostra 1\n    senao:\n        mostra 2\nfim" % (lit, lit, lit))
        out.append("mostra iguala t\n    'nada' => 0,\n    %s => 1,\n    _ => 2\nfim" % lit)
        out.append("mostra iguala t\n    %s => 1,\n    k => tam(k)\nfim" % quoted(["a", "b"], q))
        out.append("mostra txt_contem(t, %s)\nmostra txt_contem(f'ab{t}cd', t)\nmostra txt_contem(%s, 'é')" % (lit, lit))
    return out


def contents():
    rng = random.Random(9)
    out = []
    for chars in CONTENTS:
        q = "'" if '"' in chars else '"'
        mod = "func dado(): texto\n    x: texto = %s\n    retorna x\nfim\n" % quoted(chars, q)
        for (name, decls, pre, e, inp), use in itertools.product(forms(chars), uses(chars, rng)):
            head = ("usa \"p.ama\" => PM\n" if name == "modulo" else "") + decls
            if (len(out) * 7 + len(name)) % 3:
                src = head + pre + "t: texto = %s\n%s\n" % (e, use)
            else:
                src = head + "func principal()\n" + indent(pre + "t: texto = %s\n%s" % (e, use) if "\n" not in e or e[0] == "(" else "") + "fim\nprincipal()\n"
                if "\n" in e and e[0] != "(":
                    src = head + pre + "t: texto = %s\n%s\n" % (e, use)
            out.append(({"m.ama": src, "p.ama": mod} if name == "modulo" else {"m.ama": src}, inp))
    return out


# ------------------------------------------------------------------ C18
EDGE = ["0", "1", "-1", "7", "-7", "9", "10", "255", "256", "65536", "2147483647", "2147483648", "-2147483649", "4294967296", "9007199254740993", "-9007199254740993", "9223372036854775807", "(-9223372036854775807 - 1)"]
REALS = ["0.0", "0.5", "-0.5", "1.5", "-1.5", "2.5", "0.25", "0.999999", "-0.999999", "7.0", "-7.0", "100.0", "1000000.5", "0.1", "3.14159", "123456789.125", "2147483648.0", "9007199254740993.0", "9223372036854775807.0", "-9223372036854775808.0",
         "1e".replace("1e", "100000000000000000000.0"), "(1.0 / 3)", "(2.0 / 3)", "(0.0 - 0.0)", "(-0.0)", "(0.1 + 0.2)", "0.0001", "0.000000001", "1234567890123456789.0", "99999999999999999999999.0", "12345678901234567.0"]
TEXTS = sorted({l for l in LINES if len(l) < 40} | {"12 ", " 12", "+12", "-0", "+0", "00012", "1.", ".1", "-.5", "+.5", "1.5.2", "1e5", "1E5", "1e-3", "1e+3", "e5", "1e", "inf", "-inf", "infinity", "NaN", "nan", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                "99999999999999999999", "1_000", "0x10", "0b1", "1,5", "", " ", "\u00a05", "\u0661\u0662", "verdadeiro", "falso", "Verdadeiro", "nulo", "true", "12abc", "abc12", "--1", "+-1", "1 2", "0.1", "0.30000000000000004", "100000000000000000000000", "0.000001", "1e400", "-1e400", "1e-400", "4.9e-324"})


def tq(s):
    return "'" + s.replace("'", "\\'").replace("\n", "\\n") + "'"


SRC = {"int": EDGE, "real": REALS, "texto": [tq(t) for t in TEXTS if "\\" not in t], "bool": ["verdadeiro", "falso"]}
TO = {"int": ["int", "real", "texto", "bool", "indef", "int?", "real?", "indef?"], "real": ["int", "real", "texto", "bool", "indef", "real?", "int?", "indef?"], "texto": ["int", "real", "texto", "bool", "indef", "texto?"], "bool": ["bool", "texto", "indef", "bool?"]}
PR = ["int", "real", "texto", "bool"]


def ends(t, e):
    """What is shown of a value of the type t"""
    more = {"int": "mostra {x} + 1 - 1", "real": "mostra {x} / 1", "texto": "mostra tam({x})\nmostra {x} == f'{{{x}}}'", "bool": "mostra nao {x}", "indef": "", "int?": "mostra {x}.valor", "real?": "mostra {x}.valor / 1", "texto?": "mostra tam({x}.valor)", "bool?": "mostra nao {x}.valor",
            "indef?": "mostra {x}.valor"}[t]
    return "x: %s = %s\nmostra x\n%s\n" % (t, e, more.format(x="x"))


def conversions():
    out = []
    for s, vals in SRC.items():
        for v in vals:
            for t in TO[s]:
                if s == "texto" and t == "real" and False:
                    continue
                out.append("a: %s = %s\n" % (s, v) + ends(t, "a:>%s" % t))
                out.append(ends(t, "(%s):>%s" % (v, t)))
                if t in PR:
                    out.append("a: %s = %s\nmostra (a:>%s):>texto\nmostra (a:>%s):>bool\n" % (s, v, t, t))
                    out.append("func f(a: %s): %s\n    retorna a:>%s\nfim\nmostra f(%s)\nr: %s = f(%s)\nmostra r == f(%s)\n" % (s, t, t, v, t, v, v))
                    out.append("v: [%s] = [%s: %s]\nmostra v[0]:>%s\nmostra [%s: v[0]:>%s]\nmostra f\"{v[0]:>%s}\"\n" % (s, s, v, t, t, t, t))
            # a value of one kind under the name of any, asked for as every kind
            for t in PR:
                out.append("q: indef = %s\nmostra q\nmostra q:>%s\nx: %s = q:>%s\nmostra x\n" % (v, t, t, t))
            t = PR[len(out) % 4]
            out.append("v: [indef] = [indef: 1, %s]\nmostra v\nmostra v[1]:>%s\n" % (v, t))
            out.append("func f(q: indef): %s\n    retorna q:>%s\nfim\nmostra f(%s)\n" % (t, t, v))
            out.append("registo R\n    q: indef\nfim\nr: R = R(q: %s)\nmostra r.q\nr.q = %s\nmostra r.q:>%s\n" % (v, v, t))
            out.append("q: indef? = %s\nmostra q\nmostra q.valor:>%s\n" % (v, t))
            out.append("q: indef = (%s):>indef\nmostra (q:>indef):>%s\n" % (v, t))
    # what a slot of one type gives when asked for as another
    for a, b, c in itertools.product(PR, PR, PR):
        v = {"int": "3", "real": "2.5", "texto": "'4'", "bool": "verdadeiro"}[a]
        if b in TO[a]:
            out.append("a: %s = %s\nb: %s = a:>%s\nq: indef = b\nmostra q\nmostra q:>%s\n" % (a, v, b, b, c))
            out.append("a: %s = %s\nq: indef = a:>%s\nw: indef = q\nmostra w\nmostra w:>%s\n" % (a, v, b, c))
    for v in ("[int: 1]", "R(c: 1)", "U::A", "U::B(2)"):
        for t in PR:
            out.append("registo R\n    c: int\nfim\nuniao U\n    A,\n    B(int)\nfim\nq: indef = %s\nmostra q\nmostra q:>%s\n" % (v, t))
    for v in ("3", "0", "nulo"):
        for t in PR:
            out.append("o: int? = %s\nq: indef = o\nmostra q\nmostra q:>%s\n" % (v, t))
    # promotions on the way to an indef
    for pre, e in (("x: real = 3\n", "x"), ("x: real? = 3\n", "x.valor"), ("v: [real] = [real: 3]\n", "v[0]"), ("v: [real] = [real: 3]\nv[0] = 4\n", "v[0]"), ("func f(a: real): real\n    retorna a\nfim\n", "f(3)"), ("func f(): real\n    retorna 3\nfim\n", "f()"),
                   ("registo R\n    c: real\nfim\nr: R = R(c: 3)\n", "r.c"), ("x: real = 1.5\nx = 3\n", "x"), ("x: real = 1\nx += 3\n", "x"), ("", "3 / 1"), ("", "3.0 + 1"), ("", "1 + 3.0"), ("", "7 // 2"), ("", "7 % 2"), ("", "7.0 // 2"), ("", "7.5 % 2"), ("", "-(3.0)"), ("", "-3"),
                   ("uniao U\n    A(real)\nfim\n", "(iguala U::A(3)\n    U::A(k) => k\nfim)"), ("o: real? = nulo\n", "o.valor_ou(3)")):
        for t in PR:
            out.append(pre + "q: indef = %s\nmostra q\nmostra q:>%s\n" % (e, t))
    return out


# ------------------------------------------------------------------ C09
NAMES = ["valor", "valor_ou", "tam", "anexa", "remova", "mostrar", "x", "alvo1", "nome", "int1", "texto1", "vec", "R", "f", "m", "k", "opcao", "Valor", "VALOR", "produz1", "leia", "escreva", "mat", "_", "__", "_valor", "campo_", "é", "ação", "a1", "nulo1"]


def named():
    """Fields, methods and variables with names that mean something elsewhere"""
    out = []
    for a in NAMES:
        b = "outro"
        decl = "registo Q\n    %s: int\n    %s: texto\nfim\n" % (a, b)
        mk = "Q(%s: 3, outro: 'o')" % a
        use = "mostra q.{a}\nq.{a} = 5\nmostra q.{a} + 1\nq.{a} += 2\nmostra q.{a}\nmostra q.outro\nmostra f\"{{q.{a}}}\"\n".replace("{a}", a).replace("{{", "{").replace("}}", "}")
        out.append(decl + "q: Q = %s\n" % mk + use)
        out.append(decl + "func h(q: Q): int\n" + indent(use + "retorna q.%s * 2" % a) + "fim\nmostra h(%s)\nmostra %s.%s\nmostra h(Q(outro: 'p', %s: 9))\n" % (mk, mk, a, a))
        out.append(decl + "o: Q? = %s\nmostra o.valor.%s\nmostra o.valor_ou(Q(%s: 8, outro: ''))." % (mk, a, a) + "%s\no.valor.%s = 4\nmostra o.valor.%s\no = nulo\nmostra o.valor_ou(Q(%s: 8, outro: '')).%s\nmostra o.valor.%s\n" % (a, a, a, a, a, a))
        opt = "registo Q\n    %s: int?\n    outro: Q?\nfim\n" % a
        out.append(opt + "q: Q = Q(%s: nulo, outro: nulo)\nmostra q.%s\nq.%s = 7\nmostra q.%s\nmostra q.%s.valor + 1\nq.outro = q\nmostra q.outro.valor.%s.valor\nmostra q.outro.valor.%s.valor_ou(3)\nq.%s = nulo\nmostra q.outro.valor.%s.valor_ou(3)\nmostra q.%s.valor\n" % ((a,) * 10))
        met = "registo Q\n    c: int\nfim\nuniao U\n    A,\n    B(int)\nfim\nmet Q::%s(alvo): int\n    retorna alvo.c\nfim\nmet Q::%s2(alvo, n: int): int\n    retorna alvo.%s() * n\nfim\n" % (a, a, a)
        out.append(met + "met int::%s(alvo, n: int): int\n    retorna alvo * 100 + n\nfim\nmet U::%s(alvo, n: texto): texto\n    retorna n\nfim\nq: Q = Q(c: 6)\nmostra q.%s()\nmostra q.%s2(3)\nk9: int = 4\nmostra k9.%s(5)\nu9: U = U::B(1)\nmostra u9.%s('ola')\no: Q? = q\nmostra o.valor.%s()\nmostra o.valor_ou(Q(c: 1)).%s2(2)\n" % ((a,) * 8))
        if a not in ("valor", "valor_ou"):
            out.append(met + "registo Z\n    %s: Q\nfim\nz: Z = Z(%s: Q(c: 2))\nmostra z.%s.%s()\nmostra z.%s.c\nz.%s.c = 9\nmostra z.%s.%s2(2)\n" % ((a,) * 8))
        dims = "met Q::%s(alvo, n: Q?): int\n    retorna n.valor_ou(alvo).c + alvo.c\nfim\n" % a
        out.append("registo Q\n    c: int\nfim\n" + dims + "q: Q = Q(c: 6)\nmostra q.%s(q)\nmostra q.%s(nulo)\nmostra q.%s(Q(c: 1))\n" % (a, a, a))
        if a not in ("tam", "anexa", "remova", "vec", "leia", "escreva", "_", "__"):
            out.append("uniao U\n    %s1,\n    %s2(int)\nfim\nu9: U = U::%s2(4)\nmostra iguala u9\n    U::%s1 => 0,\n    U::%s2(%s) => %s\nfim\n" % ((a,) * 7))
            out.append("func g(%s: int): int\n    %s += 1\n    retorna %s\nfim\nmostra g(3)\nse verdadeiro entao\n    %s: int = 4\n    mostra %s\nfim\n" % ((a,) * 5))
    # fields of every type under every name, in the order of the names or not
    tys = [("int", "1"), ("real", "2.5"), ("texto", "'t'"), ("bool", "verdadeiro"), ("[int]", "[int: 4]"), ("int?", "nulo"), ("indef", "'i'"), ("real?", "3")]
    rng = random.Random(4)
    for _ in range(300):
        k = rng.randrange(2, 7)
        ns = rng.sample([n for n in NAMES if n not in ("_", "__")], k)
        ts = [rng.choice(tys) for _ in ns]
        order = list(range(k))
        rng.shuffle(order)
        src = "registo Q\n" + "".join("    %s: %s\n" % (n, t) for n, (t, _) in zip(ns, ts)) + "fim\nq: Q = Q(" + ", ".join("%s: %s" % (ns[i], ts[i][1]) for i in order) + ")\n"
        src += "".join("mostra q.%s\n" % n for n in ns)
        i, j = rng.randrange(k), rng.randrange(k)
        src += "p: Q = q\np.%s = %s\n" % (ns[i], rng.choice([v for t, v in tys if t == ts[i][0]] if ts[i][0] != "int" else ["9", "8"])) + "".join("mostra q.%s\n" % n for n in ns) + "mostra q.%s == p.%s\n" % (ns[j], ns[j]) * (ts[j][0] in ("int", "real", "texto", "bool"))
        out.append(src)
    return out


# ------------------------------------------------------------------ C11
def variants(deep=False):
    """Unions with many variants, and with variants of many sizes"""
    out = []
    for n in (1, 2, 3, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300) + ((511, 513, 1000) if deep else ()):
        some = sorted({0, 1, 2, n // 2, n - 3, n - 2, n - 1} & set(range(n)))
        more = sorted(set(some) | {k for k in (43, 44, 255, 256, 257) if k < n})
        name = lambda k: "V%d" % k
        payload = lambda k: "" if k % 3 == 0 else "(int)" if k % 3 == 1 else "(int, texto)"
        value = lambda k: "U::V%d" % k + ("" if k % 3 == 0 else "(%d)" % (k * 2) if k % 3 == 1 else "(%d, 't%d')" % (k * 3, k))
        pattern = lambda k: "U::V%d" % k + ("" if k % 3 == 0 else "(a)" if k % 3 == 1 else "(a, b)")
        gives = lambda k: "'s%d'" % k if k % 3 == 0 else "f'u%d {a}'" % k if k % 3 == 1 else "f'd%d {a} {b}'" % k
        decl = "uniao U\n" + ",\n".join("    V%d%s" % (k, payload(k)) for k in range(n)) + "\nfim\n"
        arms = lambda ks: ",\n".join("        %s => %s" % (pattern(k), gives(k)) for k in ks)
        shows = lambda ks: "".join("mostra f(%s)\n" % value(k) for k in ks)
        out.append(decl + "func f(u: U): texto\n    retorna iguala u\n%s\n    fim\nfim\n" % arms(range(n)) + shows(more))
        out.append(decl + "func f(u: U): texto\n    retorna iguala u\n%s\n    fim\nfim\n" % arms(reversed(range(n))) + shows(more))
        if n > 1:
            out.append(decl + "func f(u: U): texto\n    retorna iguala u\n%s,\n        _ => 'resto'\n    fim\nfim\n" % arms(some[:-1]) + shows(more))
        for k in more[:4] if n < 200 else more:
            out.append(decl + "func f(u: U): texto\n    se iguala u => %s entao\n        retorna %s\n    senao\n        retorna 'nao'\n    fim\nfim\n" % (pattern(k), gives(k)) + shows(more) + "x: U = %s\ny: U = x\nmostra f(y)\nz: indef = x\nmostra f(%s)\n" % (value(k), value((k + 1) % n)))
    # payloads of many sizes and types
    for n in (1, 2, 3, 10, 100, 254, 255):
        src = "uniao U\n    A(%s),\n    B\nfim\n" % ", ".join("int" if k % 2 else "real" for k in range(n))
        src += "u: U = U::A(%s)\n" % ", ".join(str(k * 7 % 1000) for k in range(n))
        src += "mostra iguala u\n    U::A(%s) => %s,\n    U::B => 0.5\nfim\n" % (", ".join("p%d" % k for k in range(n)), " + ".join("p%d * %d" % (k, k % 5 + 1) for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))))
        out.append(src + "mostra iguala u\n    U::A(%s) => p + 0.5,\n    _ => 0.5\nfim\n" % ", ".join(["q%d" % k for k in range(n - 1)] + ["p" if n % 2 == 0 else "p"]))
    # nested payloads: the same numbers of variants of several unions inside one another
    rng = random.Random(6)
    for _ in range(200):
        us = ["U%d" % k for k in range(3)]
        shape = {u: [rng.choice([[], ["int"], [rng.choice(us[:i])] if i else ["texto"], ["int", rng.choice(us[:i])] if i else ["int", "int"]]) for _ in range(rng.randrange(2, 5))] for i, u in enumerate(us)}

        def val(u):
            k = rng.randrange(len(shape[u]))
            return "%s::V%d" % (u, k) + ("(%s)" % ", ".join({"int": str(rng.randrange(4)), "texto": "'%s'" % rng.choice("ab")}.get(t) or val(t) for t in shape[u][k]) if shape[u][k] else "")

        def pat(u, d=0):
            if rng.random() < .15 + .2 * d:
                return rng.choice(["_", "_"])
            k = rng.randrange(len(shape[u]))
            return "%s::V%d" % (u, k) + ("(%s)" % ", ".join({"int": rng.choice([str(rng.randrange(4)), "_"]), "texto": rng.choice(["'a'", "_"])}.get(t) or pat(t, d + 1) for t in shape[u][k]) if shape[u][k] else "")
        ps = []
        for _ in range(rng.randrange(2, 8)):
            p, w = pat("U2"), 0
            while "(_" in p or ", _" in p:
                w += 1
                p = re.sub(r"([(] *|, )_", r"\g<1>w%d" % w, p, count=1)
            if p != "_" and p not in ps:
                ps.append(p)
        src = "".join("uniao %s\n%s\nfim\n" % (u, ",\n".join("    V%d%s" % (k, "(%s)" % ", ".join(t) if t else "") for k, t in enumerate(shape[u]))) for u in us)
        src += "func f(u: U2): int\n    retorna iguala u\n%s\n        _ => 99\n    fim\nfim\n" % "".join("        %s => %d,\n" % (p, k) for k, p in enumerate(ps))
        out.append(src + "".join("mostra f(%s)\n" % val("U2") for _ in range(14)))
    return out


# ------------------------------------------------------------------ C12
def module_names():
    """Modules named like the libraries, like each other in other folders, and
    like what they define"""
    out = []
    body = lambda k: "v: int = %d\nfunc f(a: int): int\n    retorna a + v\nfim\nfunc piso(x: real): int\n    retorna %d\nfim\nregisto R\n    c: int\nfim\nmet R::m(alvo): int\n    retorna alvo.c * %d\nfim\n" % (k, k * 10, k)
    paths = ["mat.ama", "mat", "mat1.ama", "Mat.ama", "embutidos.ama", "main.ama", "sub/mat.ama", "sub/a.ama", "a.ama", "sub/sub/a.ama", "__main__.ama", "./a.ama", "./sub/../a.ama", "sub/./a.ama", "a b.ama", "ç.ama", "f.ama", "R.ama"]
    for p in paths:
        for use in ("=> M", "", "=> [f]"):
            pre = "" if use != "=> M" else "M."
            src = "usa \"%s\" %s\nmostra %sf(1)\n" % (p, use, pre)
            if use == "=> M":
                src += "mostra M.v\nmostra M.f(1)\nr: M.R = M.R(c: 3)\nmostra r.m()\nmostra M.piso(2.5)\n"
            elif use == "":
                src += "mostra v\nr: R = R(c: 3)\nmostra r.m()\nmostra piso(2.5)\n"
            out.append({"m.ama": src, os.path.normpath(p if p.endswith(".ama") else p + ".ama"): body(4)})
            out.append({"m.ama": "usa \"b.ama\" => B\n" + src + "mostra B.g(2)\n", "b.ama": "usa \"%s\" => X\nfunc g(a: int): int\n    retorna X.f(a) + X.v\nfim\n" % p, os.path.normpath(p if p.endswith(".ama") else p + ".ama"): body(4)})
            out.append({"m.ama": "usa \"mat\" => L\n" + src + ("mostra L.piso(3.5)\nmostra L.abs(0 - 2)\n" if p[:3] != "mat" or p[3:4] == "1" else "mostra L.piso(3.5)\nmostra L.v\n"), os.path.normpath(p if p.endswith(".ama") else p + ".ama"): body(4)})
    # the library and a module of its name in a subfolder
    for first in (0, 1):
        uses = ["usa \"mat\" => A\n", "usa \"sub/mat.ama\" => B\n"]
        if first:
            uses.reverse()
        out.append({"m.ama": "".join(uses) + "mostra A.piso(2.5)\nmostra B.piso(2.5)\nmostra B.f(3)\nmostra A.abs(0 - 4)\n", "sub/mat.ama": body(6)})
        out.append({"m.ama": "usa \"mat\" => A\nusa \"mat.ama\" => B\nmostra A.piso(2.5)\nmostra B.piso(2.5)\nmostra B.f(3)\n" if not first else "usa \"mat.ama\" => B\nusa \"mat\" => A\nmostra A.piso(2.5)\nmostra B.piso(2.5)\nmostra B.f(3)\n", "mat.ama": body(6)})
    # imports are looked up from where the program runs, wherever the module that imports is
    for a, b, c in itertools.product(("a.ama", "sub/a.ama"), ("b.ama", "sub/b.ama"), ("b.ama", "sub/b.ama", "b", "./sub/b")):
        out.append({"m.ama": "usa \"%s\" => A\nmostra A.g(2)\n" % a, a: "usa \"%s\" => X\nfunc g(a: int): int\n    retorna X.f(a) + X.v\nfim\n" % c, b: body(4)})
    out.append({"m.ama": "usa \"sub/a.ama\" => A\nmostra A.g(2)\n", "sub/a.ama": "usa \"b.ama\" => X\nfunc g(a: int): int\n    retorna X.f(a) + X.v\nfim\n", "b.ama": body(4), "sub/b.ama": body(9)})
    for o in out:
        if any("sub/../" in x for x in o.values()):
            o["sub/q.ama"] = body(1)
    # two modules of one file name, each with a global and functions of one name
    for a, b in itertools.permutations(["a.ama", "sub/a.ama", "sub/sub/a.ama", "outro/a.ama"], 2):
        out.append({"m.ama": "usa \"%s\" => A\nusa \"%s\" => B\nv: int = 1\nfunc f(a: int): int\n    retorna a - v\nfim\nmostra A.f(1)\nmostra B.f(1)\nmostra f(1)\nmostra A.v + B.v * 100\nx: A.R = A.R(c: 2)\ny: B.R = B.R(c: 2)\nmostra x.m()\nmostra y.m()\n" % (a, b), a: body(3), b: body(5)})
    return out


# ------------------------------------------------------------------ C08
def dimensions():
    """vec with every small list of sizes, some of them out of range"""
    out = []
    for k in (1, 2, 3):
        for dims in itertools.product(("0", "1", "2", "(0 - 1)"), repeat=k):
            ty = "[" * k + "int" + "]" * k
            out.append("mostra vec(int, %s)\n" % ", ".join(dims))
            out.append("a: int = %s\nv: %s = vec(int, %s)\nmostra v\nmostra tam(v)\n" % (dims[-1], ty, ", ".join(dims[:-1] + ("a",))))
            if all(d in "12" for d in dims):
                out.append("v: %s = vec(int, %s)\nv%s = 5\nmostra v\nv%s += 2\nmostra v\n" % (ty, ", ".join(dims), "[0]" * k, "".join("[%d]" % (int(d) - 1) for d in dims)))
    for dims in ("2, 3, 4, 2", "1, 1, 1, 1, 1", "2, 0, 0 - 1", "0, 0 - 1", "3, 2, 0", "0 - 1, 0 - 1", "1, 2, 3, 4, 5, 0 - 1"):
        for t in ("int", "real", "bool", "texto"):
            out.append("mostra vec(%s, %s)\nmostra 'fim'\n" % (t, dims))
    for a, b in itertools.product((0, 1, 2, 3), repeat=2):
        out.append("func d(n: int): int\n    mostra n\n    retorna n\nfim\nm: [[real]] = vec(real, d(%d), d(%d))\nmostra m\npara i de 0..tam(m) faca\n    anexa(m[i], i)\n    m[i][0] = 5\nfim\nmostra m\n" % (a, b))
    return out


# ------------------------------------------------------------------ C15, C23
def long_code():
    """Code longer than what fits in two bytes, jumped over, into and through"""
    out = []
    filler = lambda n: "".join("        x = x + 1\n" for _ in range(n))
    for n in (2000, 5200, 8000):
        out.append("x: int = 0\nse x > 3 entao\n%s    mostra 'sim'\nsenao\n    mostra 'nao'\nfim\nmostra x\nse x == 0 entao\n%ssenao\n    mostra 'nao'\nfim\nmostra x\n" % (filler(n), filler(n)))
        out.append("func f(x: int): int\n    se x > 100 entao\n%s        retorna x\n    fim\n    para i de 0..3 faca\n        se i == 1 entao\n            continua\n        fim\n        se i == 2 entao\n            quebra\n        fim\n%s    fim\n    retorna x\nfim\nfunc g(): int\n    retorna 5\nfim\nmostra f(1)\nmostra f(200)\nmostra g()\n" % (filler(n), filler(n // 2)))
        out.append("x: int = 0\nescolha x:\n    caso 1:\n%s    caso 0:\n        mostra 'zero'\n    senao:\n%sfim\nmostra iguala x\n    1 => 1,\n    k => k + 2\nfim\n" % (filler(n // 2), filler(n // 2)))
    return out


def orders():
    """Operands that say when they are evaluated, under every operator and in
    every place that has more than one."""
    decl = """func ti(k: int): int
    mostra k
    retorna k
fim
func tr(k: int): real
    mostra k
    retorna k / 2
fim
func tb(k: int): bool
    mostra k
    retorna k % 2 == 1
fim
func tx(k: int): texto
    mostra k
    retorna 'abcdef'
fim
func to(k: int): int?
    mostra k
    retorna k
fim
func ta(k: int): indef
    mostra k
    retorna k
fim
func tv(k: int): [int]
    mostra k
    retorna [int: 10, 20, 30, 40, 50, 60, 70, 80, 90]
fim
registo R
    a: int
    b: real
    c: texto
fim
met R::m(alvo, x: int, y: real): int
    retorna x
fim
func tq(k: int): R
    mostra k
    retorna R(a: k, b: 1, c: 'z')
fim
uniao U
    A,
    B(int, real)
fim
func tu(k: int): U
    mostra k
    retorna U::B(k, 2)
fim
func f3(a: int, b: real, c: texto): int
    retorna a
fim
"""
    num = ["ti", "tr"]
    ex = []                                            # expressions of one value
    ops = ["+", "-", "*", "/", "//", "%", "<", "<=", ">", ">=", "==", "!="]
    for op in ops:
        for a in num:
            for b in num:
                ex.append("%s(5) %s %s(3)" % (a, op, b))
                ex.append("(%s(5) %s %s(3)) %s %s(2)" % (a, op if op in "+-*//%" else "+", b, op, a))
                ex.append("%s(5) %s (%s(3) + %s(2))" % (a, op, b, a))
    for op in ("e", "ou", "==", "!="):
        for a in (1, 2):
            for b in (3, 4):
                ex += ["tb(%d) %s tb(%d)" % (a, op, b), "nao tb(%d) %s tb(%d)" % (a, op, b)]
                if op in ("e", "ou"):
                    ex += ["tb(%d) e tb(%d) ou tb(5)" % (a, b), "tb(%d) ou tb(%d) e tb(6)" % (a, b), "(ti(%d) > ti(%d)) %s (ti(7) > tr(8))" % (a, b, op)]
    ex += ["tx(1) == tx(2)", "tx(1) != tx(2)", "tx(1)[ti(2)]", "tv(1)[ti(2)]", "tv(ti(1))[ti(ti(2))]", "tv(1)[ti(2)] > tv(3)[ti(4)]",
           "to(1) == nulo", "to(1).valor + to(2).valor", "to(1).valor_ou(ti(2)) - ti(3)", "to(1).valor_ou(ti(2)) >= ti(3)",
           "(ta(1):>int) - (ta(2):>int)", "f3(ti(1), tr(2), tx(3))", "f3(ti(1) + ti(2), ti(3) * tr(4), tx(5))", "f3(ti(1), ti(2), tx(3)) > f3(ti(4), tr(5), tx(6))",
           "tq(1).m(ti(2), tr(3))", "tq(ti(1)).m(ti(2), ti(3)) + tq(4).a", "tq(1).a < tq(2).a", "tq(1).b > tq(2).a",
           "R(a: ti(1), b: tr(2), c: tx(3)).a", "R(c: tx(1), b: ti(2), a: ti(3)).a", "R(b: ti(1), a: ti(2), c: tx(3)).b",
           "f'{ti(1)}-{tr(2)}-{tx(3)}-{tb(4)}'", "f'{ti(1) > ti(2)}{tv(3)[ti(4)]}'", "texto_contem(tx(1), tx(2))" if False else "tam(tv(ti(1)))",
           "[int: ti(1), ti(2), ti(3)]", "[real: ti(1), tr(2), ti(3)]", "[indef: ti(1), tr(2), tx(3), tb(4)]", "[[int]: [int: ti(1), ti(2)], tv(3)]",
           "vec(int, ti(2), ti(3))", "U::B(ti(1), tr(2))", "U::B(ti(1) - ti(2), ti(3) / tr(4))", "[U: tu(1), U::A, U::B(ti(2), ti(3))]", "-ti(1) - -ti(2)", "-(ti(4) - ti(1)) * -tr(2)", "ti(1):>real / (ti(2):>texto):>int"]
    out = []
    for e in ex:
        out.append(decl + "mostra %s\n" % e)
        out.append(decl + "func g(a: int, b: real)\n    mostra a\n    mostra %s\n    mostra b\nfim\ng(ti(21), tr(22))\n" % e)
    cond = [e for e in ex if any(o in e for o in ("<", ">=", "==", "> t", " e ", " ou "))]
    for e in cond:
        if e[0] in "[f" or "?" in e:
            continue
        out.append(decl + "se %s entao\n    mostra 'sim'\nsenao\n    mostra 'nao'\nfim\n" % e)
        out.append(decl + "se tb(2) entao\n    mostra 'um'\nsenaose %s entao\n    mostra 'sim'\nsenao\n    mostra 'nao'\nfim\n" % e)
        out.append(decl + "n: int = 0\nenquanto %s faca\n    n += 1\n    se n == 3 entao\n        quebra\n    fim\nfim\nmostra n\n" % e)
    for st in ("v[ti(1)] = ti(2)", "v[ti(1)] = v[ti(2)] - ti(3)", "tv(1)[ti(2)] = ti(3)", "v[v[ti(0)]] = v[ti(1)]", "r.a = ti(1) - ti(2)", "tq(1).a = ti(2)", "tq(ti(1)).b = ti(2) > ti(3)" if False else "tq(ti(1)).b = ti(2)",
               "x = ti(5) - ti(3)", "x -= ti(5) - ti(3)", "x *= ti(5) // ti(3)", "x += v[ti(1)]", "anexa(tv(1), ti(2))", "anexa(v, ti(1) - ti(2))", "mostra remova(v, ti(1) - ti(0))", "escreva(tx(1)[ti(2)])", "g(ti(1), ti(2), tr(3))",
               "para i de ti(0)..ti(2) inc ti(1) faca\n        mostra i\n    fim", "para i de ti(4)..ti(5) - ti(3) inc ti(1) faca\n        mostra i\n    fim", "para i de ti(0)..ti(5) inc ti(1) + ti(2) faca\n        mostra i\n    fim",
               "escolha ti(2):\n        caso ti(1):\n            mostra 'a'\n        caso ti(2):\n            mostra 'b'\n        caso ti(3):\n            mostra 'c'\n        senao:\n            mostra 'd'\n    fim",
               "escolha ti(4) - ti(1):\n        caso ti(1) + ti(2):\n            mostra 'a'\n        caso ti(3):\n            mostra 'b'\n    fim",
               "iguala tu(4)\n        U::A => mostra 'a',\n        U::B(p, q) => mostra p\n    fim".replace("=> mostra 'a'", "=> faca\n            mostra 'a'\n        fim").replace("=> mostra p", "=> faca\n            mostra p\n        fim"),
               "x = iguala ti(2)\n        1 => ti(5),\n        2 => ti(6) - ti(7),\n        _ => ti(8)\n    fim", "se ti(1) > ti(0) entao\n        mostra 1\n    senaose ti(2) > ti(3) entao\n        mostra 2\n    fim",
               "retorna"):
        body = "v: [int] = [int: 1, 2, 3]\nr: R = R(a: 1, b: 2, c: 'q')\nx: int = 9\n%s\nmostra v\nmostra x\nmostra r.a\nmostra r.b\n"
        g = "func g(a: int, b: int, c: real)\n    mostra b\nfim\n"
        if st != "retorna":
            out.append(decl + g + body % st.replace("\n    ", "\n"))
        out.append(decl + g + "func h(k: int)\n" + "".join("    " + l + "\n" for l in (body % st).splitlines()) + "fim\nh(ti(1))\n")
    return out
