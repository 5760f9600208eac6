"""Small changes to source texts, at the level of tokens and lines, most of
which the static rules must notice."""
import random
import re

TOKEN = re.compile(r"""(?P<cm>\#[^\n]*)|(?P<str>f?"(?:\\.|[^"\\])*"|f?'(?:\\.|[^'\\])*')|(?P<real>\d+\.\d+)|(?P<int>\d+)
|(?P<id>[^\W\d]\w*)|(?P<op>::|:>|=>|\.\.|//|[-+*/<>=!]=|[-+*/%<>=.,;:?@()\[\]{}])|(?P<nl>\n)|(?P<ws>[^\S\n]+)|(?P<other>.)""", re.X | re.S)
TYPES = ["int", "real", "bool", "texto", "indef"]
BIN = ["==", "!=", "<", ">", "<=", ">=", "+", "-", "ou", "*", "/", "//", "%", "e"]
LITS = ["0", "1", "7", "1.5", '"a"', "verdadeiro", "nulo", "falso", "''", "9223372036854775808", "9223372036854775807"]
LINES = ["retorna", "retorna 1", "retorna 1.5", "retorna verdadeiro", "quebra", "continua", "produz 1", "produz \"a\"", "mostra alvo", "zz: int = 1", "zz: indef = nulo",
         "zz: [int]", "zz: real? = 1", "zz = 1", "tam(\"a\")", "mostra vec(int, 2)", "mostra anexa([int: 1], 1.0)", "mostra [real: 1, 2]", "mostra nulo", "mostra int", "int = 2",
         "func zz(): int\nretorna 1\nfim", "func zz(a: int, a: int)\nfim", "registo ZZ\na: int\na: real\nfim", "registo ZZ\na: ZZ?\nfim", "uniao ZZ\nA,\nA(int)\nfim",
         "uniao ZZ\nA(ZZ),\nB\nfim", "met int::zz(alvo): int\nretorna alvo\nfim", "se 1 entao\nfim", "se verdadeiro entao\nretorna 1\nfim", "zz: zz",
         "enquanto verdadeiro faca\nquebra\nfim", "iguala 1\n_ => 1\nfim", "mostra 1 :> bool", "mostra f\"{nulo}\"", "mostra -\"a\"", "escolha 1.5:\ncaso 1:\nfim"]


def tokens(src):
    return [[m.lastgroup, m.group()] for m in TOKEN.finditer(src)]


def text(ts):
    return "".join(t for _, t in ts)


def change(rng, src):
    """One change; None when it does not apply"""
    ts = tokens(src)
    real = [i for i, (k, _) in enumerate(ts) if k not in ("cm", "ws", "nl")]
    if not real:
        return None
    ids = sorted({t for k, t in ts if k == "id"})
    how = rng.choice(["id", "id", "id", "lit", "type", "op", "line-", "line+", "line-move", "line-new", "arg-", "arg+", "wrap", "opt", "tok-", "tok2", "member"])
    pick = lambda *ks: [i for i in real if ts[i][0] in ks]
    if how == "id":
        at = [i for i in pick("id") if ts[i][1] not in KEYS]
        if not at:
            return None
        i = rng.choice(at)
        ts[i][1] = rng.choice([x for x in ids if x not in KEYS] + TYPES + ["zz", "_", "alvo", "tam", "Opcao"])
    elif how == "lit":
        at = pick("int", "real", "str") + [i for i in pick("id") if ts[i][1] in ("verdadeiro", "falso", "nulo")]
        if not at:
            return None
        i = rng.choice(at)
        ts[i][1] = rng.choice(LITS + [x for x in ids if x not in KEYS])
    elif how == "type":
        at = [i for i in pick("id") if ts[i][1] in TYPES]
        if not at:
            return None
        i = rng.choice(at)
        t = rng.choice(TYPES + [x for x in ids if x[:1].isupper()] + ["vazio"])
        ts[i][1] = rng.choice([t, t, t, "[" + t + "]", t + "?", "[" + t + "?]", "[" + t + "]?"])
    elif how == "op":
        at = [i for i in real if ts[i][1] in BIN]
        if not at:
            return None
        ts[rng.choice(at)][1] = rng.choice(BIN)
    elif how.startswith("line"):
        ls = src.split("\n")
        i = rng.randrange(len(ls))
        if how == "line-":
            del ls[i]
        elif how == "line+":
            ls.insert(i, ls[i])
        elif how == "line-new":
            ls.insert(i, rng.choice(LINES))
        else:
            x = ls.pop(i)
            ls.insert(rng.randrange(len(ls) + 1), x)
        return "\n".join(ls)
    elif how == "arg-":
        at = [i for i in real if ts[i][1] == ","]
        if not at:
            return None
        i = rng.choice(at)
        j = i + 1
        while j < len(ts) and ts[j][1] not in (",", ")", "]", "(", "\n"):
            j += 1
        del ts[i:j]
    elif how == "arg+":
        at = [i for i in real if ts[i][1] in (")", "]")]
        if not at:
            return None
        i = rng.choice(at)
        ts[i][1] = ", " + rng.choice(LITS + [x for x in ids if x not in KEYS]) + ts[i][1]
    elif how == "wrap":
        at = [i for i in pick("int", "real", "str", "id") if ts[i][1] not in KEYS]
        if not at:
            return None
        i = rng.choice(at)
        x = ts[i][1]
        ts[i][1] = rng.choice(["-" + x, "(nao %s)" % x, x + "[0]", x + ".valor", x + ".valor_ou(1)", x + ":>int", x + ":>texto", x + ":>real", x + ":>bool", x + ":>int?", x + "()",
                               x + "(1)", "[int: %s]" % x, "tam(%s)" % x, "f'{%s}'" % x, "(%s == nulo)" % x, "(%s + 1)" % x, x + "[nulo]", "(iguala 1\n_ => %s\nfim)" % x])
    elif how == "opt":
        at = [i for i in pick("id") if ts[i][1] in TYPES]
        if not at:
            return None
        ts[rng.choice(at)][1] += "?"
    elif how == "tok-":
        del ts[rng.choice(real)]
    elif how == "tok2":
        i, j = rng.choice(real), rng.choice(real)
        ts[i][1], ts[j][1] = ts[j][1], ts[i][1]
    elif how == "member":
        at = [k for k, i in enumerate(real) if ts[i][1] in (".", "::") and k + 1 < len(real)]
        if not at:
            return None
        i = real[rng.choice(at) + 1]
        ts[i][1] = rng.choice([x for x in ids if x not in KEYS] + ["valor", "valor_ou", "zz"])
    return text(ts)


from front import KEYWORDS
KEYS = set(KEYWORDS)


def mutants(files, rng, n):
    """n different changed copies of a program (dict of files), one or two changes each"""
    out, seen = [], {tuple(sorted(files.items()))}
    for _ in range(n * 4):
        f = dict(files)
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(sorted(f))
            new = change(rng, f[k])
            if new is not None:
                f[k] = new
        key = tuple(sorted(f.items()))
        if key not in seen:
            seen.add(key)
            out.append(f)
            if len(out) == n:
                break
    return out
