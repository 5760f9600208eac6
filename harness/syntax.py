"""Texts and Syntax.tla: tokens, verdicts and fully grouped copies."""
import json
import os
import random
import tempfile

import tlc
from ama import Machinery


def kind(c):
    return "n" if c == "\n" else "s" if c.isspace() else "l" if c.isalpha() else "d" if c.isdecimal() else "w" if c.isalnum() else "o"


def units(text):
    """The characters as TLC counts them"""
    b = text.encode("utf-16-le", "surrogatepass")
    return [b[i:i + 2] for i in range(0, len(b), 2)]


def join(us):
    return b"".join(us).decode("utf-16-le", "surrogatepass")


def predict(texts, timeout=800, workers=8):
    """Returns for each text {"st", "pos", "groups", "drops", "toks"}"""
    if not texts:
        return [], {"states": 0, "transitions": 0}
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump([{"pid": i, "text": t, "kinds": "".join(kind(c) * (2 if ord(c) > 0xffff else 1) for c in t)} for i, t in enumerate(texts)], f)
    try:
        reports, st = tlc.run("Syntax", env={"PROGS": path}, workers=workers, timeout=timeout)
    finally:
        os.remove(path)
    out = [None] * len(texts)
    for r in reports:
        out[r["p"]] = r
    for i, r in enumerate(out):
        if r is None:
            raise Machinery("Syntax.tla gave no verdict on\n" + texts[i][:3000])
    return out, st


def plain(p):
    """The tokens of the text itself, not those within formatted texts"""
    out, depth = [], 0
    for k, v, l, a, b in p["toks"]:
        if depth == 0:
            out.append((k, v, l))
        depth += (k == "fstr") - (k == "fend")
    return out


def lines(p):
    """The lines at which a text that is not a module may be reported"""
    ts, i = p["toks"], p["pos"] - 1
    lo = ts[i - 1][2] if i else ts[0][2]
    depth = sum((t[0] == "fstr") - (t[0] == "fend") for t in ts[:i])
    j = i
    while depth > 0 and j < len(ts):
        depth += (ts[j][0] == "fstr") - (ts[j][0] == "fend")
        j += 1
    hi = max(t[2] for t in ts[i:min(j, len(ts) - 1) + 1])
    return min(lo, ts[i][2]), hi


def grouped(text, p):
    """The same module with every operation in parentheses, every token on the
    line it was on and nothing else in the text; none where a parenthesis
    would be taken for that of an annotation"""
    ts, us = p["toks"], units(text)
    before, after = {}, {}
    top, depth = [], 0
    for k, *_ in ts:
        top.append(depth == 0)
        depth += (k == "fstr") - (k == "fend")
    for a, b in p["groups"]:
        if not top[a - 1]:
            continue
        while not top[b - 1]:
            b -= 1
        before[a] = before.get(a, 0) + 1
        after[b] = after.get(b, 0) + 1
    if any(ts[a - 2][0] == "id" and ts[a - 3][0] in ("@", "@@") for a in before if a > 2):
        return None
    # a match as a whole condition needs its parentheses
    kept, opens = set(), []
    for i in sorted(p["drops"]):
        if ts[i - 1][0] == "(":
            opens.append(i)
        else:
            j = opens.pop()
            if ts[j][0] == "iguala":
                kept |= {i, j}
    out, line = [], 1
    for i, (k, v, l, a, b) in enumerate(ts, 1):
        if not top[i - 1] or k == "eof":
            continue
        if line < l and k != "nl":
            raise Machinery("lines: " + text)
        raw = "" if i in p["drops"] and i not in kept else join(us[a - 1:b])
        out.append("(" * before.get(i, 0) + raw + ")" * after.get(i, 0))
        if raw != "\n":
            out.append(" ")
        line += raw.count("\n")
    return "".join(out)


SPELL = {"id": ["x", "y", "_", "abc", "é1", "fim_", "f"], "int": ["0", "12", "007"], "real": ["1.5", "0.0"], "str": ["'a'", '"b\\n"', '"multi\nlinha"'],
         "F0": ["f'k'", 'f"{{"'], "F1": ["f'{x}'", 'f"a {y} b"'], "nl": ["\n"], "eof": [""]}


def walks(num, seed, workers=8, timeout=300):
    """Sentences of the grammar, as sequences of tokens"""
    fd, path = tempfile.mkstemp(suffix=".json")
    os.write(fd, b"[]")
    os.close(fd)
    try:
        reports, st = tlc.run("SyntaxWalk", env={"PROGS": path}, workers=workers, timeout=timeout, simulate="num=%d" % max(1, num // workers), extra=["-depth", "60", "-seed", str(seed)])
    finally:
        os.remove(path)
    return sorted(r["ks"] for r in reports), st


GAPS = [" ", " ", " ", " ", "", "  ", "\t", " \x0c", "\xa0"]


def spell(ks, rng):
    """A text for a sequence of tokens"""
    out = []
    for k in ks:
        if k == "nl" and rng.random() < .2:
            out.append(" # nota '{\"")
        out.append(rng.choice(SPELL[k]) if k in SPELL else k)
        out.append(rng.choice(GAPS))
    return "".join(out)


def loose(text, p, rng):
    """The same tokens with other blanks and comments between them"""
    us, out, depth = units(text), [], 0
    for k, v, l, a, b in p["toks"]:
        if depth == 0 and k not in ("eof", "err"):
            if k == "nl" and rng.random() < .15:
                out.append("# f'{ x \" fim")
            out.append(join(us[a - 1:b]))
            out.append(rng.choice(GAPS) if rng.random() < .3 else " ")
        depth += (k == "fstr") - (k == "fend")
    return "".join(out)


NAMES = {"INTEGER": "int", "REAL": "real", "STRING": "str", "FORMAT_STR": "fstr", "IDENTIFIER": "id", "NEWLINE": "nl", "LPAR": "(", "RPAR": ")", "DOT": ".", "DDOT": "..", "SEMI": ";",
         "COMMA": ",", "LBRACE": "{", "RBRACE": "}", "LBRACKET": "[", "RBRACKET": "]", "AT": "@", "DOUBLEAT": "@@", "COLON": ":", "QMARK": "?", "DOUBLECOLON": "::", "CAST": ":>",
         "ARROW": "=>", "PLUS": "+", "MINUS": "-", "STAR": "*", "SLASH": "/", "DOUBLESLASH": "//", "MODULO": "%", "PLUSEQ": "+=", "MINUSEQ": "-=", "STAREQ": "*=", "SLASHEQ": "/=",
         "LESS": "<", "GREATER": ">", "LESSEQ": "<=", "GREATEREQ": ">=", "NOTEQUAL": "!=", "EQUAL": "=", "DOUBLEEQUAL": "==", "__eof__": "eof", "ERR": "err"}


def real(toks):
    """The tokens of the real lexer, named as in the specification"""
    return [(NAMES.get(k, k.lower()), v, l) for k, v, l in toks]


def unlike(p, toks):
    """Where the tokens of the real lexer are not those of the specification"""
    want = plain(p)
    if any(k == "err" for k, _, _ in want):
        want = want[:[k for k, _, _ in want].index("err") + 1]
    got = real(toks)
    for i in range(max(len(want), len(got))):
        if i >= len(want) or i >= len(got):
            return "token %d: expected %s, got %s" % (i + 1, want[i:i + 1], got[i:i + 1])
        (k, v, l), (k2, v2, l2) = want[i], got[i]
        if k == "int":
            same = v2.isdecimal() and int(v) == int(v2)
        elif k == "real":
            same = float(v) == float(v2)
        elif k in ("eof", "err", "nl"):
            same = True
        else:
            same = v == v2
        if k != k2 or not same or (l != l2 and k != "eof"):
            return "token %d: expected %s at line %d, got %s at line %d" % (i + 1, (k, v), l, (k2, v2), l2)


SYMBOLS = ("mostra e ou nao verdadeiro falso caso retorna produz se senao senaose escolha entao enquanto para faca de continua quebra usa alvo registo iguala inc fim func met nulo vazio "
           "nativa uniao classe como x y int 1 2.5 'a' \"b\" f'{x}' f'k' ( ) .. . ; , { } [ ] @ @@ : ? :: :> => + - * / // % += -= *= /= < > <= >= != = == _ ! # $ ' \" \\ \\n").split(" ") + ["\n", "\n"]
CHARS = "abf1.2_ \t\n\n#'\"\\n{}()[]:=>+-*/@;,?!<é²٣%$\x0c\u2028€\U0001f600"


def soup(n, rng):
    """Texts of random tokens and of random characters"""
    out = []
    for i in range(n):
        if i % 2:
            out.append(" ".join(rng.choice(SYMBOLS) for _ in range(rng.choice([2, 3, 4, 6, 9]))))
        else:
            out.append("".join(rng.choice(CHARS) for _ in range(rng.choice([2, 3, 5, 8, 14, 20]))))
    return out


def edits(text, rng, n):
    """Copies of a text with a token or a character lost, added or moved"""
    import mutate

    out = []
    for _ in range(n):
        ts = [t[1] for t in mutate.tokens(text)] or [" "]
        for _ in range(rng.choice([1, 1, 2])):
            i, j = rng.randrange(len(ts)), rng.randrange(len(ts))
            how = rng.choice(["del", "del", "dup", "ins", "ins", "nl", "cut", "swap", "char-", "char+"])
            if how == "del" and len(ts) > 1:
                del ts[i]
            elif how == "dup":
                ts.insert(i, ts[i])
            elif how == "ins":
                ts.insert(i, " " + rng.choice(SYMBOLS) + " ")
            elif how == "nl":
                ts.insert(i, "\n")
            elif how == "cut":
                ts = ts[:i + 1]
            elif how == "swap":
                ts[i], ts[j] = ts[j], ts[i]
            elif ts[i]:
                k = rng.randrange(len(ts[i]))
                ts[i] = ts[i][:k] + (ts[i][k + 1:] if how == "char-" else rng.choice(CHARS) + ts[i][k:])
        out.append("".join(ts))
    return out


def short(most=3):
    """All texts of the first characters of tokens, up to a length"""
    import itertools

    alphabet = "a1f_.:=>'\"\\n\n #+-/*{[@<!?é² \t;,%e"
    return ["".join(p) for k in range(1, most + 1) for p in itertools.product(alphabet, repeat=k)]


def pairs():
    """All pairs of tokens, with nothing, a blank, a line and a comment between"""
    atoms = sorted(set(SYMBOLS) | {"fim_", "_fim", "fim1", "e1", "f", "f2", "12.5", "1.", ".5", "1..2", "Fim", "é", "não", "0", "00", "''", '""', "'\\''", '"\\""', "'\\n'", "'a\nb'", "#c", "f''", "f'{{'"})
    return [a + g + b for a in atoms for b in atoms for g in ("", " ", "\n", "#'\n")]
