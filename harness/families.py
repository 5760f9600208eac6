"""Families of programs that enumerate a region of the language, next to the
random ones of gen.py."""
import itertools
import random

from lang import *

BOUNDS = sorted({s * v + k for v in (0, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62, 10 ** 9, 10 ** 18, 3037000499, 2 ** 63)
                 for k in (-1, 0, 1) for s in (1, -1) if -(2 ** 63) <= s * v + k < 2 ** 63}
                | {2, 3, -2, -3, 7, -7, 10, 1000003, 4294967295 * 2147483647, 9007199254740995, 2 ** 63 - 2, -(2 ** 63) + 2})


def decl(n, ty, a=None):
    return {"k": "decl", "n": n, "ty": ty, "a": a}


def show(e):
    return {"k": "mostra", "a": e}


def iv(n):
    return var(n, INT)


def int_pairs(pairs):
    """Every operation of whole numbers on pairs of values"""
    out = []
    for a, b in pairs:
        head = lambda: [decl("a", INT, iexpr(a)), decl("b", INT, iexpr(b)), show(iv("a"))]
        out.append(single(head() + [show(binop(o, iv("a"), iv("b"), BOOL)) for o in ("<", "<=", ">", ">=", "==", "!=")]
                          + [show(unop("-", iv("b"), INT))]))
        for o in ("+", "-", "*", "//", "%"):
            out.append(single(head() + [show(binop(o, iv("a"), iv("b"), INT))]))
    return out


def int_forms(pairs):
    """The same operations written in other ways: as compound assignments, on
    elements, in functions"""
    out = []
    for a, b in pairs:
        for o in ("+", "-", "*", "//"):
            out.append(single([decl("a", INT, iexpr(a)), {"k": "cas", "l": iv("a"), "op": o if o != "//" else "-", "a": iexpr(b)}, show(iv("a"))]))
        for o in ("+", "-", "*", "//", "%"):
            f = {"k": "func", "n": "f", "ps": [("p", INT), ("q", INT)], "rt": INT,
                 "b": [{"k": "ret", "a": binop(o, iv("p"), iv("q"), INT)}]}
            v = {"k": "decl", "n": "v", "ty": ("vec", INT), "a": {"k": "vecl", "ty0": INT, "args": [iexpr(a), iexpr(b)], "ty": ("vec", INT)}}
            idx = lambda k: {"k": "idx", "a": var("v", ("vec", INT)), "b": ilit(k), "ty": INT}
            out.append(single([f, v, show({"k": "call", "f": "m.f", "args": [idx(0), idx(1)], "ty": INT}),
                               show(binop(o, idx(1), idx(0), INT))]))
    return out


def sample(c, items, k):
    items = list(items)
    return items if len(items) <= k else random.Random(c.seed).sample(items, k)


def int_edges():
    """Pairs that are neighbours or whose result is at the edge of the range"""
    out = []
    edge = lambda r: min(abs(r - 2 ** 63), abs(r + 2 ** 63)) <= 2
    for a in BOUNDS:
        for b in BOUNDS:
            if abs(a - b) <= 1 or edge(a + b) or edge(a - b) or edge(a * b) or (b in (0, -1) and abs(a) > 2 ** 62):
                out.append((a, b))
    return out
