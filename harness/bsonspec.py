"""Documents and Bson.tla: what the compiler writes and what the machine reads."""
import json
import os
import random
import struct
import tempfile

import tlc
from ama import Machinery


def spec(v):
    """A document as the specification has it"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return {"t": "i", "s": "-" if v < 0 else "+", "w": [(abs(v) >> (16 * k)) & 0xffff for k in range(4)]}
    if isinstance(v, float):
        s = "-" if struct.pack(">d", v)[0] & 128 else "+"
        if v - v != 0:
            return {"t": "r", "k": "nan" if v != v else "inf", "s": s, "m": [], "e": 0}
        n, d = abs(v).as_integer_ratio()
        e = -(d.bit_length() - 1)
        while n and n % 2 == 0:
            n, e = n // 2, e + 1
        return {"t": "r", "k": "num", "s": s, "m": [int(b) for b in bin(n)[2:]] if n else [], "e": e if n else 0}
    if isinstance(v, str):
        return {"t": "s", "v": [ord(c) for c in v]}
    if isinstance(v, (bytes, bytearray)):
        return {"t": "b", "v": list(v)}
    if isinstance(v, (list, tuple)):
        return {"t": "a", "v": [spec(x) for x in v]}
    return {"t": "d", "v": [{"n": [ord(c) for c in k], "v": spec(x)} for k, x in v.items()]}


def wire(v):
    """A document as the job of the server has it"""
    if isinstance(v, (bytes, bytearray)):
        return {"__b": v.hex()}
    if isinstance(v, float):
        return {"__f": v.hex()}
    if isinstance(v, (list, tuple)):
        return [wire(x) for x in v]
    if isinstance(v, dict):
        return {k: wire(x) for k, x in v.items()}
    return v


def unwire(v):
    if isinstance(v, dict):
        if list(v) == ["__b"]:
            return bytes.fromhex(v["__b"])
        if list(v) == ["__f"]:
            return float.fromhex(v["__f"])
        return {k: unwire(x) for k, x in v.items()}
    return [unwire(x) for x in v] if isinstance(v, list) else v


def predict(cases, timeout=800, workers=8):
    """cases: (document, bytes of it or None, constants).  The reports of the
    specification: {"st", "why", "at", "same", "bytes", "consts"}"""
    if not cases:
        return [], {"states": 0, "transitions": 0}
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump([{"pid": i, "doc": spec(d), "bytes": list(b or b""), "consts": [[ord(c) for c in s] for s in cs]} for i, (d, b, cs) in enumerate(cases)], f)
    try:
        reports, st = tlc.run("Bson", env={"PROGS": path}, workers=workers, timeout=timeout)
    finally:
        os.remove(path)
    out = [None] * len(cases)
    for r in reports:
        out[r["p"]] = r
    if None in out:
        raise Machinery("Bson.tla gave no report on a document")
    return out, st


INTS = (0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 48, 2 ** 53 + 1,
        10 ** 18, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, 0x0102030405060708, -0x0102030405060708)
REALS = (0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 100.5, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 2.0 ** 53, 123456789.125, float("inf"),
         3.141592653589793, 1e15, 1e16, 0.3)
TEXTS = ("", "a", "João Boris", "\n", "\x01", "\x7f", "\x80", "ß", "߿", "ࠀ", "€", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "a\x00b", "e\u0301", "👩‍👩‍👧",
         "'aspas'", '"x"', "\\n", "x" * 126 + "é", "x" * 127, "x" * 128, "x" * 255, "x" * 256, "é" * 128, "€" * 86, "nulo", "123")
BYTES = (b"", b"\x00", b"\xff", bytes(range(256)), b"\x00" * 300, b"\x80\x00\x05")
KEYS = ("a", "name", "x1", "0", "nome", "é", "_inicio_", "constants", "a" * 130, "€")


def scalars():
    return list(INTS) + list(REALS) + list(TEXTS) + list(BYTES)


def documents(n, rng, deep=False):
    """Every scalar in a document, an array and a nested one; every size about
    the boundaries; random documents"""
    out = [{}, {"a": {}}, {"a": []}, {"a": [[]]}, {"a": [{}]}, {"a": {"b": {}}}, {"a": [[], {}, "", b""]}]
    for v in scalars():
        out += [{"a": v}, {"l": [v]}, {"x": 1, "d": {"k": [v, v], "z": v}, "y": "f"}]
    for k in KEYS:
        out.append({k: 1, k + "2": {k: k}})
    for m in (9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 1000) + ((5000,) if deep else ()):
        out += [{"l": list(range(m))}, {"l": ["t%d" % i for i in range(m)]}, {"f%d" % i: i for i in range(m)}] if m <= 1000 else [{"l": list(range(m))}]
    for m in (120, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537) + ((70000, 140000) if deep else ()):
        out += [{"s": "z" * m}, {"s": "é" * (m // 2)}, {"b": bytes(i % 251 for i in range(m))}, {"l": ["y" * m, 7]}]

    def value(d):
        r = rng.random()
        if d > 0 and r < 0.25:
            return {(rng.choice(KEYS) + (str(i) if i else "")): value(d - 1) for i in range(rng.randrange(5))}
        if d > 0 and r < 0.5:
            return [value(d - 1) for _ in range(rng.choice([0, 1, 2, 3, 11]))]
        if r < 0.65:
            return rng.choice([rng.choice(INTS), rng.randrange(-2 ** 63, 2 ** 63), rng.randrange(-70000, 70000)])
        if r < 0.75:
            return rng.choice([rng.choice(REALS), struct.unpack("<d", rng.randbytes(7) + b"\x3f")[0], rng.uniform(-1000, 1000)])
        if r < 0.9:
            return rng.choice([rng.choice(TEXTS), "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0x10000, 0x10ffff)])) for _ in range(rng.randrange(12)))])
        return rng.choice([rng.choice(BYTES), rng.randbytes(rng.randrange(20))])

    while len(out) < n:
        out.append({(rng.choice(KEYS) + (str(i) if i else "")): value(3) for i in range(rng.randrange(1, 6))})
    return out


def constants(n, rng):
    """Texts for a module's table of constants, with the quotes of the compiler and without"""
    bare = ["verdadeiro", "falso", "nulo", "0", "-0", "+0", "007", "12", "-12", "+5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "00009223372036854775807",
            "1.50", "00.10", "0.5", "-0.25", "100.0"]
    words = bare + ["", "Verdadeiro", "inf", "NaN", "1e5", "a", "é", "€uro", "'", '"', "a'", '"a', "''", "' '", "1.2.3", "1 2", " 1", "--1", "\n", "x\ny", "\U0001f600", "e\u0301", "\\n", "'1'", '"2"', "👩‍👩‍👧", "#", "{}"]
    alphabet = "012.-+'\"aé€ \U0001f600"
    words += ["".join(rng.choice(alphabet) for _ in range(rng.randrange(1, 7))) for _ in range(n)]
    return bare + [q + w + q for w in words for q in "'\""]


def shown(c):
    """What the machine prints for a constant; None for reals, whose printed form is not told here"""
    if c["t"] in ("int", "text", "word"):
        return "".join(map(chr, c["v"]))
    return None
