"""Runs of real bytecode predicted with VM.tla."""
import json
import os
import re
import tempfile

import bson
import conf
import lang
import tlc
from ama import Machinery, REPO
from front import clusters

NAMES = ("MOSTRA LOAD_CONST LOAD_NAME OP_ADD OP_MINUS OP_MUL OP_DIV OP_FLOORDIV OP_MODULO OP_INVERT OP_AND OP_OR OP_NOT OP_EQ OP_NOTEQ OP_GREATER "
         "OP_GREATEREQ OP_LESS OP_LESSEQ OP_INDEX_GET OP_INDEX_SET GET_GLOBAL SET_GLOBAL JUMP JUMP_IF_FALSE GET_LOCAL SET_LOCAL CALL_FUNCTION RETURN "
         "CAST BUILD_STR BUILD_VEC LOAD_REGISTO BUILD_OBJ GET_PROP SET_PROP OP_UNWRAP OP_ISNULL LOAD_MODULE_DEF BUILD_VARIANT BIND_MATCH_ARGS "
         "MATCH_VARIANT POP_TOP").split()
TWO = {"CALL_FUNCTION", "CAST", "BUILD_STR", "BUILD_VEC", "BUILD_OBJ", "OP_UNWRAP", "BUILD_VARIANT", "BIND_MATCH_ARGS"}
THREE = {"LOAD_CONST", "LOAD_NAME", "SET_LOCAL", "GET_LOCAL", "GET_GLOBAL", "SET_GLOBAL", "LOAD_REGISTO"}
NINE = {"JUMP", "JUMP_IF_FALSE", "MATCH_VARIANT"}


def size(op):
    return 2 if op in TWO else 3 if op in THREE else 9 if op in NINE else 17 if op == "LOAD_MODULE_DEF" else 1


def numbering():
    """Byte of every instruction: the order of the machine's own table"""
    try:
        src = open(os.path.join(REPO, "amanda/vm/src/opcode.rs"), encoding="utf8").read()
        body = re.search(r"enum\s+OpCode\s*\{(.*?)\}", src, re.S).group(1)
        names = [n for n in re.findall(r"^\s*([A-Z]\w*)\s*(?:=\s*\w+)?\s*,", body, re.M)]
        snake = [re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", n).upper() for n in names]
        fix = {"OP_FLOOR_DIV": "OP_FLOORDIV", "OP_NOT_EQ": "OP_NOTEQ", "OP_GREATER_EQ": "OP_GREATEREQ", "OP_LESS_EQ": "OP_LESSEQ",
               "UNWRAP": "OP_UNWRAP", "IS_NULL": "OP_ISNULL"}
        out = [fix.get(n, n) for n in snake if n != "HALT"]
        if sorted(out) == sorted(NAMES):
            return out
    except (OSError, AttributeError):
        pass
    return list(NAMES)


def optable(ops):
    return [ops[k] if k < len(ops) else "HALT" if k == 255 else "?" for k in range(256)]


def const(c, codec):
    """The value a constant of a module stands for"""
    if isinstance(c, int):
        return lang.val_int(c)
    if isinstance(c, float):
        return real(c)
    if c in ("verdadeiro", "falso"):
        return {"t": "b", "v": c == "verdadeiro"}
    if c == "nulo":
        return {"t": "n"}
    if re.fullmatch(r"[+-]?[0-9]+", c) and -2 ** 63 <= int(c) < 2 ** 63:
        return lang.val_int(int(c))
    if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", c):
        return real(float(c))
    if c[:1] in "\"'" and len(c) > 1:
        c = c[1:-1]
    return {"t": "s", "v": codec.enc(clusters(c))}


def real(x):
    return lang.val_double(x)


def module(doc, codec):
    return {
        "name": doc["name"], "builtin": bool(doc["builtin"]), "entry_locals": doc["entry_locals"],
        "consts": [const(c, codec) for c in doc["constants"]], "names": doc["names"], "chars": [codec.enc(clusters(n)) for n in doc["names"]],
        "code": list(doc["ops"]), "srcmap": doc["src_map"],
        "funcs": [{"name": f["name"], "dn": codec.enc(clusters(f["name"])), "start": f["start_ip"], "locals": f["locals"], "module": f["module"]} for f in doc["functions"]],
        "regs": [{"chars": codec.enc(clusters(r["name"])), "fields": [codec.enc(clusters(x)) for x in r["fields"]]} for r in doc["registos"]],
    }


def program(doc, inp, codec, pid, ops):
    mods = [module(m, codec) for m in doc["imports"]] + [module(doc, codec)]
    lines = inp.split("\n")
    if lines[-1] == "":
        lines.pop()
    return {"pid": pid, "mods": mods, "ops": ops, "inp": [codec.enc(clusters(l)) for l in lines]}


def spec(name, table, timeout, workers):
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(table, f)
    try:
        return tlc.run(name, env={"MODS": path}, workers=workers, timeout=timeout)
    finally:
        os.remove(path)


def facts(src):
    """What the code of a program does not say: how many variants its unions
    have, and whether a statement may end in the middle of an expression"""
    unions = set()
    for t in src.values():
        for body in re.findall(r"\buniao\s+\w+\s(.*?)\bfim\b", t, re.S):
            depth, n = 0, 1
            for c in body:
                depth += c == "("
                depth -= c == ")"
                n += c == "," and depth == 0
            unions.add(n)
    return {"strict": not any("produz" in t for t in src.values()), "unions": sorted(unions)}


def paths(docs, timeout=800, workers=8):
    """docs: list of (document, {file: source}): what is wrong on some path, or None"""
    codec, ops = lang.Codec(), optable(numbering())
    table = [dict(program(d, "", codec, i, ops), **facts(src)) for i, (d, src) in enumerate(docs)]
    reports, stats = spec("Code", table, timeout, workers)
    out = [0] * len(docs)
    for r in reports:
        out[r["p"]] = None if r["st"] == "safe" else "%s (module %d, byte %d)" % (r["why"], r["at"][0], r["at"][1])
    if 0 in out:
        raise Machinery("no verdict for module %d" % out.index(0))
    return out, stats


def predict(docs, timeout=800, workers=8):
    """docs: list of (document, input)"""
    codec, ops = lang.Codec(), optable(numbering())
    table = [program(d, inp, codec, i, ops) for i, (d, inp) in enumerate(docs)]
    reports, stats = spec("VM", table, timeout, workers)
    preds = [None] * len(docs)
    for r in reports:
        d = {"kind": {"ok": "ok", "err": "rt"}.get(r["st"], r["st"]), "out": codec.dec(r["out"]), "why": r["why"], "at": (r["m"], r["ip"]), "left": r["left"], "steps": r["n"]}
        if r["st"] == "err":
            d["code"] = r["code"]
            d["msg"] = conf.MSG[r["code"]].format(*[conf.decode(codec, a) for a in r["args"]])
            d["line"] = r["flow"][-1][0]
            d["flow"] = [[ln, codec.dec(fn)] for ln, fn in r["flow"][:-1]]
        preds[r["p"]] = d
    for i, p in enumerate(preds):
        if p is None:
            raise Machinery("no prediction for module %d" % i)
    return preds, stats


def disassemble(doc):
    ops, c, ip, out = numbering(), doc["ops"], 0, []
    while ip < len(c):
        op = "HALT" if c[ip] == 255 else ops[c[ip]] if c[ip] < len(ops) else "?%d" % c[ip]
        z = size(op)
        arg = [int.from_bytes(c[ip + 1:ip + 9], "big"), int.from_bytes(c[ip + 9:ip + 17], "big")] if z == 17 else [int.from_bytes(c[ip + 1:ip + z], "big")] if z > 1 else []
        note = ""
        try:
            if op == "LOAD_CONST":
                note = repr(doc["constants"][arg[0]])
            elif op in ("LOAD_NAME", "GET_GLOBAL", "SET_GLOBAL"):
                note = doc["names"][arg[0]]
            elif op == "LOAD_MODULE_DEF":
                note = doc["names"][arg[1]]
        except IndexError:
            note = "!"
        out.append("%5d %s %s %s" % (ip, op, " ".join(map(str, arg)), note))
        ip += z
    return out
