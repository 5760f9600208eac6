"""Conformance: what Amanda.tla says a program does against what the compiler
and the VM do with it."""
import json
import os
import re
import tempfile

import lang
import tlc
from ama import Machinery

MSG = {
    1: "Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis",
    2: "não pode dividir um número por zero",
    3: "não pode calcular o resto da divisão de um número por zero",
    4: "Erro de índice inválido. Vectores só podem ser indexados com inteiros positivos",
    5: "Erro de índice inválido. O tamanho do vector é {0}, mas tentou aceder o índice {1}",
    6: "Erro de índice inválido. Strings só podem ser indexadas com inteiros positivos",
    7: "Erro de índice inválido. O tamanho da string é {0}, mas o índice é {1}",
    8: "Não pode aceder uma referência nula",
    9: "Limite máximo de recursão atingido",
    10: "A sequência de caracteres '{0}' não é um inteiro válido",
    11: "A sequência de caracteres '{0}' não é um número real válido",
    12: "Conversão inválida. O tipo original do valor é '{0}', mas tentou converter o valor para o tipo '{1}'",
    13: "Valor introduzido não é um inteiro válido",
    14: "Valor introduzido não é um número real válido",
    15: "Dimensões de um vector devem ser especificidas por números inteiros positivos",
}


def decode(codec, a):
    return codec.dec(a) if isinstance(a, list) else str(a)


def predict(progs, workers=8, timeout=800, cfg=None):
    """progs: list of (prog, stdin).  Returns (predictions, sources, stats);
    a prediction is a dict kind=ok|rt|foreign|long, out, msg, line, flow."""
    codec, table, sources = lang.Codec(), [], []
    for i, (prog, inp) in enumerate(progs):
        sources.append(lang.render(prog))
        table.append(lang.flatten(prog, codec, i, inp))
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(table, f)
    try:
        reports, stats = tlc.run("Amanda", cfg=cfg, env={"PROGS": path}, workers=workers, timeout=timeout)
    finally:
        os.remove(path)
    preds = [None] * len(progs)
    for r in reports:
        t = table[r["p"]]
        d = {"kind": {"ok": "ok", "err": "rt"}.get(r["st"], r["st"]), "out": codec.dec(r["out"]), "steps": r["n"]}
        if r["st"] == "err":
            d["code"] = r["code"]
            d["msg"] = MSG[r["code"]].format(*[decode(codec, a) for a in r["args"]])
            d["line"] = r["flow"][-1][0]
            d["flow"] = [[ln, t["funcs"][fn]["dn"]] for ln, fn in r["flow"][:-1]]
        preds[r["p"]] = d
    for i, p in enumerate(preds):
        if p is None:
            raise Machinery("no prediction for program %d" % i)
    return preds, sources, stats


def jobs(progs, sources):
    return [{"files": src, "main": prog["mods"][prog["main"]].get("file", prog["main"] + ".ama"), "stdin": inp}
            for (prog, inp), src in zip(progs, sources)]


def untag(out):
    """The number that stands for a variant is of no consequence"""
    return re.sub(r"<Variante\(\d+\)>", "<Variante>", out)


def differs(pred, real):
    """None if the real run is the predicted one, else what is different."""
    if pred["kind"] in ("foreign", "long") or real["kind"] == "skipped":
        return None
    if real["kind"] != pred["kind"]:
        return "expected %s, got %s (%s)" % (show(pred), real["kind"], (real.get("err") or "").strip()[-300:])
    if untag(real["out"]) != untag(pred["out"]):
        return "expected output %r, got %r" % (pred["out"], real["out"])
    if pred["kind"] == "rt":
        for f in ("msg", "line", "flow"):
            if real[f] != pred[f]:
                return "expected %s %r, got %r" % (f, pred[f], real[f])
    return None


def show(p):
    return "error %r at %s" % (p["msg"], p["line"]) if p["kind"] == "rt" else "output %r" % p["out"]
