"""What each check explores."""
import glob
import os
import random

import ama
import asm
import bsonspec
import conf
import failing
import families as fam
import front
import lang
import statics
import syntax
import texts
import wording

PLANS = {}


def plan(pid):
    def f(fn):
        PLANS[pid] = fn
        return fn
    return f


def corpus(c):
    """The example programs and test programs of the repository that compile"""
    repo = ama.REPO
    progs = []
    for f in sorted(glob.glob(repo + "/tests/test_cases/**/*.ama", recursive=True) + glob.glob(repo + "/examples/*.ama")):
        d = os.path.dirname(f)
        files = {}
        for g in glob.glob(d + "/**/*.ama", recursive=True):
            files[os.path.relpath(g, d)] = open(g, encoding="utf8").read()
        main = os.path.basename(f)
        try:
            p = front.read(files, main)
        except front.Unread:
            continue
        p["mods"][p["main"]]["file"] = main
        progs.append((p, "3\n4\n"))
    real = c.pool.run(conf.jobs(progs, [lang.render(p) for p, _ in progs]))
    return [p for p, r in zip(progs, real) if r["kind"] != "diag"]


@plan("C01")
def c01(c):
    c.generated("mix", c.n(1000, 20000))
    c.programs("corpus", corpus(c))
    c.sources("orders", wording.orders())


@plan("C02")
def c02(c):
    for name, quick in (("operators", 700), ("casts", 150), ("slots", 900), ("places", 500), ("arities", 200)):
        cases = getattr(statics, name)()
        c.verdicts(name, fam.sample(c, cases, c.n(quick, len(cases))))
    c.verdicts("mutants", c.mutants(c.n(900, 40000)))
    c.accepted("accepted mutants", c.mutants(c.n(500, 8000), salt=1))
    c.accepted("accepted slots", fam.sample(c, statics.slots() + statics.operators(), c.n(600, 20000)))


@plan("C20")
def c20(c):
    c.verdicts("bodies", statics.returns(1) + fam.sample(c, statics.returns(2), c.n(1100, 6000)))
    c.sources("returned", statics.returned())
    called = [s[:-9] + "mostra f(0)\nmostra f(1)\nmostra f(2)\nmostra f(7)\n" for s in statics.returns(2)]
    c.accepted("called", fam.sample(c, [s for s in called if "enquanto" not in s and "para" not in s], c.n(2500, 6000)))
    c.verdicts("mutants", c.mutants(c.n(400, 10000), profiles=["calls", "loops", "match"], salt=2))


@plan("C04")
def c04(c):
    c.verdicts("scopes", fam.sample(c, statics.scopes(), c.n(700, 3000)))
    c.generated("scope", c.n(1000, 15000))
    c.sources("shadows", fam.sample(c, texts.shadows(), c.n(350, 6000)))
    c.sources("many locals", texts.many_locals(c.deep))


@plan("C05")
def c05(c):
    c.generated("calls", c.n(900, 15000))
    c.sources("recursion", texts.recursion())
    c.sources("calls", texts.call_shapes())


@plan("C08")
def c08(c):
    c.generated("vec", c.n(900, 15000))
    c.sources("histories", texts.vec_histories(c.n(300, 8000), c.seed, c.n(7, 12)))
    c.sources("bounds", texts.vec_bounds())
    c.sources("dimensions", wording.dimensions())
    c.sources("sharing", texts.sharing(random.Random(c.seed), c.n(250, 5000)))


@plan("C09")
def c09(c):
    c.generated("rec", c.n(900, 15000))
    c.sources("records", fam.sample(c, texts.records(), c.n(350, 1000)))
    c.sources("names", fam.sample(c, wording.named(), c.n(450, 600)))
    c.scaled("chains", texts.chains(), 12, c.n(200000, 1000000))


@plan("C10")
def c10(c):
    c.generated("opt", c.n(900, 15000))
    c.sources("optionals", texts.optionals())


@plan("C12")
def c12(c):
    c.verdicts("imports", fam.sample(c, statics.imports(), c.n(900, 7000)))
    c.accepted("imported", fam.sample(c, statics.imports(), c.n(900, 7000)))
    c.generated("mods", c.n(800, 15000))
    c.verdicts("names", wording.module_names())
    c.accepted("named", wording.module_names())


@plan("C16")
def c16(c):
    c.generated("err", c.n(900, 15000))
    c.generated("calls", c.n(300, 5000))
    c.sources("failing", fam.sample(c, failing.failing(), c.n(1500, 5000)))


@plan("C19")
def c19(c):
    c.generated("loops", c.n(900, 15000))
    c.sources("loops", fam.sample(c, texts.loops(), c.n(500, 5000)))
    c.sources("jumps in values", texts.jumps_in_values())
    c.sources("ranges", texts.ranges())
    c.sources("choices", texts.choices())


@plan("C06")
def c06(c):
    c.generated("arith", c.n(500, 15000))
    pairs = [(a, b) for a in fam.BOUNDS for b in fam.BOUNDS]
    c.programs("pairs", [(p, "") for p in fam.int_pairs(fam.int_edges() + fam.sample(c, pairs, c.n(150, 10000)))])
    c.programs("forms", [(p, "") for p in fam.int_forms(fam.sample(c, pairs, c.n(60, 1000)))])


@plan("C07")
def c07(c):
    c.generated("real", c.n(900, 15000))
    c.sources("promotions", fam.sample(c, texts.promotions(), c.n(400, 2000)))


@plan("C11")
def c11(c):
    c.verdicts("exhaustive", fam.sample(c, statics.exhaustive(), c.n(1200, 10000)))
    c.verdicts("arms", fam.sample(c, statics.arms(), c.n(350, 1300)))
    c.accepted("matched", fam.sample(c, statics.exhaustive(), c.n(900, 10000)))
    c.generated("match", c.n(900, 15000))
    c.sources("variants", wording.variants(c.deep))


@plan("C17")
def c17(c):
    c.generated("text", c.n(900, 15000))
    c.sources("contents", fam.sample(c, wording.contents(), c.n(2200, 20000)))


@plan("C18")
def c18(c):
    c.generated("conv", c.n(900, 15000))
    c.sources("conversions", fam.sample(c, wording.conversions(), c.n(2200, 5000)))


PROFILES = ("mix", "match", "loops", "calls", "rec", "opt", "vec", "scope", "text", "conv", "mods", "err", "real", "arith")


def shapes(c, share):
    """The families of source programs, a share of each"""
    out = []
    for name, f in (("orders", wording.orders), ("loops", texts.loops), ("jumps", texts.jumps_in_values), ("ranges", texts.ranges), ("choices", texts.choices), ("many", texts.many_locals),
                    ("shadows", texts.shadows), ("recursion", texts.recursion), ("calls", texts.call_shapes), ("promotions", texts.promotions),
                    ("bounds", texts.vec_bounds), ("records", texts.records), ("optionals", texts.optionals)):
        cases = list(f())
        out += c.read(name, fam.sample(c, cases, share if len(cases) > share else len(cases)))
    return out


@plan("C03")
def c03(c):
    c.paths("generated", [x for p in PROFILES for x in c.programs_of(p, c.n(40, 1200), 0.9 if not c.deep else 1.3)])
    c.paths("families", shapes(c, c.n(50, 600)) + corpus(c))


@plan("C23")
def c23(c):
    c.modules("operations", fam.sample(c, asm.operations(), c.n(900, 10000)) + asm.indexes() + asm.natives())
    c.modules("wide operands", asm.wide(c.deep))
    c.modules("calls", asm.calls())
    c.modules("sequences", asm.random_code(c.seed, c.n(400, 8000)))
    c.machine("compiled", c.built("compiled", [x for p in PROFILES for x in c.programs_of(p, c.n(25, 500))] + shapes(c, c.n(20, 300)), "both"))


def loose(c, count, salt):
    """Programs with other blanks and comments between their tokens"""
    rng = random.Random(c.seed + salt)
    files = [f for f in c.bases(count, .4, salt=salt)]
    preds, st = syntax.predict([f["m.ama"] for f in files])
    c.states += st["states"]
    return [dict(f, **{"m.ama": syntax.loose(f["m.ama"], p, rng)}) for f, p in zip(files, preds)]


@plan("C13")
def c13(c):
    rng = random.Random(c.seed)
    files = loose(c, c.n(250, 6000), 5)
    c.tokens("short texts", fam.sample(c, syntax.short(), c.n(4000, 40000)))
    c.tokens("pairs", fam.sample(c, syntax.pairs(), c.n(6000, 60000)))
    c.tokens("programs", [f["m.ama"] for f in files])
    c.tokens("soup", syntax.soup(c.n(2000, 40000), rng))
    c.syntax("blanks and comments", files)
    c.syntax("pairs of tokens", fam.sample(c, syntax.pairs(), c.n(2500, 30000)))
    c.accepted("literals", fam.sample(c, texts.literals(), c.n(700, 3000)))


@plan("C14")
def c14(c):
    cases = texts.groupings(c.seed, c.deep)
    c.syntax("expressions", fam.sample(c, cases, c.n(1800, 30000)))
    c.grouped("values", fam.sample(c, cases, c.n(2500, 30000)))
    more = texts.prefixed()
    c.verdicts("prefixed", fam.sample(c, more, c.n(1300, len(more))))
    c.grouped("prefixed values", more)
    c.verdicts("typed", fam.sample(c, cases, c.n(800, 15000)))
    c.syntax("programs", c.bases(c.n(300, 8000), salt=3))


@plan("C15")
def c15(c):
    rng = random.Random(c.seed)
    docs = bsonspec.documents(c.n(1500, 20000), rng, c.deep)
    small = [d for d in docs if len(repr(d)) < 1500]
    c.wholes(fam.sample(c, small, c.n(600, 8000)))
    c.documents("documents", docs)
    c.constants("constants", bsonspec.constants(c.n(400, 8000), rng))
    c.emitted("modules", c.programs_of("mix", c.n(100, 3000)) + c.programs_of("mods", c.n(50, 1000)) + c.read("modules", fam.sample(c, texts.bulk(c.deep), c.n(40, 400))))
    c.sources("long code", wording.long_code())
    c.sources("bulk", fam.sample(c, texts.bulk(c.deep), c.n(120, 400)))


@plan("C21")
def c21(c):
    rng = random.Random(c.seed)
    ks, st = syntax.walks(c.n(400, 8000), c.seed)
    c.states += st["states"]
    c.transitions += st["transitions"]
    sentences = [syntax.spell(k, rng) for k in ks]
    c.syntax("sentences", sentences)
    c.syntax("edited sentences", [e for s in sentences for e in syntax.edits(s, rng, 3)])
    c.syntax("soup", syntax.soup(c.n(1500, 40000), rng))
    bases = c.bases(c.n(150, 4000), salt=4)
    c.syntax("edited programs", [dict(f, **{"m.ama": e}) for f in bases for e in syntax.edits(f["m.ama"], rng, 6)])
    c.accepted("mutants", c.mutants(c.n(1200, 30000), salt=5))


@plan("C22")
def c22(c):
    rng = random.Random(c.seed)
    ok = c.bases(c.n(120, 5000), salt=6) + [p for p in c.mutants(c.n(120, 6000), salt=7)]
    c.histories("programs", [f if isinstance(f, dict) else {"m.ama": f} for f in ok], c.n(240, 10000))
    wrong = statics.exhaustive() + statics.imports() + statics.scopes() + statics.arms()
    wrong = [f if isinstance(f, dict) else {"m.ama": f} for f in fam.sample(c, wrong, c.n(240, 6000))]
    c.histories("families", wrong, c.n(150, 6000))


@plan("C24")
def c24(c):
    rng = random.Random(c.seed)
    c.sources("reading", texts.reading(rng, c.n(1300, 20000)))
    c.sources("containing", fam.sample(c, texts.containing(), c.n(500, 5000)))
    c.sources("mathematics", fam.sample(c, texts.mathematics(), c.n(1100, 5000)))
    c.generated("text", c.n(150, 5000), stdin=lambda i: "3\n4\n")
