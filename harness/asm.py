"""Modules assembled by hand: every instruction, the width of its operands and
what it does to the operands below it."""
import bson
import random
import vmconf

I64 = 2 ** 63
CONSTS = ["0", "1", "2", "3", "7", "10", "100", str(I64 - 1), "4611686018427387904", "0.0", "0.5", "2.0", "12.25", "1000000.0",
          "verdadeiro", "falso", "nulo", '""', '"a"', '"ção"', "'12'", '"3.5"']
TYPES = ("int", "real", "bool", "texto")


class Asm:
    def __init__(self, name="m", entry_locals=0):
        self.name, self.entry_locals = name, entry_locals
        self.consts, self.names, self.funcs, self.regs, self.lines, self.imports = [], [], [], [], [], []
        self.code, self.labels, self.fix = bytearray(), {}, []
        self.line = 1
        self.ops = {n: i for i, n in enumerate(vmconf.numbering())}
        self.ops["HALT"] = 255

    def idx(self, table, x):
        if x not in table:
            table.append(x)
        return table.index(x)

    def op(self, name, *args):
        at = len(self.code)
        if self.lines and self.lines[-1][2] == self.line:
            self.lines[-1][1] = at
        else:
            self.lines.append([at, at, self.line])
        self.code.append(self.ops[name])
        z = vmconf.size(name)
        if z in (2, 3, 9):
            a = args[0]
            if isinstance(a, str):
                self.fix.append((at + 1, a))
                a = 0
            self.code += int(a).to_bytes(z - 1, "big")
        elif z == 17:
            self.code += args[0].to_bytes(8, "big") + args[1].to_bytes(8, "big")
        return self

    def const(self, *cs):
        for c in cs:
            self.op("LOAD_CONST", self.idx(self.consts, c))
        return self

    def name_(self, n):
        return self.op("LOAD_NAME", self.idx(self.names, n))

    def glob(self, n):
        return self.op("GET_GLOBAL", self.idx(self.names, n))

    def setg(self, n):
        return self.op("SET_GLOBAL", self.idx(self.names, n))

    def lib(self, n, mod=0):
        return self.op("LOAD_MODULE_DEF", mod, self.idx(self.names, n))

    def show(self):
        return self.op("MOSTRA")

    def label(self, l):
        self.labels[l] = len(self.code)
        return self

    def func(self, name, locals, label):
        self.funcs.append([name, label, locals])
        return self

    def registo(self, name, fields):
        self.regs.append({"name": name, "fields": fields})
        return self

    def pad(self, n):
        """About n bytes of code that does nothing"""
        k = self.idx(self.consts, "0")
        one = bytes([self.ops["LOAD_CONST"]]) + k.to_bytes(2, "big") + bytes([self.ops["POP_TOP"]])
        self.code += one * (n // 4 + 1)
        return self

    def doc(self, index=-1, halt=True):
        if halt:
            self.op("HALT")
        for at, l in self.fix:
            self.code[at:at + 8] = self.labels[l].to_bytes(8, "big")
        self.fix = []
        return {"name": self.name, "builtin": 0, "entry_locals": self.entry_locals, "constants": self.consts, "names": self.names,
                "ops": bytes(self.code),
                "functions": [{"name": n, "start_ip": self.labels[l], "locals": k, "module": index} for n, l, k in self.funcs],
                "registos": self.regs, "src_map": [x for l in self.lines for x in l],
                "imports": self.imports or [builtin("embutidos"), builtin("mat")]}


def builtin(name):
    return {"name": name, "builtin": 1, "entry_locals": 0, "constants": [], "names": [], "ops": b"\xff", "functions": [], "registos": [], "src_map": [-1], "imports": []}


def integer(a, s):
    """An integer constant; negative ones as the compiler builds them"""
    if isinstance(s, int) and s < 0:
        if s == -I64:
            return a.const(str(I64 - 1)).op("OP_INVERT").const("1").op("OP_MINUS")
        return a.const(str(-s)).op("OP_INVERT")
    return a.const(str(s) if isinstance(s, int) else s)


NUM = [0, 1, -1, 2, -2, 3, 7, -7, 10, 100, 65536, -I64, I64 - 1, 4611686018427387904, "0.0", "0.5", "2.0", "12.25", "1000000.0"]
ARITH = ["OP_ADD", "OP_MINUS", "OP_MUL", "OP_DIV", "OP_FLOORDIV", "OP_MODULO", "OP_GREATER", "OP_GREATEREQ", "OP_LESS", "OP_LESSEQ"]
MIXED = [0, 1, -1, I64 - 1, "0.0", "1.0", "0.5", "verdadeiro", "falso", "nulo", '""', '"a"', "'a'", '"ção"']


def operations():
    """One binary or unary instruction, with an operand of the frame below"""
    out = []
    for op in ARITH:
        for x in NUM:
            for y in NUM:
                a = Asm().const('"below"')
                integer(integer(a, x), y).op(op).show().show()
                out.append(a.doc())
    for op in ("OP_EQ", "OP_NOTEQ"):
        for x in MIXED:
            for y in MIXED:
                a = Asm().const('"below"')
                integer(integer(a, x), y).op(op).show().show()
                out.append(a.doc())
    for x in ("verdadeiro", "falso"):
        out.append(Asm().const('"below"', x).op("OP_NOT").show().show().doc())
        for y in ("verdadeiro", "falso"):
            for op in ("OP_AND", "OP_OR"):
                out.append(Asm().const('"below"', x, y).op(op).show().show().doc())
    for x in NUM:
        out.append(integer(Asm().const('"below"'), x).op("OP_INVERT").show().show().doc())
    for x in MIXED:
        out.append(integer(Asm().const('"below"'), x).op("OP_ISNULL").show().show().doc())
        for n in (0, 1):
            a = integer(Asm().const('"below"'), x)
            if n:
                a.const('"other"')
            out.append(a.op("OP_UNWRAP", n).show().show().doc())
    for x in MIXED + NUM + ["'12'", "'-12'", '"+7"', '"3.5"', '"1e3"', '" 1"', '"1 "', '"0x10"', '"9223372036854775808"', '"-9223372036854775808"', '"verdadeiro"', '"falso"', '"nan"', '"."', '"-"']:
        for t in TYPES:
            for n in (0, 1):
                a = integer(Asm().const('"below"'), x).lib(t)
                a.line = 2
                out.append(a.op("CAST", n).show().show().doc())
    return out


def indexes():
    out = []
    for k in (0, 1, 3):
        for i in (0, 1, 2, 3, 4, -1, -2, -4, I64 - 1, -I64):
            a = Asm().const('"below"')
            a.const(*['"x%d"' % j for j in range(k)]).op("BUILD_VEC", k).setg("v").glob("v")
            integer(a, i)
            a.line = 3
            out.append(a.op("OP_INDEX_GET").show().show().doc())
            a = Asm().const('"below"')
            a.const(*['"x%d"' % j for j in range(k)]).op("BUILD_VEC", k).setg("v").glob("v")
            integer(a, i).const("7")
            a.line = 3
            a.op("OP_INDEX_SET")
            a.line = 5
            out.append(a.glob("v").show().show().doc())
            for s in ('""', '"a"', '"çãé"'):
                a = Asm().const('"below"', s)
                integer(a, i)
                a.line = 3
                out.append(a.op("OP_INDEX_GET").show().show().doc())
            a = Asm().const(*['"x%d"' % j for j in range(k)]).op("BUILD_VEC", k).setg("v").glob("v")
            integer(a, i).lib("remova")
            a.line = 9
            out.append(a.op("CALL_FUNCTION", 2).show().glob("v").show().glob("v").lib("tam").op("CALL_FUNCTION", 1).show().doc())
    return out


def wide(deep):
    """Operands of more than one byte"""
    out = []
    for k in [1, 254, 255, 256, 257, 300, 511, 512, 513] + ([1023, 1024, 4096, 40000] if deep else []):
        a = Asm()
        a.consts = ["%d" % j for j in range(k + 1)]
        for j in sorted({0, 1, 44, 255, 256, k // 2, k - 1, k} & set(range(k + 1))):
            a.op("LOAD_CONST", j).show()
        out.append(a.doc())
        a = Asm(entry_locals=k + 1)
        a.names = ["n%d" % j for j in range(k + 1)]
        some = sorted({0, 1, 44, 255, 256, k // 2, k - 1, k} & set(range(k + 1)))
        for j in some:
            a.const("%d" % j).op("SET_GLOBAL", j).const("-%d" % j).op("SET_LOCAL", j)
        for j in some:
            a.op("GET_GLOBAL", j).show().op("GET_LOCAL", j).show().op("LOAD_NAME", j).show()
        out.append(a.doc())
        if k <= 600:
            a = Asm()
            for j in range(k + 1):
                a.registo("R%d" % j, ["f"])
            for j in some:
                a.name_("f").const("%d" % j).op("LOAD_REGISTO", j).op("BUILD_OBJ", 1).setg("o").glob("o").show().glob("o").name_("f").op("GET_PROP").show()
            out.append(a.doc())
            a = Asm().op("JUMP", "end")
            for j in range(k + 1):
                a.func("f%d" % j, j % 7 + (j > 255) * 260, "f%d" % j).label("f%d" % j)
                a.line = j + 1
                if j % 7:
                    a.const("1").op("SET_LOCAL", j % 7 - 1)
                a.const('"r%d"' % j).op("RETURN")
            a.label("end")
            for j in some:
                a.glob("f%d" % j).op("CALL_FUNCTION", 0).show()
            out.append(a.doc())
    for tag in (0, 1, 255, 256, 257, 65535, 65536, 65791, 1000000):
        for other in (tag, tag % 256, tag + 256, tag ^ 65536):
            out.append(Asm().const('"below"', "%d" % tag).op("BUILD_VARIANT", 0).op("MATCH_VARIANT", other).show().show().doc())
    for n in (0, 1, 2, 127, 128, 254, 255):
        a = Asm().const('"below"', *["%d" % j for j in range(n)]).op("BUILD_VEC", n).show().show()
        out.append(a.doc())
        a = Asm().const('"below"', *["%d" % j for j in range(n)]).op("BUILD_STR", n).show().show()
        out.append(a.doc())
        a = Asm(entry_locals=300).const('"below"', *["%d" % j for j in range(n)], "3").op("BUILD_VARIANT", n).op("SET_LOCAL", 1)
        if n:
            a.op("GET_LOCAL", 1).const(*["%d" % (40 + j) for j in range(n)]).op("BIND_MATCH_ARGS", n)
            for j in sorted({0, n // 2, n - 1}):
                a.op("GET_LOCAL", 40 + j).show()
        out.append(a.op("GET_LOCAL", 1).op("MATCH_VARIANT", 3).show().show().doc())
        a = Asm().op("JUMP", "end").func("f", n + 3, "f").label("f")
        for j in sorted({0, n // 2, n - 1} & set(range(n))):
            a.op("GET_LOCAL", j).show()
        a.const('"res"').op("SET_LOCAL", n + 2).op("GET_LOCAL", n + 2).op("RETURN").label("end")
        a.const('"below"', *["%d" % j for j in range(n)]).glob("f").op("CALL_FUNCTION", n).show().show()
        out.append(a.doc())
        if n <= 127 or True:
            a = Asm().registo("R", ["f%d" % j for j in range(n)]).const('"below"')
            for j in range(n):
                a.name_("f%d" % j).const("%d" % j)
            a.op("LOAD_REGISTO", 0).op("BUILD_OBJ", n).setg("o")
            for j in sorted({0, n // 2, n - 1} & set(range(n))):
                a.glob("o").name_("f%d" % j).op("GET_PROP").show()
                a.glob("o").name_("f%d" % j).const('"n"').op("SET_PROP")
                a.glob("o").name_("f%d" % j).op("GET_PROP").show()
            out.append(a.show().doc())
    for n in [100, 240, 250, 256, 1000, 65300, 65500, 65536] + ([70000, 140000] if deep else []):
        a = Asm().op("JUMP", "over").pad(n)
        a.line = 4
        a.label("back").const('"back"').show().op("JUMP", "end")
        a.label("over").const('"over"').show().const("falso").op("JUMP_IF_FALSE", "back")
        a.line = 7
        a.label("end").const("1", "0")
        a.line = 9
        a.op("OP_MODULO").show()
        out.append(a.doc())
    return out


def calls():
    """Frames: operands and variables of the caller, globals, modules, flows"""
    out = []
    for depth in (1, 2, 30, 998, 999, 1000):
        a = Asm().op("JUMP", "main").func("f", 2, "f").label("f")
        a.line = 2
        a.const('"under"')
        a.op("GET_LOCAL", 0).const("0").op("OP_EQ").op("JUMP_IF_FALSE", "more")
        a.line = 3
        a.op("GET_LOCAL", 0).op("RETURN")
        a.line = 4
        a.label("more").const("7").op("SET_LOCAL", 1).op("GET_LOCAL", 0).const("1").op("OP_MINUS").glob("f").op("CALL_FUNCTION", 1)
        a.line = 5
        a.op("GET_LOCAL", 0).op("OP_ADD").op("GET_LOCAL", 1).op("OP_ADD").op("RETURN")
        a.label("main")
        a.line = 8
        a.const('"below"', "%d" % (depth - 1)).glob("f").op("CALL_FUNCTION", 1).show().show()
        out.append(a.doc())
    for where in range(4):
        a = Asm().op("JUMP", "main")
        for j in range(4):
            a.func("f%d" % j if j else "R::m", j, "f%d" % j).label("f%d" % j)
            a.line = 10 * j + 1
            a.const("1")
            a.line = 10 * j + 2
            if j == where:
                a.const("1", "0")
                a.line = 10 * j + 3
                a.op("OP_MODULO")
            elif j < 3:
                a.const(*["5"] * (j + 1)).glob("f%d" % (j + 1)).op("CALL_FUNCTION", j + 1)
            else:
                a.const("1")
            a.line = 10 * j + 2
            a.op("OP_ADD").op("RETURN")
        a.label("main")
        a.line = 50
        a.glob("R::m").op("CALL_FUNCTION", 0).show()
        out.append(a.doc())
    # the failing line of a range that is not contiguous
    for order in range(3):
        a = Asm().op("JUMP", "a")
        a.line = 5
        a.label("b").const("2", "0")
        if order == 1:
            a.op("OP_MODULO")
        a.line = 6
        a.op("JUMP", "c")
        a.line = 5
        a.label("a").const("1", "0")
        if order == 0:
            a.op("OP_MODULO")
        a.op("JUMP", "b")
        a.line = 4
        a.label("c").op("OP_FLOORDIV").show()
        out.append(a.doc())
    # modules: globals, functions, constants and names of their own
    for n in (1, 2, 5, 40):
        mods = []
        for m in range(n):
            a = Asm("mod%d" % m, entry_locals=m)
            a.op("JUMP", "main").func("f", 1, "f").label("f")
            a.line = 3
            a.glob("g").op("GET_LOCAL", 0).op("OP_ADD").setg("g").glob("g").op("GET_LOCAL", 0)
            a.line = 100 + m
            a.op("OP_MODULO").setg("last").glob("g").op("RETURN")
            a.label("main").const("%d" % (1000 * m)).setg("g").const('"mod%d"' % m).show()
            if m:
                a.const("%d" % m).lib("f", m + 1).op("CALL_FUNCTION", 1).show()
            mods.append(a.doc(index=m + 2))
        for arg in ("3", "0"):
            a = Asm()
            a.imports = [builtin("embutidos"), builtin("mat")] + mods
            a.const("50").setg("g").const('"below"')
            for m in range(n):
                a.lib("g", m + 2).show()
                a.line += 1
                a.const("1" if m < n - 1 else arg).lib("f", m + 2).op("CALL_FUNCTION", 1).show().lib("g", m + 2).show().lib("last", m + 2).show()
            out.append(a.glob("g").show().show().doc())
    # a value of a frame that has ended
    a = Asm().op("JUMP", "main").func("mk", 1, "mk").label("mk").op("GET_LOCAL", 0).op("BUILD_VEC", 1).op("SET_LOCAL", 0).op("GET_LOCAL", 0).op("RETURN")
    a.label("main").const("1").glob("mk").op("CALL_FUNCTION", 1).setg("v").const("2").glob("mk").op("CALL_FUNCTION", 1).setg("w")
    out.append(a.glob("v").show().glob("w").show().glob("v").const("9").lib("anexa").op("CALL_FUNCTION", 2).op("POP_TOP").glob("v").show().glob("w").show().doc())
    # variables of a call never seen by another: all start without a value that matters
    for k in (1, 7, 255, 300):
        a = Asm().op("JUMP", "main")
        a.func("w", k, "w").label("w").const('"w"').op("SET_LOCAL", k - 1).op("GET_LOCAL", k - 1).op("RETURN")
        a.func("r", k + 1, "r").label("r").op("GET_LOCAL", 0).op("SET_LOCAL", k).glob("w").op("CALL_FUNCTION", 0).show().op("GET_LOCAL", 0).show().op("GET_LOCAL", k).op("RETURN")
        out.append(a.label("main").const('"x"').glob("r").op("CALL_FUNCTION", 1).show().doc())
    return out


def natives():
    out = []
    for f in ("abs", "raizqd", "arredonda", "piso", "teto", "sen", "cos", "tan", "log", "expoente", "grausprad", "radpgraus"):
        for x in (0, 1, -1, 4, 9, 144, 2, "0.0", "0.5", "2.25", "12.25"):
            if f in ("expoente", "log"):
                for y in (0, 1, 2, 3, "0.5"):
                    out.append(integer(integer(Asm().const('"below"'), x), y).lib(f, 1).op("CALL_FUNCTION", 2).show().show().doc())
            else:
                out.append(integer(Asm().const('"below"'), x).lib(f, 1).op("CALL_FUNCTION", 1).show().show().doc())
    for x in ('""', '"a"', '"abc"', '"çã"', '"abcabc"'):
        out.append(Asm().const('"below"', x).lib("tam").op("CALL_FUNCTION", 1).show().show().doc())
        for y in ('""', '"a"', '"bc"', '"ã"', '"abca"', '"ac"'):
            out.append(Asm().const('"below"', x, y).lib("txt_contem").op("CALL_FUNCTION", 2).show().show().doc())
    for f in ("escreva", "escrevaln"):
        for x in MIXED:
            out.append(integer(Asm().const('"below"'), x).lib(f).op("CALL_FUNCTION", 1).op("POP_TOP").show().doc())
    for dims in ([], [0], [1], [3], [2, 3], [3, 0], [0, 3], [2, 2, 2], [-1], [2, -3], [1] * 6):
        if dims:
            for t in TYPES:
                a = Asm().const('"below"').lib(t)
                for d in dims:
                    integer(a, d)
                a.line = 2
                out.append(a.lib("vec").op("CALL_FUNCTION", len(dims) + 1).show().show().doc())
    for inp in ("", "3\n", "3", "3\n4\n5\n", " 3\n", "x\n", "\n", "3.5\n", "-7\n1e3\n", "ç\n", "a\r\nb\n"):
        for f in ("leia", "leia_int", "leia_real"):
            a = Asm().const('"below"')
            for q in range(2):
                a.line = 3 + q
                a.const('"? "').lib(f).op("CALL_FUNCTION", 1).show()
            out.append((a.show().doc(), inp))
    return out


def random_code(seed, n):
    """Longer sequences over a few values, tracking what is on the stack"""
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        a = Asm(entry_locals=rnd.choice([0, 3, 300]))
        a.registo("R", ["x", "y"])
        a.registo("S", [])
        stack, loc, glo, lab = [], {}, {}, 0
        kinds = ["i", "r", "b", "s", "n", "v", "o", "u"]
        for step in range(rnd.randint(5, 40)):
            a.line = rnd.randint(1, 9) if rnd.random() < .3 else a.line
            todo = ["const"] * 4 + ["vec", "obj", "var"]
            if stack:
                todo += ["show", "pop", "setl", "setg", "unwrap", "isnull", "str"]
                if stack[-1] == "b":
                    todo += ["not", "jif"] * 2
                if stack[-1] in "ir":
                    todo += ["neg"]
                if stack[-1] in "irbs":
                    todo += ["cast"]
            if loc:
                todo += ["getl"] * 2
            if glo:
                todo += ["getg"] * 2
            if len(stack) > 1:
                todo += ["eq", "unwrap1"]
                if stack[-1] in "ir" and stack[-2] in "ir":
                    todo += ["arith"] * 4 + ["cmp"]
                if stack[-1] == "b" and stack[-2] == "b":
                    todo += ["logic"]
            t = rnd.choice(todo)
            if t == "const":
                c = rnd.choice(CONSTS)
                a.const(c)
                stack.append("n" if c == "nulo" else "b" if c in ("verdadeiro", "falso") else "s" if c[0] in "\"'" else "r" if "." in c else "i")
            elif t == "show":
                a.show()
                stack.pop()
            elif t == "pop":
                a.op("POP_TOP")
                stack.pop()
            elif t == "setl":
                k = rnd.choice([0, 1, 2, 255, 299 if a.entry_locals == 300 else 3])
                a.op("SET_LOCAL", k)
                loc[k] = stack.pop()
            elif t == "setg":
                g = rnd.choice("abc")
                a.setg(g)
                glo[g] = stack.pop()
            elif t == "getl":
                k = rnd.choice(sorted(loc))
                a.op("GET_LOCAL", k)
                stack.append(loc[k])
            elif t == "getg":
                g = rnd.choice(sorted(glo))
                a.glob(g)
                stack.append(glo[g])
            elif t == "not":
                a.op("OP_NOT")
            elif t == "neg":
                a.op("OP_INVERT")
            elif t == "isnull":
                a.op("OP_ISNULL")
                stack[-1] = "b"
            elif t == "unwrap":
                a.op("OP_UNWRAP", 0)
            elif t == "unwrap1":
                a.op("OP_UNWRAP", 1)
                y = stack.pop()
                stack[-1] = y if stack[-1] == "n" else stack[-1]
            elif t == "eq":
                if {stack[-1], stack[-2]} & {"v", "u"} or (stack[-1] != stack[-2] and not {stack[-1], stack[-2]} <= {"i", "r"}):
                    continue
                a.op(rnd.choice(["OP_EQ", "OP_NOTEQ"]))
                stack[-2:] = ["b"]
            elif t == "logic":
                a.op(rnd.choice(["OP_AND", "OP_OR"]))
                stack.pop()
            elif t == "cmp":
                a.op(rnd.choice(ARITH[6:]))
                stack[-2:] = ["b"]
            elif t == "arith":
                o = rnd.choice(ARITH[:6])
                a.op(o)
                r = "r" if "r" in stack[-2:] or o == "OP_DIV" else "i"
                stack[-2:] = [r]
            elif t == "cast":
                a.lib("texto").op("CAST", 0)
                stack[-1] = "s"
            elif t == "str":
                k = rnd.randint(1, min(4, len(stack)))
                a.op("BUILD_STR", k)
                stack[-k:] = ["s"]
            elif t == "vec":
                k = rnd.randint(0, min(3, len(stack)))
                a.op("BUILD_VEC", k)
                stack[len(stack) - k:] = ["v"]
            elif t == "obj":
                a.name_("y").const("1").name_("x").const('"q"').op("LOAD_REGISTO", 0).op("BUILD_OBJ", 2)
                if rnd.random() < .5:
                    a.setg("o").glob("o").name_("x").const(rnd.choice(CONSTS[:6])).op("SET_PROP").glob("o").name_("x").op("GET_PROP")
                    glo["o"] = "o"
                    stack.append("i")
                else:
                    stack.append("o")
            elif t == "var":
                k = rnd.randint(0, min(3, len(stack)))
                ks = stack[len(stack) - k:]
                tag = rnd.choice([0, 1, 300])
                a.const("%d" % tag).op("BUILD_VARIANT", k)
                stack[len(stack) - k:] = ["u"]
                if k and rnd.random() < .7:
                    a.op("SET_LOCAL", 9).op("GET_LOCAL", 9)
                    where = rnd.sample(range(10, 20), k)
                    for w in where:
                        a.const("%d" % w)
                    a.op("BIND_MATCH_ARGS", k)
                    loc[9] = "u"
                    stack.pop()
                    # the variables are bound from the last operand to the first
                    for w, q in zip(where, ks):
                        loc[w] = q
            elif t == "jif":
                l = "l%d" % lab
                lab += 1
                a.op("JUMP_IF_FALSE", l)
                stack.pop()
                for _ in range(rnd.randint(0, 2)):
                    a.const(rnd.choice(CONSTS)).show()
                a.label(l)
        for q in reversed(stack):
            a.show()
        for k in sorted(loc):
            a.op("GET_LOCAL", k).show()
        for g in sorted(glo):
            a.glob(g).show()
        out.append(a.doc())
    return out
