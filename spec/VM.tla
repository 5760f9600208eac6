--------------------------------- MODULE VM ---------------------------------
(* What the instructions of the virtual machine do.                          *)
(*                                                                           *)
(* The input (IOEnv.MODS) is a list of loaded programs: the modules in the   *)
(* order they run, each with its constants, names, functions, registos, the  *)
(* source map and the bytes of its code.  A frame has its own local          *)
(* variables and its own operands: nothing a frame does can touch the        *)
(* operands or the variables of another one.                                 *)
(*                                                                           *)
(* The machine is "stuck" when an instruction finds something it is not      *)
(* defined for: a missing operand, an operand of the wrong kind, an index    *)
(* outside its table.  Compiled code must never get there.                   *)
EXTENDS AmaValues, SequencesExt, Json, IOUtils, TLC, TLCExt

P == JsonDeserialize(IOEnv.MODS)
CONSTANT StepsPerTransition

VARIABLES pid, S
vars == <<pid, S>>

-----------------------------------------------------------------------------
\* Values only the machine knows
Fn(m, i) == [t |-> "fn", m |-> m, i |-> i]
Native(n) == [t |-> "nf", n |-> n]
Ty(k) == [t |-> "ty", k |-> k]
Reg(m, i) == [t |-> "rg", m |-> m, i |-> i]

\* What the modules built into the machine define
Embutidos == {"int", "real", "bool", "texto", "PI", "escrevaln", "escreva", "leia", "leia_int", "leia_real",
              "tam", "vec", "anexa", "remova", "txt_contem"}
Mat == {"abs", "raizqd", "expoente", "PI", "arredonda", "piso", "teto", "sen", "cos", "tan", "log", "grausprad", "radpgraus"}
BuiltinDef(lib, n) ==
  IF n \in {"int", "real", "bool", "texto"} THEN Ty(n) ELSE IF n = "PI" THEN Pi ELSE Native(n)
ArgsOf(n) == CASE n \in {"expoente", "log", "anexa", "remova", "txt_contem"} -> 2 [] OTHER -> 1

Prog == P[pid]
Mod(m) == Prog.mods[m]

-----------------------------------------------------------------------------
\* Instructions: name and the bytes that follow it
Args1 == {"CALL_FUNCTION", "CAST", "BUILD_STR", "BUILD_VEC", "BUILD_OBJ", "OP_UNWRAP", "BUILD_VARIANT", "BIND_MATCH_ARGS"}
Args2 == {"LOAD_CONST", "LOAD_NAME", "SET_LOCAL", "GET_LOCAL", "GET_GLOBAL", "SET_GLOBAL", "LOAD_REGISTO"}
Args8 == {"JUMP", "JUMP_IF_FALSE", "MATCH_VARIANT"}
Size(op) == CASE op \in Args1 -> 2 [] op \in Args2 -> 3 [] op \in Args8 -> 9 [] op = "LOAD_MODULE_DEF" -> 17 [] OTHER -> 1
\* The name of an opcode byte, by the numbering of the compiler
Name(b) == IF b + 1 \in DOMAIN Prog.ops THEN Prog.ops[b + 1] ELSE "?"
\* Operands are big endian
U16(c, at) == c[at] * 256 + c[at + 1]
U64(c, at) == IF \E k \in 0..4: c[at + k] # 0 THEN -1        \* larger than anything in use
              ELSE c[at + 5] * 65536 + c[at + 6] * 256 + c[at + 7]

Binaries == [OP_ADD |-> "+", OP_MINUS |-> "-", OP_MUL |-> "*", OP_DIV |-> "/", OP_FLOORDIV |-> "//", OP_MODULO |-> "%",
             OP_AND |-> "e", OP_OR |-> "ou", OP_EQ |-> "==", OP_NOTEQ |-> "!=", OP_GREATER |-> ">", OP_GREATEREQ |-> ">=",
             OP_LESS |-> "<", OP_LESSEQ |-> "<="]
Defined(op, a, b) ==
  CASE op \in {"OP_AND", "OP_OR"} -> a.t = "b" /\ b.t = "b"
    [] op \in {"OP_EQ", "OP_NOTEQ"} -> ~({a.t, b.t} \cap {"fn", "nf", "ty", "rg"} # {})
    [] OTHER -> IsNum(a) /\ IsNum(b)

-----------------------------------------------------------------------------
\* Globals: pairs of a name and its value
RECURSIVE At(_, _, _)
At(g, n, k) == IF k = 0 THEN 0 ELSE IF g[k].n = n THEN k ELSE At(g, n, k - 1)
SetIn(g, n, v) == LET k == At(g, n, Len(g)) IN IF k = 0 THEN Append(g, [n |-> n, v |-> v]) ELSE [g EXCEPT ![k].v = v]
Initial(m) ==
  IF Mod(m).builtin THEN <<>>
  ELSE [k \in 1..Len(Mod(m).funcs) |-> [n |-> Mod(m).funcs[k].name, v |-> Fn(m, k)]]
\* the function's module: -1 is the main one
FnOf(v) == Mod(v.m).funcs[v.i]
HomeOf(v) == IF FnOf(v).module < 0 THEN Len(Prog.mods) ELSE FnOf(v).module + 1

Frame(name, m, start, locals, args) ==
  [name |-> name, m |-> m, ip |-> start, at |-> start, v |-> <<>>,
   l |-> [k \in 1..Mx(locals, Len(args)) |-> IF k <= Len(args) THEN args[k] ELSE Nulo]]
MaxFrames == 1000
MainLocals(m) == Mx(256, Mod(m).entry_locals)

Stop(s, st) == [s EXCEPT !.st = st]
Stuck(s, why) == [s EXCEPT !.st = "stuck", !.why = why]
Error(s, e) == [s EXCEPT !.st = "err", !.err = e]
\* k operands give the value r
Put(s, k, r) ==
  IF r.t = "err" THEN Error(s, r)
  ELSE IF r.t = "foreign" THEN Stop(s, "foreign")
  ELSE [s EXCEPT !.cur.v = Append(Pop(@, k), r)]
Drop(s, k) == [s EXCEPT !.cur.v = Pop(@, k)]
Write(s, v, nl) == IF ~Known(v, s.h) THEN Stop(s, "foreign")
                   ELSE [s EXCEPT !.out = @ \o Show(v, s.h) \o (IF nl THEN <<10>> ELSE <<>>)]
Showable(v) == v.t \notin {"fn", "nf", "ty", "rg"}

\* Fields: pairs of a key (a text) and a value
RECURSIVE Field(_, _, _)
Field(f, k, j) == IF j = 0 THEN 0 ELSE IF f[j].k = k THEN j ELSE Field(f, k, j - 1)
RECURSIVE Pairs(_, _, _)
Pairs(a, j, f) ==
  IF j > Len(a) THEN f
  ELSE LET q == Field(f, a[j].v, Len(f))
       IN Pairs(a, j + 2, IF q = 0 THEN Append(f, [k |-> a[j].v, v |-> a[j + 1]]) ELSE [f EXCEPT ![q].v = a[j + 1]])

NextLine(s) == IF s.inp = <<>> THEN <<>> ELSE s.inp[1]
Read(s) == [s EXCEPT !.inp = IF @ = <<>> THEN @ ELSE Tail(@)]
\* A native function and its arguments
CallNative(s, f, a) ==
  LET k == Len(a) IN
  CASE f = "tam" ->
         IF a[1].t = "s" THEN Put(s, k, I(Len(a[1].v))) ELSE IF a[1].t = "v" THEN Put(s, k, I(Len(s.h[a[1].a].el))) ELSE Stuck(s, "tam")
    [] f = "anexa" ->
         IF a[1].t # "v" THEN Stuck(s, "anexa") ELSE Put([s EXCEPT !.h[a[1].a].el = Append(@, a[2])], k, Nulo)
    [] f = "remova" ->
         IF a[1].t # "v" \/ ~IsInt(a[2]) THEN Stuck(s, "remova")
         ELSE LET el == s.h[a[1].a].el
                  q == Position(a[2], Len(el), EVecNeg, EVecRange)
              IN IF q.t = "err" THEN Error(s, q)
                 ELSE Put([s EXCEPT !.h[a[1].a].el = RemoveAt(@, q.n + 1)], k, el[q.n + 1])
    [] f = "vec" ->
         LET d == Tail(a) IN
         IF a[1].t # "ty" \/ d = <<>> \/ \E j \in 1..Len(d): ~IsInt(d[j]) THEN Stuck(s, "vec")
         ELSE IF \E j \in 1..Len(d): Sgn(d[j]) < 0 THEN Error(s, Fail(EDims, <<>>))
         ELSE IF \E j \in 1..Len(d): d[j].t = "I" \/ d[j].n > 300 THEN Stop(s, "foreign")
         ELSE LET w == NewVec(s.h, [k |-> a[1].k], [j \in 1..Len(d) |-> d[j].n], 1) IN Put([s EXCEPT !.h = w[1]], k, Vc(w[2]))
    [] f = "txt_contem" ->
         IF a[1].t # "s" \/ a[2].t # "s" THEN Stuck(s, "txt_contem")
         ELSE Put(s, k, Bo(\E j \in 0..(Len(a[1].v) - Len(a[2].v)): SubSeq(a[1].v, j + 1, j + Len(a[2].v)) = a[2].v))
    [] f \in {"escreva", "escrevaln"} ->
         LET w == Write(s, a[1], f = "escrevaln") IN IF w.st = "run" THEN Put(w, k, Nulo) ELSE w
    [] f \in {"leia", "leia_int", "leia_real"} ->
         LET w == Read(Write(s, a[1], FALSE))
             l == NextLine(s)
         IN IF w.st # "run" THEN w
            ELSE Put(w, k, CASE f = "leia" -> Tx(l)
                             [] f = "leia_int" -> LET q == ParseInt(l) IN IF q.t = "none" THEN Fail(EReadInt, <<>>) ELSE q
                             [] f = "leia_real" -> LET q == ParseReal(l) IN IF q.t = "none" THEN Fail(EReadReal, <<>>) ELSE q)
    [] OTHER -> IF \E j \in 1..k: ~IsNum(a[j]) THEN Stuck(s, "mat") ELSE Put(s, k, MathFn(f, a))

\* CAST 0 converts, CAST 1 checks the kind of an indef
CastOk(v, k) == CASE k = "texto" -> Showable(v)
                  [] k = "int" -> v.t \in {"r", "R", "rx", "s"}
                  [] k = "real" -> IsInt(v) \/ v.t = "s"
                  [] k = "bool" -> IsNum(v) \/ v.t = "s"

-----------------------------------------------------------------------------
\* How many operands an instruction needs
Needs(op, n) ==
  CASE op \in {"LOAD_CONST", "LOAD_NAME", "GET_GLOBAL", "GET_LOCAL", "LOAD_REGISTO", "LOAD_MODULE_DEF", "JUMP", "HALT"} -> 0
    [] op \in {"MOSTRA", "OP_INVERT", "OP_NOT", "SET_GLOBAL", "SET_LOCAL", "JUMP_IF_FALSE", "RETURN", "OP_ISNULL", "MATCH_VARIANT", "POP_TOP"} -> 1
    [] op \in {"OP_INDEX_SET", "SET_PROP"} -> 3
    [] op \in {"CALL_FUNCTION", "BUILD_VARIANT", "BIND_MATCH_ARGS"} -> n + 1
    [] op \in {"BUILD_STR", "BUILD_VEC"} -> n
    [] op = "BUILD_OBJ" -> 2 * n + 1
    [] op = "OP_UNWRAP" -> IF n = 1 THEN 2 ELSE 1
    [] OTHER -> 2

Exec(s0, op, n, n2) ==
  LET s == [s0 EXCEPT !.cur.ip = @ + Size(op)]
      m == s.cur.m
      v == s.cur.v
      k == Len(v)
      a == v[k - 1]
      b == Top(v)
      M == Mod(m)
  IN
  CASE op = "LOAD_CONST" -> IF n < Len(M.consts) THEN Put(s, 0, M.consts[n + 1]) ELSE Stuck(s, "const")
    [] op = "LOAD_NAME" -> IF n < Len(M.names) THEN Put(s, 0, Tx(M.chars[n + 1])) ELSE Stuck(s, "name")
    [] op = "LOAD_REGISTO" -> IF n < Len(M.regs) THEN Put(s, 0, Reg(m, n + 1)) ELSE Stuck(s, "registo")
    [] op = "LOAD_MODULE_DEF" ->
         IF n < 0 \/ n + 1 >= Len(Prog.mods) \/ n2 < 0 \/ n2 >= Len(M.names) THEN Stuck(s, "definition")
         ELSE IF Mod(n + 1).builtin
              THEN (IF M.names[n2 + 1] \in (IF Mod(n + 1).name = "mat" THEN Mat ELSE Embutidos)
                    THEN LET d == BuiltinDef(Mod(n + 1).name, M.names[n2 + 1]) IN Put(s, 0, d)
                    ELSE Stuck(s, "builtin"))
         ELSE LET g == s.g[n + 1]
                  j == At(g, M.names[n2 + 1], Len(g))
              IN IF j = 0 THEN Stuck(s, "definition") ELSE Put(s, 0, g[j].v)
    [] op = "GET_GLOBAL" ->
         IF n >= Len(M.names) THEN Stuck(s, "name")
         ELSE LET j == At(s.g[m], M.names[n + 1], Len(s.g[m])) IN IF j = 0 THEN Stuck(s, "global") ELSE Put(s, 0, s.g[m][j].v)
    [] op = "SET_GLOBAL" ->
         IF n >= Len(M.names) THEN Stuck(s, "name") ELSE [Drop(s, 1) EXCEPT !.g[m] = SetIn(@, M.names[n + 1], b)]
    [] op = "GET_LOCAL" -> IF n < Len(s.cur.l) THEN Put(s, 0, s.cur.l[n + 1]) ELSE Stuck(s, "local")
    [] op = "SET_LOCAL" -> IF n < Len(s.cur.l) THEN [Drop(s, 1) EXCEPT !.cur.l[n + 1] = b] ELSE Stuck(s, "local")
    [] op = "MOSTRA" -> IF Showable(b) THEN Write(Drop(s, 1), b, TRUE) ELSE Stuck(s, "mostra")
    [] op \in DOMAIN Binaries -> IF Defined(op, a, b) THEN Put(s, 2, Binary(Binaries[op], a, b)) ELSE Stuck(s, op)
    [] op = "OP_INVERT" -> IF IsNum(b) THEN Put(s, 1, Unary("-", b)) ELSE Stuck(s, op)
    [] op = "OP_NOT" -> IF b.t = "b" THEN Put(s, 1, Unary("nao", b)) ELSE Stuck(s, op)
    [] op = "OP_ISNULL" -> Put(s, 1, Bo(b.t = "n"))
    [] op = "POP_TOP" -> Drop(s, 1)
    [] op = "OP_INDEX_GET" ->
         IF ~IsInt(b) \/ a.t \notin {"s", "v"} THEN Stuck(s, op)
         ELSE LET txt == a.t = "s"
                  el == IF txt THEN a.v ELSE s.h[a.a].el
                  q == IF txt THEN Position(b, Len(el), EStrNeg, EStrRange) ELSE Position(b, Len(el), EVecNeg, EVecRange)
              IN Put(s, 2, IF q.t = "err" THEN q ELSE IF txt THEN Tx(<<el[q.n + 1]>>) ELSE el[q.n + 1])
    [] op = "OP_INDEX_SET" ->
         LET o == v[k - 2] IN
         IF o.t # "v" \/ ~IsInt(a) THEN Stuck(s, op)
         ELSE LET q == Position(a, Len(s.h[o.a].el), EVecNeg, EVecRange)
              IN IF q.t = "err" THEN Error(s, q) ELSE [Drop(s, 3) EXCEPT !.h[o.a].el[q.n + 1] = b]
    [] op = "JUMP" -> [s EXCEPT !.cur.ip = n]
    [] op = "JUMP_IF_FALSE" -> IF b.t # "b" THEN Stuck(s, op) ELSE LET d == Drop(s, 1) IN IF b.v THEN d ELSE [d EXCEPT !.cur.ip = n]
    [] op = "CALL_FUNCTION" ->
         LET args == SubSeq(v, k - n, k - 1) IN
         IF b.t = "nf"
         THEN IF (b.n # "vec" /\ n # ArgsOf(b.n)) \/ n = 0 THEN Stuck(s, "arguments") ELSE CallNative(Drop(s, 1), b.n, args)
         ELSE IF b.t = "fn"
         THEN IF FnOf(b).locals < n THEN Stuck(s, "arguments")
              ELSE IF Len(s.fs) + 1 >= MaxFrames THEN Error(s, Fail(ERec, <<>>))
              ELSE LET d == Drop(s, n + 1)
                   IN [d EXCEPT !.fs = Append(@, d.cur),
                                !.cur = Frame(FnOf(b).dn, HomeOf(b), FnOf(b).start, FnOf(b).locals, args)]
         ELSE Stuck(s, "call")
    [] op = "RETURN" -> IF s.fs = <<>> THEN Stuck(s, op) ELSE [s EXCEPT !.cur = [Top(s.fs) EXCEPT !.v = Append(@, b)], !.fs = Pop(@, 1)]
    [] op = "CAST" ->
         IF b.t # "ty" \/ ~Showable(a) \/ n > 1 THEN Stuck(s, op)
         ELSE IF n = 0 /\ ~CastOk(a, b.k) THEN Stuck(s, op)
         ELSE Put(s, 2, Convert(a, [k |-> b.k], n = 1, s.h))
    [] op = "BUILD_STR" ->
         LET p == Last_(v, n) IN
         IF \E j \in 1..n: ~Showable(p[j]) THEN Stuck(s, op)
         ELSE IF \E j \in 1..n: ~Known(p[j], s.h) THEN Stop(s, "foreign")
         ELSE Put(s, n, Tx(FlattenSeq([j \in 1..n |-> Show(p[j], s.h)])))
    [] op = "BUILD_VEC" -> Put([s EXCEPT !.h = Append(@, [ty |-> [k |-> "any"], el |-> Last_(v, n)])], n, Vc(Len(s.h) + 1))
    [] op = "BUILD_OBJ" ->
         LET p == SubSeq(v, k - 2 * n, k - 1) IN
         IF b.t # "rg" \/ \E j \in 1..n: p[2 * j - 1].t # "s" THEN Stuck(s, op)
         ELSE Put([s EXCEPT !.h = Append(@, [name |-> Mod(b.m).regs[b.i].chars, f |-> Pairs(p, 1, <<>>)])], 2 * n + 1, Ob(Len(s.h) + 1))
    [] op = "GET_PROP" ->
         IF b.t # "s" \/ a.t # "o" THEN Stuck(s, op)
         ELSE LET f == s.h[a.a].f
                  j == Field(f, b.v, Len(f))
              IN IF j = 0 THEN Stuck(s, "field") ELSE Put(s, 2, f[j].v)
    [] op = "SET_PROP" ->
         LET o == v[k - 2] IN
         IF a.t # "s" \/ o.t # "o" THEN Stuck(s, op)
         ELSE [Drop(s, 3) EXCEPT !.h[o.a].f = Pairs(<<a, b>>, 1, @)]
    [] op = "OP_UNWRAP" ->
         IF n = 1 THEN Put(s, 2, IF a.t = "n" THEN b ELSE a) ELSE Put(s, 1, IF b.t = "n" THEN Fail(ENull, <<>>) ELSE b)
    [] op = "BUILD_VARIANT" -> IF b.t # "i" THEN Stuck(s, op) ELSE Put(s, n + 1, Un(b.n, SubSeq(v, k - n, k - 1)))
    [] op = "MATCH_VARIANT" -> IF b.t # "u" THEN Stuck(s, op) ELSE Put(s, 1, Bo(b.tag = n))
    [] op = "BIND_MATCH_ARGS" ->
         LET o == v[k - n]
             ix == Last_(v, n)
         IN IF n = 0 \/ o.t # "u" \/ n > Len(o.args) \/ \E j \in 1..n: ix[j].t # "i" \/ ix[j].n >= Len(s.cur.l) THEN Stuck(s, op)
            ELSE [Drop(s, n + 1) EXCEPT !.cur.l = [q \in 1..Len(@) |->
                     LET js == {j \in 1..n: ix[j].n = q - 1}
                     IN IF js = {} THEN @[q] ELSE o.args[CHOOSE j \in js: \A i \in js: i <= j]]]
    [] OTHER -> Stuck(s, "opcode")

\* The next module that has code to run
RECURSIVE NextMod(_)
NextMod(m) == IF m > Len(Prog.mods) THEN m ELSE IF Mod(m).builtin /\ Len(Mod(m).code) = 0 THEN NextMod(m + 1) ELSE m
Load(s, m0) ==
  LET m == NextMod(m0) IN
  IF m > Len(Prog.mods) THEN Stop(s, "ok")
  ELSE [s EXCEPT !.mi = m, !.fs = <<>>, !.g[m] = FoldLeft(LAMBDA g, d: SetIn(g, d.n, d.v), @, Initial(m)),
                 !.cur = Frame(<<>>, m, 0, MainLocals(m), <<>>)]

Step(s0) ==
  LET c == Mod(s0.cur.m).code
      ip == s0.cur.ip
  IN
  IF ip < 0 \/ ip >= Len(c) THEN Stuck(s0, "ran off the code")
  ELSE
  LET op == Name(c[ip + 1])
      s == [s0 EXCEPT !.cur.at = ip]
      z == Size(op)
  IN
  IF op = "?" THEN Stuck(s, "opcode")
  ELSE IF ip + z > Len(c) THEN Stuck(s, "ran off the code")
  ELSE IF op = "HALT" THEN (IF s.fs # <<>> THEN Stuck(s, "halt in a function") ELSE Load([s EXCEPT !.left = @ + Len(s.cur.v)], s.mi + 1))
  ELSE
  LET n == CASE op \in Args1 -> c[ip + 2] [] op \in Args2 -> U16(c, ip + 2) [] op \in Args8 -> U64(c, ip + 2)
             [] op = "LOAD_MODULE_DEF" -> U64(c, ip + 2) [] OTHER -> 0
      n2 == IF op = "LOAD_MODULE_DEF" THEN U64(c, ip + 10) ELSE 0
  IN IF Len(s.cur.v) < Needs(op, n) THEN Stuck(s, "operands") ELSE Exec(s, op, n, n2)

RECURSIVE Run(_, _)
Run(s, k) == IF k = 0 \/ s.st # "run" THEN s ELSE Run(Step(s), k - 1)

-----------------------------------------------------------------------------
\* The line of an instruction: the first range of the source map it is in
LineAt(map, ip) ==
  LET in == {j \in 0..(Len(map) \div 3) - 1: ip >= map[3 * j + 1] /\ ip <= map[3 * j + 2]}
  IN IF in = {} THEN 0 ELSE map[3 * (CHOOSE j \in in: \A i \in in: j <= i) + 3]
Flow(s) == LET f == Append(s.fs, s.cur)
           IN [k \in 1..Len(f) |-> LET x == f[Len(f) + 1 - k] IN <<LineAt(Mod(x.m).srcmap, x.at), x.name>>]

NoFrame == [name |-> <<>>, m |-> 1, ip |-> 0, at |-> 0, v |-> <<>>, l |-> <<>>]
Blank(p) == [st |-> "run", cur |-> NoFrame, fs |-> <<>>, h |-> <<>>, g |-> [m \in 1..Len(P[p].mods) |-> <<>>],
             out |-> <<>>, err |-> Fail(0, <<>>), inp |-> P[p].inp, mi |-> 0, n |-> 0, why |-> "", left |-> 0]
MaxSteps == 60000
Report(s) ==
  PrintT("@@" \o ToJson([p |-> P[pid].pid, st |-> s.st, code |-> s.err.code, args |-> s.err.args, why |-> s.why,
                         ip |-> s.cur.at, m |-> s.cur.m, left |-> s.left,
                         flow |-> IF s.st = "err" THEN Flow(s) ELSE <<>>, out |-> s.out, n |-> s.n]))

Init == /\ pid \in 1..Len(P)
        /\ S = Blank(pid)
Loading == /\ S.st = "run" /\ S.mi = 0
           /\ S' = Load(S, 1)
Running == /\ S.st = "run" /\ S.mi > 0
           /\ S' = LET r == [Run(S, StepsPerTransition) EXCEPT !.n = @ + StepsPerTransition]
                   IN IF r.st = "run" /\ r.n > MaxSteps THEN Stop(r, "long") ELSE r
Reporting == /\ S.st \notin {"run", "done"}
             /\ Report(S)
             /\ S' = Stop(Blank(pid), "done")
Next == (Loading \/ Running \/ Reporting) /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars

\* Never more frames than allowed, and addresses always inside the heap
Bounded == Len(S.fs) < MaxFrames
Refs(vs) == \A j \in 1..Len(vs): vs[j].t \in {"v", "o"} => vs[j].a \in 1..Len(S.h)
Sound == Refs(S.cur.v) /\ Refs(S.cur.l) /\ \A k \in 1..Len(S.fs): Refs(S.fs[k].v) /\ Refs(S.fs[k].l)
=============================================================================
