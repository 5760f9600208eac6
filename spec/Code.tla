-------------------------------- MODULE Code --------------------------------
(* Every path through the code of a program, on abstract operands.           *)
(*                                                                           *)
(* The state is a work list of instructions to (re)visit and, for every      *)
(* instruction reached so far, what is known on all paths to it: the kinds   *)
(* of the operands, the local variables and the globals that certainly have  *)
(* a value.  Visiting an instruction checks that it is safe and passes what  *)
(* it leaves to all its successors; where paths join, the heights must be    *)
(* equal and the knowledge is what both sides share.  When nothing is left   *)
(* to visit, every path of every function has been covered.                  *)
EXTENDS VM, FiniteSetsExt

VARIABLE A
cvars == <<pid, S, A>>

\* Kinds of operands
K(k) == [k |-> k, n |-> 0, m |-> 0]
AnyK == K("any")
KFn(m, i) == [k |-> "fn", n |-> i, m |-> m]
KNf(n) == [k |-> "nf", n |-> n, m |-> 0]
KReg(m, i) == [k |-> "rg", n |-> i, m |-> m]
KInt(n) == [k |-> "int", n |-> n, m |-> 0]
KTxt(s) == [k |-> "txt", n |-> s, m |-> 0]
KVar(l) == [k |-> "any", n |-> l + 1, m |-> 0]                  \* the value of variable l
KTest(l, t) == [k |-> "bool", n |-> l + 1, m |-> t]             \* whether that value is variant t
\* Variables: the locals from 0, the globals of the modules above them
GlobalId(m, nm) == 100000 * m + (CHOOSE j \in 1..Len(Mod(m).names): Mod(m).names[j] = nm)
Global(m, nm, k) == IF k = AnyK THEN KVar(GlobalId(m, nm)) ELSE k
KindOf(v) == CASE v.t = "i" -> KInt(v.n) [] v.t = "I" \/ v.t \in {"r", "R", "rx"} -> K("num") [] v.t = "b" -> K("bool")
               [] v.t = "s" -> KTxt(v.v) [] v.t = "n" -> K("nulo") [] v.t = "ty" -> K("ty") [] v.t = "nf" -> KNf(v.n)
Meet(x, y) == IF x = y THEN x ELSE IF x.k = y.k /\ x.k \in {"any", "bool"} THEN K(x.k) ELSE IF x.k = y.k /\ x.k \in {"int", "txt"} THEN K(IF x.k = "int" THEN "num" ELSE "text")
              ELSE IF x.k \in {"int", "num"} /\ y.k \in {"int", "num"} THEN K("num")
              ELSE IF x.k \in {"txt", "text"} /\ y.k \in {"txt", "text"} THEN K("text") ELSE AnyK
Plain(x) == x.k \notin {"fn", "nf", "rg", "ty"}
May(x, ks) == x.k = "any" \/ x.k \in ks
MayNum(x) == May(x, {"int", "num"})

\* What is known before an instruction
\* t: pairs of a local variable and a variant it is known not to be
None == [ok |-> FALSE]
Know(f, v, l, g, t) == [ok |-> TRUE, f |-> f, v |-> v, l |-> l, g |-> g, t |-> t]
Join(x, y) == Know(x.f, [k \in 1..Len(x.v) |-> Meet(x.v[k], y.v[k])], x.l \cap y.l, x.g \cap y.g, x.t \cap y.t)
\* A value that is no variant of its union (the variants of a union have
\* consecutive numbers): no run takes such a path
Impossible(t, l) == LET out == {p[2]: p \in {p \in t: p[1] = l}} 
                    IN out # {} /\ \E n \in 1..Len(Prog.unions): out = Min(out)..Min(out) + Prog.unions[n] - 1
\* A new value in local variable l
Forget(v, l) == [j \in 1..Len(v) |-> IF v[j].k \in {"any", "bool"} /\ v[j].n = l + 1 THEN K(v[j].k) ELSE v[j]]

ForgetGlobals(v) == [j \in 1..Len(v) |-> IF v[j].k \in {"any", "bool"} /\ v[j].n > 100000 THEN K(v[j].k) ELSE v[j]]

NMods == Len(Prog.mods)
Funcs(m) == Mod(m).funcs
FuncNamed(m, n) == {i \in 1..Len(Funcs(m)): Funcs(m)[i].name = n}
LocalsOf(m, f) == IF f = 0 THEN MainLocals(m) ELSE Funcs(m)[f].locals
\* Where the instructions start, read from the first byte to the last
StartsOf(m) ==
  LET c == Mod(m).code
  IN FoldLeftDomain(LAMBDA w, j: IF j - 1 # w.next THEN w ELSE [next |-> j - 1 + Size(Name(c[j])), found |-> Append(w.found, j - 1)],
                    [next |-> 0, found |-> <<>>], c).found
\* The names a module's own code assigns, and the registo stored there if that is all that is
AssignedBy(m, starts) ==
  LET c == Mod(m).code
      sets == {j \in 1..Len(starts): Name(c[starts[j] + 1]) = "SET_GLOBAL" /\ starts[j] + 3 <= Len(c) /\ U16(c, starts[j] + 2) < Len(Mod(m).names)}
  IN {[n |-> Mod(m).names[U16(c, starts[j] + 2) + 1],
       k |-> IF j > 1 /\ Name(c[starts[j - 1] + 1]) = "LOAD_REGISTO" THEN KReg(m, U16(c, starts[j - 1] + 2) + 1) ELSE AnyK]: j \in sets}
\* Where paths may join: the targets of jumps and the starts of functions
LeadersOf(m, starts) ==
  LET c == Mod(m).code IN
  {0} \cup {Funcs(m)[f].start: f \in 1..Len(Funcs(m))}
      \cup {U64(c, ip + 2): ip \in {ip \in starts: Name(c[ip + 1]) \in {"JUMP", "JUMP_IF_FALSE"} /\ ip + 9 <= Len(c)}}
SetBy(a, m) == {x.n: x \in a.set[m]}
GlobalKind(a, m, n) == LET ks == {x.k: x \in {x \in a.set[m]: x.n = n}}
                       IN IF Cardinality(ks) = 1 THEN CHOOSE k \in ks: TRUE ELSE AnyK

Bad(a, m, ip, why) == [a EXCEPT !.st = "bad", !.why = why, !.at = <<m, ip>>]
\* Knowledge k reaches instruction ip of module m: it is kept where paths may
\* join, and carried on elsewhere
Reach(a, m, ip, k) ==
  IF a.st # "run" THEN a
  ELSE IF ip < 0 \/ ip >= Len(Mod(m).code) THEN Bad(a, m, ip, "the path leaves the code")
  ELSE IF ip \notin DOMAIN a.H[m]
  THEN IF a.on THEN Bad(a, m, ip, "a jump to no instruction") ELSE [a EXCEPT !.on = TRUE, !.now = <<m, ip, k>>]
  ELSE LET old == a.H[m][ip] IN
       IF ~old.ok THEN [a EXCEPT !.H[m][ip] = k, !.work = {<<m, ip>>} \cup @]
       ELSE IF old.f # k.f THEN Bad(a, m, ip, "code of two functions")
       ELSE IF Len(old.v) # Len(k.v) THEN Bad(a, m, ip, "heights differ where paths join")
       ELSE LET j == Join(old, k) IN IF j = old THEN a ELSE [a EXCEPT !.H[m][ip] = j, !.work = {<<m, ip>>} \cup @]

Enter(a, m, f, argc) ==
  Reach([a EXCEPT !.argc[m][f] = argc], m, Funcs(m)[f].start, Know(f, <<>>, {k \in 0..LocalsOf(m, f) - 1: k < argc}, {}, {}))
Call(a, m, ip, fn, n) ==
  IF a.st # "run" THEN a
  ELSE IF Funcs(fn.m)[fn.n].locals < n THEN Bad(a, m, ip, "more arguments than local variables")
  ELSE IF a.argc[fn.m][fn.n] < 0 THEN Enter(a, fn.m, fn.n, n)
  ELSE IF a.argc[fn.m][fn.n] # n THEN Bad(a, m, ip, "calls with different numbers of arguments")
  ELSE a

\* Instructions whose failure the user sees need a line
CanFail == {"OP_ADD", "OP_MINUS", "OP_MUL", "OP_DIV", "OP_FLOORDIV", "OP_MODULO", "OP_INVERT", "OP_INDEX_GET", "OP_INDEX_SET",
            "CALL_FUNCTION", "CAST", "OP_UNWRAP"}
Answers == {"OP_AND", "OP_OR", "OP_NOT", "OP_EQ", "OP_NOTEQ", "OP_GREATER", "OP_GREATEREQ", "OP_LESS", "OP_LESSEQ", "OP_ISNULL", "MATCH_VARIANT"}

Visit(a, m, ip, k) ==
  LET c == Mod(m).code
      M == Mod(m)
      op == Name(c[ip + 1])
      z == Size(op)
      no(why) == Bad(a, m, ip, why)
  IN
  IF op = "?" THEN no("unknown instruction")
  ELSE IF ip + z > Len(c) THEN no("the code ends inside an instruction")
  ELSE IF op = "HALT"
  THEN IF k.f # 0 THEN no("HALT in a function") ELSE IF k.v # <<>> THEN no("operands left at the end") ELSE a
  ELSE
  LET n == CASE op \in Args1 -> c[ip + 2] [] op \in Args2 -> U16(c, ip + 2) [] op \in Args8 \cup {"LOAD_MODULE_DEF"} -> U64(c, ip + 2) [] OTHER -> 0
      n2 == IF op = "LOAD_MODULE_DEF" THEN U64(c, ip + 10) ELSE 0
      v == k.v
      h == Len(v)
      x == v[h - 1]
      y == Top(v)
      d(j) == Pop(v, j)
      go(w) == Reach(a, m, ip + z, [k EXCEPT !.v = w])
      gives(j, r) == go(Append(d(j), r))
  IN
  IF h < Needs(op, n) THEN no("too few operands")
  ELSE IF op \in CanFail /\ LineAt(M.srcmap, ip) < 1 THEN no("an instruction that may fail has no line")
  ELSE IF op \notin {"CALL_FUNCTION", "CAST", "BUILD_OBJ"} /\ ~(op = "SET_GLOBAL" /\ y.k = "rg") /\ \E j \in 0..Needs(op, n) - 1: ~Plain(v[h - j]) THEN no("an operand of the wrong kind")
  ELSE
  CASE op = "LOAD_CONST" -> IF n < Len(M.consts) THEN gives(0, KindOf(M.consts[n + 1])) ELSE no("no such constant")
    [] op = "LOAD_NAME" -> IF n < Len(M.names) THEN gives(0, KTxt(M.chars[n + 1])) ELSE no("no such name")
    [] op = "LOAD_REGISTO" -> IF n < Len(M.regs) THEN gives(0, KReg(m, n + 1)) ELSE no("no such registo")
    [] op = "LOAD_MODULE_DEF" ->
         IF n < 0 \/ n + 1 >= NMods \/ n2 < 0 \/ n2 >= Len(M.names) THEN no("no such module or name")
         ELSE LET o == n + 1
                  nm == M.names[n2 + 1]
                  fs == FuncNamed(o, nm)
              IN IF Mod(o).builtin
                 THEN IF nm \in (IF Mod(o).name = "mat" THEN Mat ELSE Embutidos) THEN gives(0, KindOf(BuiltinDef(Mod(o).name, nm)))
                      ELSE no("the module does not define the name")
                 ELSE IF o >= m /\ m # NMods THEN no("definition of a module that runs later")
                 ELSE IF fs # {} THEN gives(0, KFn(o, Max(fs)))
                 ELSE IF nm \in SetBy(a, o) THEN gives(0, Global(o, nm, GlobalKind(a, o, nm))) ELSE no("the module does not define the name")
    [] op = "GET_GLOBAL" ->
         IF n >= Len(M.names) THEN no("no such name")
         ELSE LET nm == M.names[n + 1]
                  fs == FuncNamed(m, nm)
              IN IF fs # {} /\ nm \notin SetBy(a, m) THEN gives(0, KFn(m, Max(fs)))
                 ELSE IF nm \in k.g \/ (k.f # 0 /\ nm \in SetBy(a, m)) THEN gives(0, Global(m, nm, GlobalKind(a, m, nm)))
                 ELSE no("a global that may have no value")
    [] op = "SET_GLOBAL" ->
         IF n >= Len(M.names) THEN no("no such name")
         ELSE Reach(a, m, ip + z, [k EXCEPT !.v = ForgetGlobals(d(1)), !.g = @ \cup {M.names[n + 1]}, !.t = {p \in @: p[1] < 100000}])
    [] op = "GET_LOCAL" ->
         IF n >= LocalsOf(m, k.f) THEN no("no such local variable")
         ELSE IF n \notin k.l THEN no("a local variable that may have no value") ELSE gives(0, KVar(n))
    [] op = "SET_LOCAL" ->
         IF n >= LocalsOf(m, k.f) THEN no("no such local variable")
         ELSE Reach(a, m, ip + z, [k EXCEPT !.v = Forget(d(1), n), !.l = @ \cup {n}, !.t = {p \in @: p[1] # n}])
    [] op \in {"MOSTRA", "POP_TOP"} -> go(d(1))
    [] op \in {"OP_AND", "OP_OR"} -> IF May(x, {"bool"}) /\ May(y, {"bool"}) THEN gives(2, K("bool")) ELSE no("an operand that is not a bool")
    [] op = "OP_NOT" -> IF May(y, {"bool"}) THEN gives(1, K("bool")) ELSE no("an operand that is not a bool")
    [] op \in {"OP_EQ", "OP_NOTEQ"} -> gives(2, K("bool"))
    [] op \in {"OP_GREATER", "OP_GREATEREQ", "OP_LESS", "OP_LESSEQ"} -> IF MayNum(x) /\ MayNum(y) THEN gives(2, K("bool")) ELSE no("an operand that is not a number")
    [] op \in DOMAIN Binaries -> IF MayNum(x) /\ MayNum(y) THEN gives(2, K("num")) ELSE no("an operand that is not a number")
    [] op = "OP_INVERT" -> IF MayNum(y) THEN gives(1, K("num")) ELSE no("an operand that is not a number")
    [] op = "OP_ISNULL" -> gives(1, K("bool"))
    [] op = "OP_INDEX_GET" -> IF MayNum(y) THEN gives(2, AnyK) ELSE no("an index that is not a number")
    [] op = "OP_INDEX_SET" -> IF MayNum(x) THEN go(d(3)) ELSE no("an index that is not a number")
    [] op = "JUMP" -> Reach(a, m, n, k)
    [] op = "JUMP_IF_FALSE" ->
         IF ~May(y, {"bool"}) THEN no("a condition that is not a bool")
         ELSE LET w == [k EXCEPT !.v = d(1)]
                  e == IF y.k = "bool" /\ y.n > 0 THEN [w EXCEPT !.t = @ \cup {<<y.n - 1, y.m>>}] ELSE w
              IN Reach(IF y.k = "bool" /\ y.n > 0 /\ Impossible(e.t, y.n - 1) THEN a ELSE Reach(a, m, n, e), m, ip + z, w)
    [] op = "CALL_FUNCTION" ->
         IF \E j \in h - n..h - 1: ~Plain(v[j]) /\ ~(j = h - n /\ y.k = "nf" /\ y.n = "vec" /\ v[j].k = "ty") THEN no("an argument of the wrong kind")
         ELSE IF y.k = "nf" THEN (IF n = 0 \/ (y.n # "vec" /\ n # ArgsOf(y.n)) \/ (y.n = "vec" /\ n < 2) THEN no("number of arguments") ELSE gives(n + 1, AnyK))
         ELSE IF y.k = "fn" THEN LET b == Call(a, m, ip, y, n) IN Reach(b, m, ip + z, [k EXCEPT !.v = Append(ForgetGlobals(d(n + 1)), AnyK), !.t = {p \in @: p[1] < 100000}])
         ELSE no("a call of something that is not a function")
    [] op = "RETURN" ->
         IF k.f = 0 THEN no("RETURN outside a function")
         ELSE IF h > 1 /\ (Prog.strict \/ LocalsOf(m, k.f) = 0) THEN no("operands left at the return")
         ELSE a
    [] op = "CAST" -> IF y.k # "ty" \/ ~Plain(x) \/ n > 1 THEN no("a conversion without a type") ELSE gives(2, AnyK)
    [] op = "BUILD_STR" -> gives(n, K("text"))
    [] op = "BUILD_VEC" -> gives(n, AnyK)
    [] op = "BUILD_OBJ" ->
         IF y.k # "rg" THEN no("an object without a registo")
         ELSE LET keys == [j \in 1..n |-> v[h - 2 * n + 2 * (j - 1)]]
                  fs == Mod(y.m).regs[y.n].fields
              IN IF \E j \in 1..n: keys[j].k # "txt" \/ ~Plain(v[h - 2 * n + 2 * j - 1]) THEN no("fields without names")
                 ELSE IF {keys[j].n: j \in 1..n} # {fs[j]: j \in 1..Len(fs)} \/ n # Len(fs) THEN no("not the fields of the registo")
                 ELSE gives(2 * n + 1, AnyK)
    [] op = "GET_PROP" -> IF y.k = "txt" THEN gives(2, AnyK) ELSE no("a field without a name")
    [] op = "SET_PROP" -> IF x.k = "txt" THEN go(d(3)) ELSE no("a field without a name")
    [] op = "OP_UNWRAP" -> IF n > 1 THEN no("argument") ELSE IF n = 1 THEN gives(2, AnyK) ELSE gives(1, AnyK)
    [] op = "BUILD_VARIANT" -> IF y.k = "int" THEN gives(n + 1, AnyK) ELSE no("a variant without a number")
    [] op = "MATCH_VARIANT" -> IF n < 0 THEN no("number of the variant") ELSE gives(1, IF y.k = "any" /\ y.n > 0 THEN KTest(y.n - 1, n) ELSE K("bool"))
    [] op = "BIND_MATCH_ARGS" ->
         LET ix == Last_(v, n) IN
         IF n = 0 \/ \E j \in 1..n: ix[j].k # "int" THEN no("a binding without a variable")
         ELSE IF \E j \in 1..n: ix[j].n < 0 \/ ix[j].n >= LocalsOf(m, k.f) THEN no("no such local variable")
         ELSE IF Cardinality({ix[j].n: j \in 1..n}) # n THEN no("two parts bound to one variable")
         ELSE Reach(a, m, ip + z, [k EXCEPT !.v = d(n + 1), !.l = @ \cup {ix[j].n: j \in 1..n},
                                             !.t = {p \in @: \A j \in 1..n: p[1] # ix[j].n}])

\* Start: the code of every module and the tables
RECURSIVE Mains(_, _)
Mains(a, m) == IF m > NMods THEN a ELSE Mains(IF Len(Mod(m).code) = 0 THEN a ELSE Reach(a, m, 0, Know(0, <<>>, {}, {}, {})), m + 1)
Empty ==
  LET starts == [m \in 1..NMods |-> StartsOf(m)]
      lead == [m \in 1..NMods |-> LeadersOf(m, Range(starts[m]))]
      off == {m \in 1..NMods: Len(Mod(m).code) > 0 /\ ~(lead[m] \subseteq Range(starts[m]))}
      a == [st |-> "run", why |-> "", at |-> <<0, 0>>, work |-> {}, on |-> FALSE, now |-> <<>>, visits |-> 0,
            set |-> [m \in 1..NMods |-> AssignedBy(m, starts[m])],
            H |-> [m \in 1..NMods |-> [ip \in lead[m] |-> None]],
            argc |-> [m \in 1..NMods |-> [f \in 1..Len(Funcs(m)) |-> -1]]]
  IN IF off # {} THEN LET m == Min(off) IN Bad(a, m, Min(lead[m] \ Range(starts[m])), "a jump to no instruction") ELSE Mains(a, 1)

\* Functions nothing calls are entered with all their variables set
Uncalled(a) == {<<m, f>> \in UNION {{m} \X (1..Len(Funcs(m))): m \in 1..NMods}: a.argc[m][f] = -1}
MapOk(map) == /\ Len(map) % 3 = 0
              /\ \A j \in 1..Len(map): j % 3 = 1 => map[j] <= map[j + 1]
Close(a) ==
  LET maps == {m \in 1..NMods: ~Mod(m).builtin /\ ~MapOk(Mod(m).srcmap)}
      owners == {m \in 1..NMods: \E f \in 1..Len(Funcs(m)): Funcs(m)[f].module # (IF m = NMods THEN -1 ELSE m - 1)}
  IN IF maps # {} THEN Bad(a, Min(maps), 0, "source map")
     ELSE IF owners # {} THEN Bad(a, Min(owners), 0, "a function of another module")
     ELSE [a EXCEPT !.st = "safe"]

Idle(a) == ~a.on /\ a.work = {}
RECURSIVE Many(_, _)
Many(a, k) ==
  IF k = 0 \/ a.st # "run" \/ Idle(a) THEN a
  ELSE Many(IF a.on THEN Visit([a EXCEPT !.on = FALSE, !.visits = @ + 1], a.now[1], a.now[2], a.now[3])
            ELSE LET w == CHOOSE w \in a.work: TRUE
                 IN Visit([a EXCEPT !.work = @ \ {w}, !.visits = @ + 1], w[1], w[2], a.H[w[1]][w[2]]), k - 1)

CInit == /\ pid \in 1..Len(P)
         /\ S = 0
         /\ A = Empty
Working == A.st = "run" /\ ~Idle(A) /\ A' = Many(A, StepsPerTransition)
Entering == /\ A.st = "run" /\ Idle(A) /\ Uncalled(A) # {}
            /\ A' = LET u == CHOOSE u \in Uncalled(A): TRUE IN [Enter(A, u[1], u[2], Funcs(u[1])[u[2]].locals) EXCEPT !.argc[u[1]][u[2]] = -2]
Closing == A.st = "run" /\ Idle(A) /\ Uncalled(A) = {} /\ A' = Close(A)
CReporting == /\ A.st \in {"bad", "safe"}
              /\ PrintT("@@" \o ToJson([p |-> P[pid].pid, st |-> A.st, why |-> A.why, at |-> A.at, visits |-> A.visits,
                                        argc |-> A.argc]))
              /\ A' = [st |-> "done"]
CNext == (Working \/ Entering \/ Closing \/ CReporting) /\ UNCHANGED <<pid, S>>
CSpec == CInit /\ [][CNext]_cvars

\* No knowledge is ever lost: what is known of an instruction only shrinks
Heights == A.st = "run" => \A m \in 1..NMods: \A w \in A.work: w[1] = m => A.H[m][w[2]].ok
=============================================================================
