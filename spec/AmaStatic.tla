------------------------------ MODULE AmaStatic ------------------------------
(* The static rules of the language: what a program must satisfy to be run.  *)
(*                                                                           *)
(* Programs come from a JSON file (IOEnv.PROGS): for each one a table of     *)
(* syntax nodes, the items of its modules and the module to start from.      *)
(* The state is an agenda of what is still to be examined, in the order of   *)
(* the text, with the types of the operands examined so far, the names in    *)
(* scope and the construct around (function, loop, block that yields).  The  *)
(* verdict is "yes", or "no" with the lines of the offending construct.      *)
(* The arms of a match may be examined in any order.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANT StepsPerTransition
VARIABLES pid, M
vars == <<pid, M>>

P == JsonDeserialize(IOEnv.PROGS)
N(i) == P[pid].nodes[i]

-----------------------------------------------------------------------------
\* Types
T(k) == [k |-> k]
Vec(t) == [k |-> "vec", of |-> t]
Opt(t) == [k |-> "opt", of |-> t]
Nope == [k |-> "-"]
Basic == {"int", "real", "bool", "texto", "indef"}
Prims == Basic \cup {"vazio", "nulo"}
Numeric(t) == t.k \in {"int", "real"}
\* Variables of these types start with a value
HasDefault(t) == t.k \in {"int", "real", "bool", "texto"}

RECURSIVE Promotes(_, _)
Promotes(a, b) ==
  CASE b.k = "indef" -> a.k \in {"int", "real", "bool", "texto", "vec", "reg", "uni", "opt"}
    [] b.k = "real" -> a.k = "int"
    [] b.k = "opt" -> a = b.of \/ a.k = "nulo" \/ Promotes(a, b.of)
    [] OTHER -> FALSE
Fits(want, got) == want = got \/ Promotes(got, want)

RECURSIVE Casts(_, _)
Casts(a, b) ==
  IF a.k \notin Prims THEN FALSE
  ELSE IF b.k = "opt" THEN a.k = "nulo" \/ Casts(a, b.of)
  ELSE IF b.k \notin Prims THEN FALSE
  ELSE a = b \/ (a.k \in {"int", "real", "texto", "indef"} /\ b.k \in Basic) \/ (a.k = "bool" /\ b.k \in {"texto", "indef"})

Equality == {"==", "!="}
Ordering == {"<", ">", "<=", ">="}
Logic == {"e", "ou"}
BinRes(op, a, b) ==
  CASE a.k \in Prims ->
         IF b.k \notin Prims \ {"vazio", "indef"} THEN Nope
         ELSE IF op \in Equality THEN IF (Numeric(a) /\ Numeric(b)) \/ a = b \/ Promotes(a, b) \/ Promotes(b, a) THEN T("bool") ELSE Nope
         ELSE IF op \in Logic THEN IF a.k = "bool" /\ b.k = "bool" THEN T("bool") ELSE Nope
         ELSE IF ~(Numeric(a) /\ Numeric(b)) THEN Nope
         ELSE IF op \in Ordering THEN T("bool")
         ELSE IF op # "/" /\ a.k = "int" /\ b.k = "int" THEN T("int") ELSE T("real")
    [] a.k = "reg" -> IF op \in Equality /\ b.k = "reg" THEN T("bool") ELSE Nope
    [] a.k = "opt" -> IF op \in Equality /\ b.k # "vazio" THEN T("bool") ELSE Nope
    [] OTHER -> Nope
UnRes(op, a) == IF op = "nao" THEN IF a.k = "bool" THEN a ELSE Nope ELSE IF Numeric(a) THEN a ELSE Nope

-----------------------------------------------------------------------------
\* Names.  id tells definitions apart, file is the module they belong to.
Var(t, f, id) == [s |-> "var", t |-> t, file |-> f, id |-> id, init |-> FALSE]
Fn(ps, rt, f, id) == [s |-> "fn", ps |-> ps, rt |-> rt, file |-> f, id |-> id, bi |-> ""]
Ty(t, f, id) == [s |-> "type", t |-> t, file |-> f, id |-> id]
None == [s |-> "-"]

\* The module of what comes with the language is 0, "mat" is -1
Bi(name, ps, rt, an) == [Fn(ps, rt, 0, <<"b", an, name>>) EXCEPT !.bi = name]
Plain(name, ps, rt, an) == Fn(ps, rt, 0, <<"b", an, name>>)
Start(an) ==
  [x \in Prims |-> Ty(T(x), 0, <<"b", 0, x>>)] @@
  ("leia" :> Plain("leia", <<T("texto")>>, T("texto"), an)) @@ ("leia_int" :> Plain("leia_int", <<T("texto")>>, T("int"), an)) @@
  ("leia_real" :> Plain("leia_real", <<T("texto")>>, T("real"), an)) @@ ("escreva" :> Plain("escreva", <<T("indef")>>, T("vazio"), an)) @@
  ("escrevaln" :> Plain("escrevaln", <<T("indef")>>, T("vazio"), an)) @@
  ("txt_contem" :> Plain("txt_contem", <<T("texto"), T("texto")>>, T("bool"), an)) @@
  ("vec" :> Bi("vec", <<>>, T("vazio"), an)) @@ ("tam" :> Bi("tam", <<>>, T("int"), an)) @@ ("anexa" :> Bi("anexa", <<>>, T("vazio"), an)) @@
  ("remova" :> Bi("remova", <<>>, T("vazio"), an)) @@ ("Opcao" :> [Ty(T("generic"), 0, <<"b", an, "Opcao">>) EXCEPT !.s = "generic"])
R1 == <<T("real")>>
R2 == <<T("real"), T("real")>>
Lib == [x \in {"abs", "raizqd", "sen", "cos", "tan", "grausprad", "radpgraus"} |-> Fn(R1, T("real"), -1, <<"mat", x>>)] @@
       [x \in {"arredonda", "piso", "teto"} |-> Fn(R1, T("int"), -1, <<"mat", x>>)] @@
       [x \in {"expoente", "log"} |-> Fn(R2, T("real"), -1, <<"mat", x>>)] @@ ("PI" :> Var(T("real"), -1, <<"mat", "PI">>))

\* m.sc are the scopes inside the module, m.glob the outermost scope of every
\* module (the modules included whole share the scope of the includer)
Deep(m) == Len(m.sc) > 0
Own(m) == IF Deep(m) THEN Last(m.sc) ELSE m.glob[m.an]
Has(sc, name) == name \in DOMAIN sc
Lookup(m, name) ==
  LET at == {i \in 1..Len(m.sc): Has(m.sc[i], name)}
  IN IF at # {} THEN m.sc[Max(at)][name] ELSE IF Has(m.glob[m.an], name) THEN m.glob[m.an][name] ELSE None
Define(m, name, sym) ==
  IF Deep(m) THEN [m EXCEPT !.sc[Len(m.sc)] = (name :> sym) @@ @] ELSE [m EXCEPT !.glob[m.an] = (name :> sym) @@ @]

ScopeOf(m, f) == m.glob[m.mods[f].an]
IsMod(sym) == sym.s = "var" /\ sym.t.k = "mod"

\* The type a piece of the text denotes
RECURSIVE ModAt(_, _, _, _)
ModAt(m, sym, path, i) ==
  IF ~IsMod(sym) THEN None
  ELSE LET sc == ScopeOf(m, sym.t.m) IN
       IF ~Has(sc, path[i]) THEN None ELSE IF i = Len(path) THEN sc[path[i]] ELSE ModAt(m, sc[path[i]], path, i + 1)
RECURSIVE TypeOf(_, _)
TypeOf(m, ty) ==
  CASE ty.k = "vec" -> LET t == TypeOf(m, ty.of) IN IF t = Nope THEN Nope ELSE Vec(t)
    [] ty.k = "opt" -> LET t == TypeOf(m, ty.of) IN IF t = Nope THEN Nope ELSE Opt(t)
    [] ty.k = "vazio" -> T("vazio")
    [] OTHER -> LET sym == IF Len(ty.path) = 1 THEN Lookup(m, ty.path[1]) ELSE ModAt(m, Lookup(m, ty.path[1]), ty.path, 2)
                IN IF sym.s = "type" THEN sym.t ELSE Nope

\* The member of a value of type t
Member(m, t, name) ==
  CASE t.k = "reg" -> LET r == m.tys[t.i]
                          at == {j \in 1..Len(r.fs): r.fs[j][1] = name}
                      IN IF at # {} THEN Var(r.fs[Min(at)][2], 0, <<>>) ELSE IF Has(r.mets, name) THEN r.mets[name] ELSE None
    [] t.k = "uni" -> IF Has(m.tys[t.i].mets, name) THEN m.tys[t.i].mets[name] ELSE None
    [] t.k = "opt" -> IF name = "valor" THEN Var(t.of, 0, <<>>) ELSE IF name = "valor_ou" THEN Fn(<<t.of>>, t.of, 0, <<>>) ELSE None
    [] t.k = "mod" -> IF Has(ScopeOf(m, t.m), name) THEN ScopeOf(m, t.m)[name] ELSE None
    [] t.k \in Prims -> IF Has(m.pm[t.k], name) THEN m.pm[t.k][name] ELSE None
    [] OTHER -> None
VariantOf(m, t, name) == LET vs == m.tys[t.i].vs IN {j \in 1..Len(vs): vs[j][1] = name}

-----------------------------------------------------------------------------
\* Which statements certainly return
RECURSIVE Returns(_), AnyReturns(_)
AnyReturns(b) == \E j \in 1..Len(b): Returns(b[j])
Returns(i) ==
  LET s == N(i) IN
  CASE s.k = "ret" -> TRUE
    [] s.k = "se" -> s.haselse /\ (\A j \in 1..Len(s.cs): AnyReturns(s.cs[j].b)) /\ AnyReturns(s.el)
    [] s.k = "esc" -> s.haselse /\ (\A j \in 1..Len(s.cs): AnyReturns(s.cs[j].b)) /\ AnyReturns(s.el)
    [] s.k \in {"enq", "para"} -> AnyReturns(s.b)
    [] s.k = "expr" -> N(s.a).k = "ig" /\ \A j \in 1..Len(N(s.a).arms): N(s.a).arms[j].x = 0 /\ AnyReturns(N(s.a).arms[j].b)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* Patterns.  0 stands for a pattern that matches anything.
Wild(p) == p = 0 \/ N(p).k = "any"
Sub(p, j) == IF Wild(p) \/ j > Len(N(p).subs) THEN 0 ELSE N(p).subs[j]
IsVariant(p, v) == Wild(p) \/ (N(p).k = "adt" /\ N(p).name = v[1])
ForVariant(row, v) == [j \in 1..Len(v[2]) |-> Sub(row[1], j)] \o Tail(row)
Rows(rows, keep(_), turn(_)) == FoldLeft(LAMBDA out, r: IF keep(r) THEN Append(out, turn(r)) ELSE out, <<>>, rows)

\* Is there a value that row matches and none of rows does?
RECURSIVE Useful(_, _, _, _)
Useful(m, rows, row, tys) ==
  IF row = <<>> THEN rows = <<>>
  ELSE
  LET h == row[1]
      plain == \A i \in 1..Len(rows): Wild(rows[i][1])
      variant(v) == Useful(m, Rows(rows, LAMBDA r: IsVariant(r[1], v), LAMBDA r: ForVariant(r, v)), ForVariant(row, v), v[2] \o Tail(tys))
      literal(x) == Useful(m, Rows(rows, LAMBDA r: Wild(r[1]) \/ N(r[1]).v = x, Tail), Tail(row), Tail(tys))
      other == Useful(m, Rows(rows, LAMBDA r: Wild(r[1]), Tail), Tail(row), Tail(tys))
  IN IF ~Wild(h) THEN
       IF N(h).k = "adt" THEN LET vs == m.tys[tys[1].i].vs IN variant(vs[CHOOSE j \in 1..Len(vs): vs[j][1] = N(h).name])
       ELSE literal(N(h).v)
     ELSE IF plain THEN other
     ELSE IF tys[1].k = "uni" THEN \E j \in 1..Len(m.tys[tys[1].i].vs): variant(m.tys[tys[1].i].vs[j])
     ELSE other \/ \E i \in 1..Len(rows): ~Wild(rows[i][1]) /\ literal(N(rows[i][1]).v)

\* The names a pattern gives to the parts of a value of type t, or where it is wrong
PatOk(sc) == [ok |-> TRUE, sc |-> sc, lo |-> 0, hi |-> 0]
PatBad(p) == [ok |-> FALSE, sc |-> <<>>, lo |-> N(p).lo, hi |-> N(p).hi]
RECURSIVE Pat(_, _, _, _), Pats(_, _, _, _, _)
Pat(m, p, t, sc) ==
  LET q == N(p) IN
  CASE q.k = "any" -> IF Has(sc, q.n) THEN PatBad(p) ELSE PatOk((q.n :> Var(t, m.file, <<p>>)) @@ sc)
    [] q.k = "lit" -> IF q.ty = t.k /\ ~q.over THEN PatOk(sc) ELSE PatBad(p)
    [] q.k = "adt" ->
         LET sym == Lookup(m, q.uni) IN
         IF sym.s # "type" \/ sym.t.k # "uni" \/ VariantOf(m, sym.t, q.name) = {} THEN PatBad(p)
         ELSE LET v == m.tys[sym.t.i].vs[Min(VariantOf(m, sym.t, q.name))] IN
              IF Len(q.subs) > Len(v[2]) THEN PatBad(p)
              ELSE LET r == Pats(m, q.subs, v[2], 1, sc) IN IF ~r.ok \/ sym.t = t THEN r ELSE PatBad(p)
    [] OTHER -> PatBad(p)
Pats(m, ps, ts, j, sc) == IF j > Len(ps) THEN PatOk(sc) ELSE LET r == Pat(m, ps[j], ts[j], sc) IN IF r.ok THEN Pats(m, ps, ts, j + 1, r.sc) ELSE r

-----------------------------------------------------------------------------
\* The agenda
Do(o, n, x) == [o |-> o, n |-> n, x |-> x]
V(n) == Do("visit", n, "")
Target(n) == Do("visit", n, "member")                    \* what is before a dot
Then(m, todo) == [m EXCEPT !.ag = todo \o @]
FailAt(m, lo, hi) == [m EXCEPT !.st = "no", !.at = <<m.file, lo, hi>>]
Fail(m, n) == FailAt(m, N(n).lo, N(n).hi)
Give(m, k, t) == [m EXCEPT !.ts = Append(SubSeq(@, 1, Len(@) - k), t)]
Drop(m, k) == [m EXCEPT !.ts = SubSeq(@, 1, Len(@) - k)]
Top(m, k) == m.ts[Len(m.ts) + 1 - k]                     \* 1 is the last
Need(m, ok, n) == IF ok THEN m ELSE Fail(m, n)
Each(ids, f(_)) == [j \in 1..Len(ids) |-> f(ids[j])]
Block(b, sc) == <<Do("open", 0, sc)>> \o Each(b, V) \o <<Do("close", 0, "")>>
NoNames == [x \in {} |-> 0]
Outside == [on |-> FALSE, rt |-> Nope, met |-> FALSE, self |-> Nope]

\* A call, once what is called is known
NamedAt(as) == {j \in 1..Len(as): as[j].n # ""}
Apply(m, n, sym) ==
  LET e == N(n)
      as == e.args
      arg(j) == V(as[j].e)
      stop == IF NamedAt(as) = {} THEN Len(as) + 1 ELSE Min(NamedAt(as))
  IN CASE sym.s = "fn" /\ sym.bi = "" ->
            Then(m, [j \in 1..(stop - 1) |-> arg(j)] \o <<IF stop <= Len(as) THEN Do("fail", n, "") ELSE Do("call", n, sym)>>)
       [] sym.s = "fn" /\ NamedAt(as) # {} -> Fail(m, n)
       [] sym.s = "fn" /\ sym.bi = "vec" ->
            IF Len(as) \notin 2..255 THEN Fail(m, n)
            ELSE Then(m, FlattenSeq([j \in 1..(Len(as) - 1) |-> <<arg(j + 1), Do("int", n, "")>>]) \o <<Do("vec", n, "")>>)
       [] sym.s = "fn" /\ sym.bi = "tam" -> IF Len(as) # 1 THEN Fail(m, n) ELSE Then(m, <<arg(1), Do("tam", n, "")>>)
       [] sym.s = "fn" -> IF Len(as) # 2 THEN Fail(m, n) ELSE Then(m, <<arg(1), arg(2), Do(sym.bi, n, "")>>)
       [] sym.s = "type" /\ sym.t.k = "reg" ->
            IF Len(as) # Len(m.tys[sym.t.i].fs) THEN Fail(m, n)
            ELSE Then(m, FlattenSeq([j \in 1..Len(as) |-> IF as[j].n = "" THEN <<Do("fail", n, "")>> ELSE <<arg(j), Do("field", n, <<sym.t, j>>)>>])
                         \o <<Do("give", n, sym.t)>>)
       [] sym.s = "variant" ->
            IF Len(sym.ps) = 0 \/ NamedAt(as) # {} \/ Len(as) # Len(sym.ps) THEN Fail(m, n)
            ELSE Then(m, [j \in 1..Len(as) |-> arg(j)] \o <<Do("call", n, sym)>>)
       [] OTHER -> Fail(m, n)

\* The variant a path denotes
PathSym(m, p) ==
  LET sym == Lookup(m, p.uni)
      at == IF sym.s = "type" /\ sym.t.k = "uni" THEN VariantOf(m, sym.t, p.name) ELSE {}
  IN IF at = {} THEN None ELSE [s |-> "variant", ps |-> m.tys[sym.t.i].vs[Min(at)][2], rt |-> sym.t]

Elements(t) == IF t.k = "texto" THEN T("texto") ELSE t.of

\* Assignments: what is assigned to has been examined before the value
AsgVar(m, n, name, x) ==
  LET sym == Lookup(m, name)
  IN IF sym.s # "var" \/ sym.init \/ sym.file # m.file \/ sym.t.k = "mod" \/ ~Fits(sym.t, Top(m, 1)) THEN Fail(m, n) ELSE Give(m, 1, sym.t)
Assign(m, n, e, value) ==
  LET l == N(e.l) IN
  CASE l.k = "var" -> Then(m, value \o <<Do("asgvar", n, l.n)>>)
    [] l.k = "get" -> Then(m, <<Target(l.a), Do("settable", e.l, "")>> \o value \o <<Do("asg", n, "")>>)
    [] l.k = "idx" -> Then(m, <<V(l.a), V(l.b), Do("setidx", e.l, "")>> \o value \o <<Do("asg", n, "")>>)
    [] OTHER -> Fail(m, n)

Declare(m, n, name, ty, a) ==
  LET s == N(n)
      t == TypeOf(m, ty)
  IN IF Has(Own(m), name) \/ t = Nope \/ (a = 0 /\ ~HasDefault(t)) THEN Fail(m, n)
     ELSE IF a = 0 THEN Define(m, name, Var(t, m.file, <<n, name>>))
     ELSE Then(Define(m, name, [Var(t, m.file, <<n, name>>) EXCEPT !.init = TRUE]), <<V(a), Do("declared", n, name)>>)

Visit(m, n, x) ==
  LET e == N(n) IN
  CASE e.k = "lit" -> IF e.over THEN Fail(m, n) ELSE Give(m, 0, T(e.ty))
    [] e.k = "var" -> LET s == Lookup(m, e.n)
                      IN IF s.s # "var" \/ (s.s = "var" /\ (s.init \/ (s.t.k = "mod" /\ x # "member"))) THEN Fail(m, n) ELSE Give(m, 0, s.t)
    [] e.k = "alvo" -> IF m.fn.met THEN Give(m, 0, m.fn.self) ELSE Fail(m, n)
    [] e.k = "path" -> LET s == PathSym(m, e) IN IF s = None \/ Len(s.ps) > 0 THEN Fail(m, n) ELSE Give(m, 0, s.rt)
    [] e.k = "get" -> Then(m, <<Target(e.a), Do("get", n, x)>>)
    [] e.k = "idx" -> Then(m, <<V(e.a), V(e.b), Do("idx", n, "")>>)
    [] e.k = "call" ->
         LET f == N(e.fn) IN
         CASE f.k = "var" -> LET s == Lookup(m, f.n) IN IF s = None THEN Fail(m, n) ELSE Apply(m, n, s)
           [] f.k = "get" -> Then(m, <<Target(f.a), Do("callmember", n, "")>>)
           [] f.k = "path" -> LET s == PathSym(m, f) IN IF s = None THEN Fail(m, n) ELSE Apply(m, n, s)
           [] OTHER -> Fail(m, n)
    [] e.k = "cast" -> Then(m, <<V(e.a), Do("cast", n, "")>>)
    [] e.k = "bin" -> Then(m, <<V(e.a), V(e.b), Do("bin", n, e.op)>>)
    [] e.k = "un" -> Then(m, <<V(e.a), Do("un", n, "")>>)
    [] e.k = "vecl" ->
         LET t == TypeOf(m, e.ty)
         IN IF t = Nope \/ Len(e.args) > 255 THEN Fail(m, n)
            ELSE Then(m, FlattenSeq([j \in 1..Len(e.args) |-> <<V(e.args[j]), Do("element", n, t)>>]) \o <<Do("give", n, Vec(t))>>)
    [] e.k = "fstr" ->
         IF Len(e.args) > 255 THEN Fail(m, n)
         ELSE Then(m, FlattenSeq([j \in 1..Len(e.args) |-> <<V(e.args[j]), Do("part", n, "")>>]) \o <<Do("give", n, T("texto"))>>)
    [] e.k = "ig" -> Then([m EXCEPT !.sc = Append(@, NoNames)], <<V(e.a), Do("patterns", n, "")>>)
    [] e.k = "asg" -> Assign(m, n, e, <<V(e.a)>>)
    [] e.k = "cas" -> Assign(m, n, e, <<V(e.l), V(e.a), Do("bin", n, e.op)>>)
    \* Statements
    [] e.k \in {"mostra", "expr"} -> Then(m, <<V(e.a), Do("drop", n, "")>>)
    [] e.k = "ret" ->
         IF ~m.fn.on \/ (m.fn.rt.k = "vazio") # (e.a = 0) THEN Fail(m, n)
         ELSE LET m2 == IF m.yb = <<>> THEN m ELSE [m EXCEPT !.yb[Len(m.yb)].ret = TRUE]
              IN IF e.a = 0 THEN m2 ELSE Then(m2, <<V(e.a), Do("returned", n, "")>>)
    [] e.k = "prod" -> IF m.yb = <<>> THEN Fail(m, n) ELSE IF Last(m.yb).last # n THEN Fail(m, n) ELSE Then(m, <<V(e.a), Do("yield", n, "")>>)
    [] e.k = "jump" -> Need(m, m.loop, n)
    [] e.k = "enq" -> Then(m, <<V(e.c), Do("cond", n, e.c), Do("loop", n, TRUE)>> \o Block(e.b, NoNames) \o <<Do("loop", n, m.loop)>>)
    [] e.k = "para" ->
         Then(m, <<V(e.a), V(e.z)>> \o (IF e.inc = 0 THEN <<>> ELSE <<V(e.inc)>>) \o <<Do("range", n, IF e.inc = 0 THEN 2 ELSE 3), Do("loop", n, TRUE)>>
                 \o Block(e.b, e.n :> Var(T("int"), m.file, <<n>>)) \o <<Do("loop", n, m.loop)>>)
    [] e.k = "se" ->
         Then(m, FlattenSeq([j \in 1..Len(e.cs) |-> <<V(e.cs[j].c), Do("cond", n, e.cs[j].c)>> \o Block(e.cs[j].b, NoNames)]) \o Block(e.el, NoNames))
    [] e.k = "esc" ->
         Then(m, <<V(e.a), Do("choice", n, "")>> \o FlattenSeq([j \in 1..Len(e.cs) |-> <<V(e.cs[j].c), Do("case", n, e.cs[j].c)>> \o Block(e.cs[j].b, NoNames)])
                 \o Block(e.el, NoNames) \o <<Do("drop", n, "")>>)
    [] e.k = "decl" -> Declare(m, n, e.n, e.ty, e.a)
    [] e.k = "decls" -> Then(m, [j \in 1..Len(e.ns) |-> Do("decl1", n, e.ns[j])])
    [] e.k = "reg" ->
         IF Has(Own(m), e.n) \/ Len(e.fs) > 255 THEN Fail(m, n)
         ELSE LET i == Len(m.tys) + 1
                  t == [k |-> "reg", i |-> i]
              IN Then(Define([m EXCEPT !.tys = Append(@, [fs |-> <<>>, mets |-> NoNames])], e.n, Ty(t, m.file, <<n>>)),
                      [j \in 1..Len(e.fs) |-> Do("regfield", n, <<i, j>>)])
    [] e.k = "uni" ->
         IF Has(Own(m), e.n) THEN Fail(m, n)
         ELSE LET i == Len(m.tys) + 1
                  t == [k |-> "uni", i |-> i]
              IN Then(Define([m EXCEPT !.tys = Append(@, [vs |-> <<>>, mets |-> NoNames])], e.n, Ty(t, m.file, <<n>>)),
                      [j \in 1..Len(e.vs) |-> Do("univariant", n, <<i, j>>)])
    [] e.k = "func" ->
         LET rt == TypeOf(m, e.rt)
         IN IF Deep(m) \/ Has(Own(m), e.n) \/ Len(e.ps) > 255 \/ rt = Nope THEN FailAt(m, e.lo, e.hh)
            ELSE \* The parameters are examined with the name of the function known
                 LET m2 == Define(m, e.n, Fn(<<>>, rt, m.file, <<n>>))
                     ps == [j \in 1..Len(e.ps) |-> TypeOf(m2, e.ps[j].ty)]
                 IN IF (\E j \in 1..Len(ps): ps[j] = Nope) \/ Cardinality({e.ps[j].n: j \in 1..Len(ps)}) # Len(ps) THEN FailAt(m, e.lo, e.hh)
                    ELSE IF rt.k # "vazio" /\ ~AnyReturns(e.b) THEN FailAt(m, e.lo, e.lo)
                    ELSE LET sc == [y \in {e.ps[j].n: j \in 1..Len(ps)} |-> Var(ps[CHOOSE j \in 1..Len(ps): e.ps[j].n = y], m.file, <<n, y>>)]
                         IN Then([Define(m2, e.n, Fn(ps, rt, m.file, <<n>>)) EXCEPT !.fn = [on |-> TRUE, rt |-> rt, met |-> FALSE, self |-> Nope]],
                                 Block(e.b, sc) \o <<Do("leave", n, "")>>)
    [] e.k = "met" ->
         LET self == TypeOf(m, e.self)
             rt == TypeOf(m, e.rt)
             ps == [j \in 1..Len(e.ps) |-> TypeOf(m, e.ps[j].ty)]
         IN IF Len(e.ps) > 254 \/ self = Nope \/ self.k \in {"opt", "vec"} THEN FailAt(m, e.lo, e.hh)
            ELSE IF Member(m, self, e.n) # None \/ Deep(m) \/ rt = Nope THEN FailAt(m, e.lo, e.hh)
            ELSE IF (\E j \in 1..Len(ps): ps[j] = Nope) \/ Cardinality({e.ps[j].n: j \in 1..Len(ps)}) # Len(ps) THEN FailAt(m, e.lo, e.hh)
            ELSE IF rt.k # "vazio" /\ ~AnyReturns(e.b) THEN FailAt(m, e.lo, e.lo)
            ELSE LET sc == [y \in {e.ps[j].n: j \in 1..Len(ps)} |-> Var(ps[CHOOSE j \in 1..Len(ps): e.ps[j].n = y], m.file, <<n, y>>)]
                 IN Then([m EXCEPT !.fn = [on |-> TRUE, rt |-> rt, met |-> TRUE, self |-> self]],
                         Block(e.b, sc) \o <<Do("method", n, <<self, Fn(ps, rt, m.file, <<n>>)>>)>>)
    [] e.k = "usa" ->
         IF e.mod = 0 THEN Fail(m, n)
         \* A cycle is reported at one of the modules it goes through: in one
         \* that is not the first, at the one that closes it
         ELSE IF m.mods[e.mod].st = "loading" THEN IF e.mod = P[pid].main THEN [Fail(m, n) EXCEPT !.lax = TRUE, !.at[1] = 0] ELSE Fail(m, n)
         ELSE IF m.mods[e.mod].st = "loaded" THEN Then(m, <<Do("import", n, "")>>)
         ELSE LET new == e.mode # "all"
                  an == IF new THEN Len(m.glob) + 1 ELSE m.an
                  m2 == [m EXCEPT !.mods[e.mod] = [st |-> "loading", an |-> an], !.glob = IF new THEN Append(@, Start(an)) ELSE @, !.an = an, !.file = e.mod]
              IN IF e.mod = -1 THEN Then(m2, <<Do("library", n, ""), Do("loaded", n, <<m.an, m.file>>)>>)
                 ELSE Then(m2, Each(P[pid].mods[e.mod].items, V) \o <<Do("loaded", n, <<m.an, m.file>>)>>)

\* Names that come into the scope of the module from another one
Bring(m, n, name, sym) ==
  IF Has(Own(m), name) THEN IF Own(m)[name].id = sym.id THEN m ELSE Fail(m, n) ELSE Define(m, name, sym)
RECURSIVE BringAll(_, _, _)
BringAll(m, n, some) == IF some = <<>> \/ m.st # "run" THEN m ELSE BringAll(Bring(m, n, some[1][1], some[1][2]), n, Tail(some))
RECURSIVE BringNamed(_, _, _, _)
BringNamed(m, n, from, names) ==
  IF names = <<>> \/ m.st # "run" THEN m
  ELSE IF ~Has(from, names[1]) THEN Fail(m, n)
  ELSE BringNamed(Bring(m, n, names[1], from[names[1]]), n, from, Tail(names))
Import(m, n) ==
  LET e == N(n)
      from == ScopeOf(m, e.mod)
      own == SetToSeq({<<x, from[x]>>: x \in {x \in DOMAIN from: from[x].file = e.mod /\ ~IsMod(from[x])}})
  IN CASE e.mode = "as" ->
            IF Has(Own(m), e.as) THEN IF IsMod(Own(m)[e.as]) /\ Own(m)[e.as].t.m = e.mod THEN m ELSE Fail(m, n)
            ELSE Define(m, e.as, Var([k |-> "mod", m |-> e.mod], e.mod, <<n>>))
       [] e.mode = "some" -> BringNamed(m, n, from, e.names)
       [] OTHER -> IF m.mods[e.mod].an = m.an THEN m ELSE BringAll(m, n, own)

Reach(m, t, arms) == {i \in 1..Len(arms): Useful(m, [j \in 1..(i - 1) |-> <<arms[j].p>>], <<arms[i].p>>, <<t>>)}

Step(m0) ==
  LET d == m0.ag[1]
      m == [m0 EXCEPT !.ag = Tail(@)]
      n == d.n
      x == d.x
      t1 == Top(m, 1)
      t2 == Top(m, 2)
  IN
  CASE d.o = "visit" -> Visit(m, n, x)
    [] d.o = "fail" -> Fail(m, n)
    [] d.o = "drop" -> Drop(m, 1)
    [] d.o = "give" -> Give(m, 0, x)
    [] d.o = "open" -> [m EXCEPT !.sc = Append(@, x)]
    [] d.o = "close" -> [m EXCEPT !.sc = Front(@)]
    [] d.o = "loop" -> [m EXCEPT !.loop = x]
    \* Expressions
    [] d.o \in {"get", "callmember"} ->
         LET g == IF d.o = "get" THEN N(n) ELSE N(N(n).fn)
             s == Member(m, t1, g.n)
         IN IF s = None THEN Fail(m, n)
            ELSE IF d.o = "callmember" THEN Apply(Drop(m, 1), n, s)
            ELSE IF s.s # "var" \/ (IsMod(s) /\ x # "member") THEN Fail(m, n) ELSE Give(m, 1, s.t)
    [] d.o = "settable" ->
         LET s == Member(m, t1, N(n).n)
         IN IF s = None \/ s.s # "var" \/ t1.k \in {"mod", "opt"} THEN Fail(m, n) ELSE Give(m, 1, s.t)
    [] d.o \in {"idx", "setidx"} ->
         IF t2.k \notin {"texto", "vec"} \/ t1.k # "int" \/ (d.o = "setidx" /\ t2.k = "texto") THEN Fail(m, n) ELSE Give(m, 2, Elements(t2))
    [] d.o = "asg" -> IF Fits(t2, t1) THEN Drop(m, 1) ELSE Fail(m, n)
    [] d.o = "asgvar" -> AsgVar(m, n, x, t1)
    [] d.o = "call" ->
         LET k == Len(N(n).args)
         IN IF k # Len(x.ps) \/ \E j \in 1..k: ~Fits(x.ps[j], m.ts[Len(m.ts) - k + j]) THEN Fail(m, n) ELSE Give(m, k, x.rt)
    [] d.o = "int" -> IF t1.k = "int" THEN Drop(m, 1) ELSE Fail(m, n)
    [] d.o = "vec" ->
         LET a == N(N(n).args[1].e)
             s == IF a.k = "var" THEN Lookup(m, a.n) ELSE None
         IN IF s.s # "type" THEN Fail(m, n) ELSE IF ~HasDefault(s.t) THEN Fail(m, n)
            ELSE Give(m, 0, FoldLeft(LAMBDA v, j: Vec(v), s.t, [j \in 1..(Len(N(n).args) - 1) |-> j]))
    [] d.o = "tam" -> IF t1.k \in {"texto", "vec"} THEN Give(m, 1, T("int")) ELSE Fail(m, n)
    [] d.o = "anexa" -> IF t2.k = "vec" /\ (t2.k = "vec" => Fits(t2.of, t1)) THEN Give(m, 2, T("vazio")) ELSE Fail(m, n)
    [] d.o = "remova" -> IF t2.k = "vec" /\ t1.k = "int" THEN Give(m, 2, t2.of) ELSE Fail(m, n)
    [] d.o = "field" ->
         LET as == N(n).args
             j == x[2]
             s == {f \in Range(m.tys[x[1].i].fs): f[1] = as[j].n}
         IN IF s = {} \/ (\E h \in 1..(j - 1): as[h].n = as[j].n) \/ ~\A f \in s: Fits(f[2], t1) THEN Fail(m, n) ELSE Drop(m, 1)
    [] d.o = "cast" -> LET t == TypeOf(m, N(n).to) IN IF t = Nope \/ ~Casts(t1, t) THEN Fail(m, n) ELSE Give(m, 1, t)
    [] d.o = "bin" -> LET t == BinRes(x, t2, t1) IN IF t = Nope THEN Fail(m, n) ELSE Give(m, 2, t)
    [] d.o = "un" -> LET t == UnRes(N(n).op, t1) IN IF t = Nope THEN Fail(m, n) ELSE Give(m, 1, t)
    [] d.o = "element" -> IF Fits(x, t1) THEN Drop(m, 1) ELSE Fail(m, n)
    [] d.o = "part" -> IF Casts(t1, T("texto")) THEN Drop(m, 1) ELSE Fail(m, n)
    \* Matches
    [] d.o = "patterns" ->
         LET arms == N(n).arms
             ps == [j \in 1..Len(arms) |-> Pat(m, arms[j].p, t1, NoNames)]
             bad == {j \in 1..Len(arms): ~ps[j].ok}
         IN IF t1.k = "vazio" THEN Fail(m, n)
            ELSE IF bad # {} THEN FailAt(m, ps[Min(bad)].lo, ps[Min(bad)].hi)
            ELSE IF Useful(m, [j \in 1..Len(arms) |-> <<arms[j].p>>], <<0>>, <<t1>>) THEN FailAt(m, N(n).lo, N(n).lo)
            ELSE Then(Drop(m, 1), <<Do("arms", n, [sc |-> [j \in 1..Len(arms) |-> ps[j].sc], reach |-> Reach(m, t1, arms)])>>)
    [] d.o = "arm" -> LET a == N(n).arms[x[1]]
                          last == IF a.x # 0 THEN 0 ELSE IF a.b = <<>> THEN 0 ELSE Last(a.b)
                      IN Then([m EXCEPT !.yb = Append(@, [t |-> T("vazio"), ret |-> FALSE, last |-> last])],
                              <<Do("open", 0, x[2])>> \o (IF a.x # 0 THEN <<V(a.x), Do("yield", n, "")>> ELSE Each(a.b, V)) \o
                              <<Do("close", 0, ""), Do("yielded", n, a)>>)
    [] d.o = "yield" -> Drop([m EXCEPT !.yb[Len(m.yb)].t = t1], 1)
    [] d.o = "yielded" -> LET y == Last(m.yb)
                          IN IF y.t.k # "vazio" /\ y.ret THEN FailAt(m, x.lo, x.hi) ELSE Give([m EXCEPT !.yb = Front(@)], 0, y.t)
    [] d.o = "matched" -> [m EXCEPT !.nest = @ - 1, !.lax = n]
    [] d.o = "same" -> IF t1 = t2 THEN Drop(m, 1) ELSE Fail(m, n)
    \* Statements
    [] d.o = "cond" -> IF t1.k = "bool" THEN Drop(m, 1) ELSE FailAt(m, N(n).lo, N(x).hi)
    [] d.o = "range" -> IF \A j \in 1..x: Top(m, j).k = "int" THEN Drop(m, x) ELSE FailAt(m, N(n).lo, N(IF x = 3 THEN N(n).inc ELSE N(n).z).hi)
    [] d.o = "choice" -> IF t1.k \in {"int", "texto"} THEN m ELSE FailAt(m, N(n).lo, N(N(n).a).hi)
    [] d.o = "case" -> IF Fits(t2, t1) THEN Drop(m, 1) ELSE Fail(m, x)
    [] d.o = "returned" -> IF Fits(m.fn.rt, t1) THEN Drop(m, 1) ELSE Fail(m, n)
    [] d.o = "decl1" -> Declare(m, n, x, N(n).ty, 0)
    [] d.o = "declared" ->
         LET s == Own(m)[x] IN IF Fits(s.t, t1) THEN Define(Drop(m, 1), x, [s EXCEPT !.init = FALSE]) ELSE Fail(m, n)
    [] d.o = "regfield" ->
         LET f == N(n).fs[x[2]]
             t == TypeOf(m, f.ty)
         IN IF t = Nope \/ \E g \in Range(m.tys[x[1]].fs): g[1] = f.n THEN FailAt(m, f.lo, f.hi) ELSE [m EXCEPT !.tys[x[1]].fs = Append(@, <<f.n, t>>)]
    [] d.o = "univariant" ->
         LET v == N(n).vs[x[2]]
             ts == [j \in 1..Len(v.ts) |-> TypeOf(m, v.ts[j])]
         IN IF (\E j \in 1..Len(ts): ts[j] = Nope) \/ Len(ts) > 255 \/ \E g \in Range(m.tys[x[1]].vs): g[1] = v.n THEN FailAt(m, v.lo, v.hi)
            ELSE [m EXCEPT !.tys[x[1]].vs = Append(@, <<v.n, ts>>)]
    [] d.o = "leave" -> [m EXCEPT !.fn = Outside]
    [] d.o = "method" ->
         LET m2 == [m EXCEPT !.fn = Outside]
         IN IF x[1].k \in {"reg", "uni"} THEN [m2 EXCEPT !.tys[x[1].i].mets = (N(n).n :> x[2]) @@ @] ELSE [m2 EXCEPT !.pm[x[1].k] = (N(n).n :> x[2]) @@ @]
    [] d.o = "library" -> [m EXCEPT !.glob[m.an] = Lib @@ @]
    [] d.o = "loaded" -> Then([m EXCEPT !.mods[N(n).mod].st = "loaded", !.an = x[1], !.file = x[2]], IF N(n).mode = "all" THEN <<>> ELSE <<Do("import", n, "")>>)
    [] d.o = "import" -> Import(m, n)

-----------------------------------------------------------------------------
First_ == [st |-> "run", at |-> <<0, 0, 0>>, ag |-> Each(P[pid].mods[P[pid].main].items, V), ts |-> <<>>, sc |-> <<>>, glob |-> <<Start(1)>>, an |-> 1,
           file |-> P[pid].main, fn |-> Outside, loop |-> FALSE, yb |-> <<>>, nest |-> 0, lax |-> FALSE, tys |-> <<>>, pm |-> [x \in Prims |-> NoNames],
           mods |-> [f \in {-1} \cup 1..Len(P[pid].mods) |-> [st |-> IF f = P[pid].main THEN "loading" ELSE "new", an |-> 1]]]
Init == pid \in 1..Len(P) /\ M = First_

Choosing == M.st = "run" /\ M.ag # <<>> /\ M.ag[1].o = "arms"
RECURSIVE Many(_, _)
Many(m, k) == IF k = 0 \/ m.st # "run" \/ m.ag = <<>> THEN m ELSE IF m.ag[1].o = "arms" THEN m ELSE Many(Step(m), k - 1)
\* Any arm that can be reached may be examined first
ArmsFrom(m0, first) ==
  LET d == m0.ag[1]
      n == d.n
      m == [m0 EXCEPT !.ag = Tail(@)]
      arm(j) == Do("arm", n, <<j, d.x.sc[j]>>)
      others == SetToSortSeq(d.x.reach \ {first}, <)
      never == SetToSortSeq((1..Len(N(n).arms)) \ d.x.reach, <)
  IN Then(m, <<arm(first)>> \o FlattenSeq([j \in 1..Len(others) |-> <<arm(others[j]), Do("same", n, "")>>])
             \o FlattenSeq([j \in 1..Len(never) |-> <<arm(never[j]), Do("drop", n, "")>>]) \o <<Do("matched", m0.lax, ""), Do("close", 0, "")>>)
Running == M.st = "run" /\ M.ag # <<>> /\ ~Choosing /\ M' = Many(M, StepsPerTransition)
\* In matches within matches only the first is tried: the line of an error is
\* then left open (whether there is one does not depend on the order)
Matching == /\ Choosing
            /\ IF M.nest < 2 THEN \E j \in M.ag[1].x.reach: M' = [ArmsFrom(M, j) EXCEPT !.nest = @ + 1]
               ELSE M' = [ArmsFrom(M, Min(M.ag[1].x.reach)) EXCEPT !.nest = @ + 1, !.lax = @ \/ Cardinality(M.ag[1].x.reach) > 1]
Accepting == M.st = "run" /\ M.ag = <<>> /\ M' = [M EXCEPT !.st = "yes"]
Reporting == /\ M.st \in {"yes", "no"}
             /\ PrintT("@@" \o ToJson([p |-> P[pid].pid, st |-> M.st, at |-> M.at, lax |-> M.lax]))
             /\ M' = [st |-> "done"]
Next == (Running \/ Matching \/ Accepting \/ Reporting) /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars

\* Whatever is opened is closed again
Balanced == M.st = "yes" => M.ts = <<>> /\ M.sc = <<>> /\ M.yb = <<>> /\ ~M.loop /\ ~M.fn.on /\ M.an = 1
\* Names are defined once the program is accepted
NoneInitializing == M.st = "yes" => \A g \in 1..Len(M.glob): \A x \in DOMAIN M.glob[g]: M.glob[g][x].s = "var" => ~M.glob[g][x].init
=============================================================================
