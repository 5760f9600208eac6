------------------------------- MODULE Amanda -------------------------------
(* What a program of the language does: a machine over the program's syntax. *)
(*                                                                           *)
(* The state of a run is the frame being executed, the frames suspended      *)
(* below it, the heap (vectors and registos), the globals of every module,   *)
(* what has been written and what is left to read.  A frame owns its         *)
(* continuation (the items still to execute), the values already computed,   *)
(* its environment and the line it is at.  A step consumes one item.         *)
(*                                                                           *)
(* Programs come from a JSON file (IOEnv.PROGS): a table of syntax nodes     *)
(* that refer to each other by number, the functions and the modules in the  *)
(* order they run.  The outcome of every program is printed for the          *)
(* conformance harness, and TLC checks the invariants at the end on the way. *)
EXTENDS AmaValues, SequencesExt, Json, IOUtils, TLC, TLCExt

P == JsonDeserialize(IOEnv.PROGS)
CONSTANT StepsPerTransition

VARIABLES pid, S
vars == <<pid, S>>

\* Bindings: the last one of a name is the one in scope
RECURSIVE Find(_, _, _)
Find(e, n, k) == IF k = 0 THEN 0 ELSE IF e[k].n = n THEN k ELSE Find(e, n, k - 1)

-----------------------------------------------------------------------------
\* The machine.  Every operator takes the state and yields the next one.
Prog == P[pid]
Node(n) == Prog.nodes[n]
Stop(s, st) == [s EXCEPT !.st = st]
Go(s, items) == [s EXCEPT !.cur.c = @ \o Reverse(items)]      \* execute items, in order, next
Push(s, v) == [s EXCEPT !.cur.v = Append(@, v)]
Put(s, k, r) ==                     \* the result of an operation on the k topmost values
  IF r.t = "err" THEN [s EXCEPT !.st = "err", !.err = r]
  ELSE IF r.t = "foreign" THEN Stop(s, "foreign")
  ELSE [s EXCEPT !.cur.v = Append(Pop(@, k), r)]
Drop(s, k) == [s EXCEPT !.cur.v = Pop(@, k)]
Error(s, code, args) == [s EXCEPT !.st = "err", !.err = Fail(code, args)]
Write(s, v, nl) == IF ~Known(v, s.h) THEN Stop(s, "foreign")
                   ELSE [s EXCEPT !.out = @ \o Show(v, s.h) \o (IF nl THEN <<10>> ELSE <<>>)]

X(n) == [i |-> "x", n |-> n]
Op(n) == [i |-> "op", n |-> n]
Ph(i, n) == [i |-> i, n |-> n]
Seq_(l) == [i |-> "seq", l |-> l, p |-> 1]
Trunc(k) == [i |-> "trunc", k |-> k]
Block(s, l) == Go(s, <<Seq_(l), Trunc(Len(s.cur.e))>>)
Xs(l) == [k \in 1..Len(l) |-> X(l[k])]

\* Variables: of the frame, then of the module, then imported by name
HomeOf(s, n) == IF Find(s.g[s.cur.md], n, Len(s.g[s.cur.md])) > 0 THEN s.cur.md
                ELSE LET im == Prog.mods[s.cur.md].names
                         k == Find(im, n, Len(im))
                     IN im[k].md
Load(s, n) ==
  LET k == Find(s.cur.e, n, Len(s.cur.e))
  IN IF k > 0 THEN s.cur.e[k].v
     ELSE LET g == s.g[HomeOf(s, n)] IN g[Find(g, n, Len(g))].v
LoadFrom(s, md, n) == s.g[md][Find(s.g[md], n, Len(s.g[md]))].v
\* state with the variable set, and the value it got
Store(s, n, v) ==
  LET k == Find(s.cur.e, n, Len(s.cur.e))
  IN IF k > 0 THEN LET w == Coerce(v, s.cur.e[k].ty) IN <<[s EXCEPT !.cur.e[k].v = w], w>>
     ELSE LET md == s.cur.md
              j == Find(s.g[md], n, Len(s.g[md]))
              w == Coerce(v, s.g[md][j].ty)
          IN <<[s EXCEPT !.g[md][j].v = w], w>>
Declare(s, glob, n, ty, v) ==
  LET b == [n |-> n, ty |-> ty, v |-> v]
  IN IF glob THEN [s EXCEPT !.g[s.cur.md] = Append(@, b)] ELSE [s EXCEPT !.cur.e = Append(@, b)]

\* Calls
MaxFrames == 1000
Enter(s, key, args, self) ==
  IF Len(s.fs) + 1 >= MaxFrames THEN Error(s, ERec, <<>>)
  ELSE LET f == Prog.funcs[key]
           ps == [k \in 1..Len(f.ps) |-> [n |-> f.ps[k].n, ty |-> f.ps[k].ty, v |-> Coerce(args[k], f.ps[k].ty)]]
           e == (IF self = <<>> THEN <<>> ELSE <<[n |-> "alvo", ty |-> f.self, v |-> self[1]]>>) \o ps
       IN [s EXCEPT !.fs = Append(@, s.cur),
                    !.cur = [c |-> <<Seq_(f.body)>>, v |-> <<>>, e |-> e, fn |-> key, md |-> f.md, ln |-> f.ln]]
Leave(s, v) == [s EXCEPT !.cur = [Top(s.fs) EXCEPT !.v = Append(@, v)], !.fs = Pop(@, 1)]

\* Innermost loop of the frame
LoopAt(c) == CHOOSE k \in 1..Len(c): c[k].i = "lp" /\ \A j \in k+1..Len(c): c[j].i # "lp"
BreakTo(s) ==
  LET k == LoopAt(s.cur.c)
      L == s.cur.c[k]
  IN [s EXCEPT !.cur.c = Cut(@, k - 1), !.cur.e = Cut(@, L.k), !.cur.v = Cut(@, L.vl)]
ContinueTo(s) ==
  LET k == LoopAt(s.cur.c)
      L == s.cur.c[k]
  IN [s EXCEPT !.cur.c = Cut(@, k), !.cur.v = Cut(@, L.vl)]

\* Reading
NextLine(s) == IF s.inp = <<>> THEN <<>> ELSE s.inp[1]
Read(s) == [s EXCEPT !.inp = IF @ = <<>> THEN @ ELSE Tail(@)]

Builtin(s, N) ==
  LET k == Len(N.args)
      a == Last_(s.cur.v, k)
      f == N.f
  IN CASE f = "tam" -> Put(s, 1, I(IF a[1].t = "s" THEN Len(a[1].v) ELSE Len(s.h[a[1].a].el)))
       [] f = "anexa" -> Put([s EXCEPT !.h[a[1].a].el = Append(@, Coerce(a[2], s.h[a[1].a].ty))], 2, Nulo)
       [] f = "remova" ->
            LET el == s.h[a[1].a].el
                q == Position(a[2], Len(el), EVecNeg, EVecRange)
            IN IF q.t = "err" THEN Put(s, 2, q)
               ELSE Put([s EXCEPT !.h[a[1].a].el = RemoveAt(@, q.n + 1)], 2, el[q.n + 1])
       [] f = "txt_contem" ->
            Put(s, 2, Bo(\E j \in 0..(Len(a[1].v) - Len(a[2].v)): SubSeq(a[1].v, j + 1, j + Len(a[2].v)) = a[2].v))
       [] f \in {"escreva", "escrevaln"} ->
            LET w == Write(s, a[1], f = "escrevaln") IN IF w.st = "run" THEN Put(w, 1, Nulo) ELSE w
       [] f \in {"leia", "leia_int", "leia_real"} ->
            LET w == Read(Write(s, a[1], FALSE))
                l == NextLine(s)
                r == CASE f = "leia" -> Tx(l)
                       [] f = "leia_int" -> LET q == ParseInt(l) IN IF q.t = "none" THEN Fail(EReadInt, <<>>) ELSE q
                       [] f = "leia_real" -> LET q == ParseReal(l) IN IF q.t = "none" THEN Fail(EReadReal, <<>>) ELSE q
            IN Put(w, 1, r)
       [] OTHER -> Put(s, k, MathFn(f, a))

\* Evaluation of an expression begins
Eval(s, n) ==
  LET N == Node(n) IN
  CASE N.k = "lit" -> Push(s, N.v)
    [] N.k = "var" -> Push(s, Load(s, N.n))
    [] N.k = "gvar" -> Push(s, LoadFrom(s, N.md, N.n))
    [] N.k = "bin" -> Go(s, <<X(N.a), X(N.b), Op(n)>>)
    [] N.k = "un" -> Go(s, <<X(N.a), Op(n)>>)
    [] N.k \in {"call", "bc", "new", "varn", "vecn"} -> Go(s, Xs(N.args) \o <<Op(n)>>)
    [] N.k = "mcall" -> Go(s, <<X(N.a)>> \o Xs(N.args) \o <<Op(n)>>)
    [] N.k = "vecl" -> Go(s, Xs(N.args) \o <<Op(n)>>)
    [] N.k = "fstr" -> Go(s, Xs(N.args) \o <<Op(n)>>)
    [] N.k \in {"get", "cast", "ig"} -> Go(s, <<X(N.a), Op(n)>>)
    [] N.k = "idx" -> Go(s, <<X(N.a), X(N.b), Op(n)>>)
    [] N.k = "unw" -> Go(s, (IF N.d = 0 THEN <<X(N.a)>> ELSE <<X(N.a), X(N.d)>>) \o <<Op(n)>>)
    [] N.k = "asg" ->
         LET L == Node(N.l) IN
         Go(s, (CASE L.k = "var" -> <<>> [] L.k = "get" -> <<X(L.a)>> [] L.k = "idx" -> <<X(L.a), X(L.b)>>)
               \o <<X(N.a), Op(n)>>)

RECURSIVE Concat(_, _, _)
Concat(vs, k, h) == IF k > Len(vs) THEN <<>> ELSE Show(vs[k], h) \o Concat(vs, k + 1, h)

\* The operands of expression n are on top of the values
Apply(s0, n) ==
  LET N == Node(n)
      s == [s0 EXCEPT !.cur.ln = N.ln]
      v == s.cur.v
  IN
  CASE N.k = "bin" -> Put(s, 2, Binary(N.op, v[Len(v) - 1], Top(v)))
    [] N.k = "un" -> Put(s, 1, Unary(N.op, Top(v)))
    [] N.k = "call" -> LET k == Len(N.args) IN Enter(Drop(s, k), N.f, Last_(v, k), <<>>)
    [] N.k = "mcall" ->
         LET k == Len(N.args) IN Enter(Drop(s, k + 1), N.f, Last_(v, k), <<v[Len(v) - k]>>)
    [] N.k = "bc" -> Builtin(s, N)
    [] N.k = "new" ->
         LET k == Len(N.args)
             a == Last_(v, k)
             at(f) == CHOOSE j \in 1..k: N.fs[j] = f
             obj == [id |-> N.id, name |-> N.name,
                     f |-> [j \in 1..Len(N.decl) |-> [n |-> N.decl[j].n, ty |-> N.decl[j].ty,
                                                      v |-> Coerce(a[at(N.decl[j].n)], N.decl[j].ty)]]]
         IN Put([s EXCEPT !.h = Append(@, obj)], k, Ob(Len(s.h) + 1))
    [] N.k = "varn" ->
         LET k == Len(N.args)
             a == Last_(v, k)
         IN Put(s, k, Un(N.tag, [j \in 1..k |-> Coerce(a[j], N.tys[j])]))
    [] N.k = "vecl" ->
         LET k == Len(N.args)
             a == Last_(v, k)
         IN Put([s EXCEPT !.h = Append(@, [ty |-> N.ty, el |-> [j \in 1..k |-> Coerce(a[j], N.ty)]])], k, Vc(Len(s.h) + 1))
    [] N.k = "vecn" ->
         LET k == Len(N.args)
             a == Last_(v, k)
         IN IF \E j \in 1..k: Sgn(a[j]) < 0 THEN Error(s, EDims, <<>>)
            ELSE IF \E j \in 1..k: a[j].t = "I" \/ a[j].n > 300 THEN Stop(s, "foreign")
            ELSE LET w == NewVec(s.h, N.ty, [j \in 1..k |-> a[j].n], 1)
                 IN Put([s EXCEPT !.h = w[1]], k, Vc(w[2]))
    [] N.k = "fstr" ->
         LET k == Len(N.args)
             a == Last_(v, k)
         IN IF \E j \in 1..k: ~Known(a[j], s.h) THEN Stop(s, "foreign")
            ELSE Put(s, k, Tx(Concat(a, 1, s.h)))
    [] N.k = "get" -> LET o == s.h[Top(v).a] IN Put(s, 1, o.f[Find(o.f, N.n, Len(o.f))].v)
    [] N.k = "cast" -> Put(s, 1, Convert(Top(v), N.ty, N.fi, s.h))
    [] N.k = "idx" ->
         LET o == v[Len(v) - 1]
             txt == o.t = "s"
             el == IF txt THEN o.v ELSE s.h[o.a].el
             q == IF txt THEN Position(Top(v), Len(el), EStrNeg, EStrRange)
                  ELSE Position(Top(v), Len(el), EVecNeg, EVecRange)
         IN Put(s, 2, IF q.t = "err" THEN q ELSE IF txt THEN Tx(<<el[q.n + 1]>>) ELSE el[q.n + 1])
    [] N.k = "unw" ->
         LET o == IF N.d = 0 THEN Top(v) ELSE v[Len(v) - 1]
             k == IF N.d = 0 THEN 1 ELSE 2
         IN Put(s, k, IF o.t # "n" THEN o ELSE IF N.d = 0 THEN Fail(ENull, <<>>) ELSE Coerce(Top(v), N.ty))
    [] N.k = "ig" ->
         LET m == FirstArm(N.arms, Top(v), 1)
             d == Drop(s, 1)
             arm == N.arms[m.arm]
             w == [d EXCEPT !.cur.e = @ \o m.b]
         IN Go(w, (IF arm.x # 0 THEN <<X(arm.x)>> ELSE <<Seq_(arm.body)>>)
                  \o <<Trunc(Len(d.cur.e))>> \o (IF N.void THEN <<[i |-> "null"]>> ELSE <<>>))
    [] N.k = "asg" ->
         LET L == Node(N.l)
             x == Top(v)
         IN CASE L.k = "var" -> LET w == Store(s, L.n, x) IN Put(w[1], 1, w[2])
              [] L.k = "get" -> LET o == v[Len(v) - 1].a
                                    j == Find(s.h[o].f, L.n, Len(s.h[o].f))
                                    w == Coerce(x, s.h[o].f[j].ty)
                                IN Put([s EXCEPT !.h[o].f[j].v = w], 2, w)
              [] L.k = "idx" -> LET o == v[Len(v) - 2].a
                                    q == Position(v[Len(v) - 1], Len(s.h[o].el), EVecNeg, EVecRange)
                                    w == Coerce(x, s.h[o].ty)
                                IN IF q.t = "err" THEN Put(s, 3, q)
                                   ELSE Put([s EXCEPT !.h[o].el[q.n + 1] = w], 3, w)

\* A statement begins
Exec(s0, n) ==
  LET N == Node(n)
      s == [s0 EXCEPT !.cur.ln = N.ln]
  IN
  CASE N.k = "decl" -> IF N.a = 0 THEN Declare(s, N.g, N.n, N.ty, Default(N.ty)) ELSE Go(s, <<X(N.a), Ph("set", n)>>)
    [] N.k = "decls" -> FoldLeft(LAMBDA acc, m: Declare(acc, N.g, m, N.ty, Default(N.ty)), s, N.ns)
    [] N.k = "expr" -> Go(s, <<X(N.a), Ph("drop", n)>>)
    [] N.k = "mostra" -> Go(s, <<X(N.a), Ph("show", n)>>)
    [] N.k = "se" -> Go(s, <<X(N.cs[1].c), [i |-> "sec", n |-> n, j |-> 1]>>)
    [] N.k = "enq" -> Go(s, <<[i |-> "lp", n |-> n, k |-> Len(s.cur.e), vl |-> Len(s.cur.v), ph |-> "cond"]>>)
    [] N.k = "para" -> Go(s, <<X(N.a), Ph("pinit", n)>>)
    [] N.k = "esc" -> Go(s, <<X(N.a), [i |-> "esc", n |-> n, j |-> 1, ph |-> "next"]>>)
    [] N.k = "seig" -> Go(s, <<X(N.a), Ph("seig", n)>>)
    [] N.k = "ret" -> IF N.a = 0 THEN Leave(s, Nulo) ELSE Go(s, <<X(N.a), Ph("ret", n)>>)
    [] N.k = "prod" -> Go(s, <<X(N.a)>>)
    [] N.k = "quebra" -> BreakTo(s)
    [] N.k = "continua" -> ContinueTo(s)

Loop(s, it) ==
  LET N == Node(it.n) IN
  IF N.k = "enq"
  THEN Go([s EXCEPT !.cur.e = Cut(@, it.k), !.cur.c = Append(@, it), !.cur.ln = N.ln], <<X(N.c), Ph("enqc", it.n)>>)
  ELSE \* the loop variable is not in scope in the limits of the loop
       LET t == [s EXCEPT !.cur.e = [Cut(@, it.k + 1) EXCEPT ![it.k + 1].n = ""], !.cur.ln = N.ln] IN
       IF it.ph = "cond"
       THEN Go([t EXCEPT !.cur.c = Append(@, [it EXCEPT !.ph = "step"])], <<X(N.z), Ph("parac", it.n)>>)
       ELSE Go([t EXCEPT !.cur.c = Append(@, [it EXCEPT !.ph = "cond"])],
               IF N.inc = 0 THEN <<Ph("paraone", it.n)>> ELSE <<X(N.inc), Ph("paraup", it.n)>>)

ParaVar(s) == LET k == LoopAt(s.cur.c) IN s.cur.c[k].k + 1
InScope(s, n) == [s EXCEPT !.cur.e[ParaVar(s)].n = n]
Advance(s, by) ==
  LET k == ParaVar(s)
      r == AddInt(s.cur.e[k].v, by)
  IN IF r.t = "ovf" THEN Error(s, EOver, <<>>) ELSE [s EXCEPT !.cur.e[k].v = r]

Step(s0) ==
  IF s0.cur.c = <<>>
  THEN IF s0.fs # <<>> THEN Leave(s0, Nulo)
       ELSE IF s0.mi = Len(Prog.order) THEN Stop(s0, "ok")
       ELSE LET m == Prog.order[s0.mi + 1]
            IN [s0 EXCEPT !.mi = @ + 1,
                          !.cur = [c |-> <<Seq_(Prog.mods[m].body)>>, v |-> <<>>, e |-> <<>>, fn |-> "", md |-> m, ln |-> 0]]
  ELSE
  LET it == Top(s0.cur.c)
      s == [s0 EXCEPT !.cur.c = Pop(@, 1)]
      v == s.cur.v
  IN
  CASE it.i = "x" -> Eval(s, it.n)
    [] it.i = "op" -> Apply(s, it.n)
    [] it.i = "seq" ->
         IF it.p > Len(it.l) THEN s
         ELSE Exec([s EXCEPT !.cur.c = IF it.p = Len(it.l) THEN @ ELSE Append(@, [it EXCEPT !.p = @ + 1])], it.l[it.p])
    [] it.i = "trunc" -> [s EXCEPT !.cur.e = Cut(@, it.k)]
    [] it.i = "null" -> Push(s, Nulo)
    [] it.i = "drop" -> Drop(s, 1)
    [] it.i = "show" -> Write(Drop([s EXCEPT !.cur.ln = Node(it.n).ln], 1), Top(v), TRUE)
    [] it.i = "set" -> LET N == Node(it.n) IN Declare(Drop(s, 1), N.g, N.n, N.ty, Coerce(Top(v), N.ty))
    [] it.i = "sec" ->
         LET N == Node(it.n)
             d == Drop(s, 1)
         IN IF Top(v).v THEN Block(d, N.cs[it.j].b)
            ELSE IF it.j < Len(N.cs) THEN Go(d, <<X(N.cs[it.j + 1].c), [it EXCEPT !.j = @ + 1]>>)
            ELSE Block(d, N.el)
    [] it.i = "lp" -> Loop(s, it)
    [] it.i = "enqc" ->
         LET d == Drop(s, 1) IN
         IF Top(v).v THEN Block(d, Node(it.n).b) ELSE BreakTo(d)
    [] it.i = "pinit" ->
         LET N == Node(it.n)
             d == Drop(s, 1)
         IN Go(Declare(d, FALSE, N.n, [k |-> "int"], Top(v)),
               <<[i |-> "lp", n |-> it.n, k |-> Len(d.cur.e), vl |-> Len(d.cur.v), ph |-> "cond"]>>)
    [] it.i = "parac" ->
         LET d == Drop(s, 1) IN
         IF CmpInt(s.cur.e[ParaVar(s)].v, Top(v)) < 0 THEN Go(InScope(d, Node(it.n).n), <<Seq_(Node(it.n).b)>>) ELSE BreakTo(d)
    [] it.i = "paraone" -> Advance([s EXCEPT !.cur.ln = Node(it.n).ln], I(1))
    [] it.i = "paraup" -> Advance([Drop(s, 1) EXCEPT !.cur.ln = Node(it.n).ln], Top(v))
    [] it.i = "esc" ->
         LET N == Node(it.n) IN
         IF it.ph = "next"
         THEN IF it.j > Len(N.cs) THEN Block(Drop(s, 1), N.el)
              ELSE Go(s, <<X(N.cs[it.j].c), [it EXCEPT !.ph = "test"]>>)
         ELSE LET d == Drop(s, 1) IN
              IF Equal(v[Len(v) - 1], Top(v)) THEN Block(Drop(d, 1), N.cs[it.j].b)
              ELSE Go(d, <<[it EXCEPT !.ph = "next", !.j = @ + 1]>>)
    [] it.i = "seig" ->
         LET N == Node(it.n)
             d == Drop(s, 1)
             m == Matches(N.p, Top(v))
         IN IF ~m.ok THEN Block(d, N.el)
            ELSE Go([d EXCEPT !.cur.e = @ \o m.b], <<Seq_(N.b), Trunc(Len(d.cur.e))>>)
    [] it.i = "ret" -> Leave(s, Coerce(Top(v), Prog.funcs[s.cur.fn].rt))

RECURSIVE Run(_, _)
Run(s, k) == IF k = 0 \/ s.st # "run" THEN s ELSE Run(Step(s), k - 1)

-----------------------------------------------------------------------------
NoFrame == [c |-> <<>>, v |-> <<>>, e |-> <<>>, fn |-> "", md |-> "", ln |-> 0]
Start(p) == [st |-> "run", cur |-> NoFrame, fs |-> <<>>, h |-> <<>>,
             g |-> [m \in DOMAIN P[p].mods |-> <<>>], out |-> <<>>,
             err |-> Fail(0, <<>>), inp |-> P[p].inp, mi |-> 0, n |-> 0]

\* The frames of an error, innermost first; the module level has no name
Flow(s) == LET f == Append(s.fs, s.cur)
           IN [k \in 1..Len(f) |-> <<f[Len(f) + 1 - k].ln, f[Len(f) + 1 - k].fn>>]
MaxSteps == 60000
Report(s) ==
  PrintT("@@" \o ToJson([p |-> P[pid].pid, st |-> s.st, code |-> s.err.code, args |-> s.err.args,
                         flow |-> IF s.st = "err" THEN Flow(s) ELSE <<>>, out |-> s.out, n |-> s.n]))

Init == /\ pid \in 1..Len(P)
        /\ S = Start(pid)
Running == /\ S.st = "run"
           /\ S' = LET r == [Run(S, StepsPerTransition) EXCEPT !.n = @ + StepsPerTransition]
                   IN IF r.st = "run" /\ r.n > MaxSteps THEN Stop(r, "long") ELSE r
Reporting == /\ S.st \notin {"run", "done"}
             /\ Report(S)
             /\ S' = Stop(Start(pid), "done")
Next == (Running \/ Reporting) /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What holds in every state of every run *)
Frames(s) == Append(s.fs, s.cur)
\* Every variable, field and element holds a value of its declared type
WellTyped ==
  S.st \in {"run", "ok", "err"} =>
  /\ \A k \in 1..Len(S.fs) + 1:
       LET e == Frames(S)[k].e IN \A j \in 1..Len(e): Has(e[j].v, e[j].ty, S.h)
  /\ \A m \in DOMAIN S.g: \A j \in 1..Len(S.g[m]): Has(S.g[m][j].v, S.g[m][j].ty, S.h)
  /\ \A a \in 1..Len(S.h):
       IF "el" \in DOMAIN S.h[a]
       THEN \A j \in 1..Len(S.h[a].el): Has(S.h[a].el[j], S.h[a].ty, S.h)
       ELSE \A j \in 1..Len(S.h[a].f): Has(S.h[a].f[j].v, S.h[a].f[j].ty, S.h)
\* Never more frames than the machine allows
Bounded == Len(S.fs) < MaxFrames
\* A module leaves neither values nor variables of its blocks behind
Tidy == S.st = "ok" => S.cur.v = <<>> /\ S.cur.e = <<>>
=============================================================================
