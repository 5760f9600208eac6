------------------------------ MODULE AmaValues ------------------------------
(* The values of the language, what their text is, and what the operators,   *)
(* conversions, indices and patterns yield.  A heap is a sequence: vectors   *)
(* have elements el, objects a name.                                         *)
EXTENDS AmaMath

-----------------------------------------------------------------------------
\* Values
Bo(b) == [t |-> "b", v |-> b]
Tx(s) == [t |-> "s", v |-> s]
Nulo == [t |-> "n"]
Vc(a) == [t |-> "v", a |-> a]
Ob(a) == [t |-> "o", a |-> a]
Un(tag, args) == [t |-> "u", tag |-> tag, args |-> args]
IsNum(v) == IsInt(v) \/ IsReal(v)

Verdadeiro == <<118, 101, 114, 100, 97, 100, 101, 105, 114, 111>>
Falso == <<102, 97, 108, 115, 111>>
NuloTxt == <<110, 117, 108, 111>>
InstanciaDe == <<60, 73, 110, 115, 116, 226, 110, 99, 105, 97, 32, 100, 111, 32, 116, 105, 112, 111, 32>>
VarianteDe == <<60, 86, 97, 114, 105, 97, 110, 116, 101, 40>>

\* Sequences used as stacks; the top is the last element
Top(s) == s[Len(s)]
Pop(s, k) == SubSeq(s, 1, Len(s) - k)
Cut(s, k) == SubSeq(s, 1, k)
Last_(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))

\* Is there a real the specification does not know in what gets printed?
RECURSIVE KnownIn(_, _, _)
KnownIn(v, h, open) ==
  CASE v.t = "rx" -> FALSE
    [] v.t = "v" -> v.a \in open \/ \A k \in 1..Len(h[v.a].el): KnownIn(h[v.a].el[k], h, open \union {v.a})
    [] OTHER -> TRUE
Known(v, h) == KnownIn(v, h, {})

\* The text of a value
\* A vector inside itself (it is one of those that are open) is [...]
RECURSIVE ShowIn(_, _, _)
RECURSIVE ShowAll(_, _, _, _)
ShowAll(el, k, h, open) ==
  IF k > Len(el) THEN <<>>
  ELSE (IF k > 1 THEN <<44, 32>> ELSE <<>>) \o ShowIn(el[k], h, open) \o ShowAll(el, k + 1, h, open)
ShowIn(v, h, open) ==
  CASE v.t = "i" \/ v.t = "I" -> ShowInt(v)
    [] v.t \in {"r", "R"} -> ShowReal(v)
    [] v.t = "b" -> IF v.v THEN Verdadeiro ELSE Falso
    [] v.t = "s" -> v.v
    [] v.t = "n" -> NuloTxt
    [] v.t = "v" -> IF v.a \in open THEN <<91, 46, 46, 46, 93>>
                    ELSE <<91>> \o ShowAll(h[v.a].el, 1, h, open \union {v.a}) \o <<93>>
    [] v.t = "o" -> InstanciaDe \o h[v.a].name \o <<62>>
    [] v.t = "u" -> VarianteDe \o Digits(v.tag) \o <<41, 62>>
Show(v, h) == ShowIn(v, h, {})

\* A value stored where a value of type ty is expected
RECURSIVE Coerce(_, _)
Coerce(v, ty) ==
  CASE ty.k = "real" -> IF IsInt(v) THEN ToReal(v) ELSE v
    [] ty.k = "opt" -> IF v.t = "n" THEN v ELSE Coerce(v, ty.e)
    [] OTHER -> v

Default(ty) ==
  CASE ty.k = "int" -> I(0)
    [] ty.k = "real" -> R(0)
    [] ty.k = "bool" -> Bo(FALSE)
    [] ty.k = "texto" -> Tx(<<>>)
    [] OTHER -> Nulo

\* Does a value belong to a type?
RECURSIVE Has(_, _, _)
Has(v, ty, h) ==
  CASE ty.k = "int" -> IsInt(v)
    [] ty.k = "real" -> IsReal(v)
    [] ty.k = "bool" -> v.t = "b"
    [] ty.k = "texto" -> v.t = "s"
    [] ty.k = "opt" -> v.t = "n" \/ Has(v, ty.e, h)
    [] ty.k = "vec" -> v.t = "v" /\ h[v.a].ty = ty.e
    [] ty.k = "reg" -> v.t = "o" /\ h[v.a].id = ty.id
    [] ty.k = "uni" -> v.t = "u"
    [] ty.k = "indef" -> v.t # "none"
    [] OTHER -> TRUE

\* Equality; values of different kinds are different
Equal(a, b) ==
  IF IsInt(a) /\ IsInt(b) THEN CmpInt(a, b) = 0
  ELSE IF IsNum(a) /\ IsNum(b) THEN CmpR(ToReal(a), ToReal(b)) = 0
  ELSE IF a.t # b.t THEN FALSE
  ELSE CASE a.t \in {"b", "s"} -> a.v = b.v
         [] a.t = "n" -> TRUE
         [] a.t \in {"v", "o"} -> a.a = b.a
         [] OTHER -> FALSE
\* Comparisons that involve a real the specification does not know
Unknown(a, b) == /\ IsNum(a) /\ IsNum(b) /\ (IsReal(a) \/ IsReal(b))
                 /\ ~CmpOk(ToReal(a), ToReal(b))

\* The kind of a value, as conversions name it
Kind(v) ==
  CASE IsInt(v) -> "int" [] IsReal(v) -> "real" [] v.t = "b" -> "bool" [] v.t = "s" -> "texto"
    [] v.t = "n" -> "nulo" [] v.t = "v" -> "Vector" [] v.t = "o" -> "Registo" [] v.t = "u" -> "Uniao"

-----------------------------------------------------------------------------
\* Runtime errors: code and what its message mentions
EOver == 1  EDiv == 2  EMod == 3  EVecNeg == 4  EVecRange == 5  EStrNeg == 6  EStrRange == 7
ENull == 8  ERec == 9  EParseInt == 10  EParseReal == 11  ECast == 12  EReadInt == 13  EReadReal == 14
EDims == 15
Fail(code, args) == [t |-> "err", code |-> code, args |-> args]
IsV(x) == x.t # "err" /\ x.t # "foreign"

IntOp(op, a, b) ==
  IF op \in {"//", "%"} /\ Sgn(b) = 0 THEN Fail(IF op = "%" THEN EMod ELSE EDiv, <<>>)
  ELSE LET r == CASE op = "+" -> AddInt(a, b) [] op = "-" -> SubInt(a, b) [] op = "*" -> MulInt(a, b)
                  [] op = "//" -> QuoInt(a, b) [] op = "%" -> RemInt(a, b)
       IN IF r.t = "ovf" THEN Fail(EOver, <<>>) ELSE r
RealOp(op, a, b) ==
  IF op \in {"/", "//", "%"} /\ ~NoZero(b) THEN Strange
  ELSE IF op \in {"/", "//", "%"} /\ IsZeroR(b) THEN Fail(IF op = "%" THEN EMod ELSE EDiv, <<>>)
  ELSE CASE op = "+" -> AddR(a, b) [] op = "-" -> SubR(a, b) [] op = "*" -> MulR(a, b)
         [] op = "/" -> DivR(a, b) [] op = "//" -> QuoR(a, b) [] op = "%" -> RemR(a, b)
Arith(op, a, b) == IF IsInt(a) /\ IsInt(b) /\ op # "/" THEN IntOp(op, a, b)
                   ELSE RealOp(op, ToReal(a), ToReal(b))
Order(op, a, b) ==
  LET c == IF IsInt(a) /\ IsInt(b) THEN CmpInt(a, b) ELSE CmpR(ToReal(a), ToReal(b))
  IN CASE op = "<" -> c = -1 [] op = "<=" -> c \in {-1, 0} [] op = ">" -> c = 1 [] op = ">=" -> c \in {0, 1}
Binary(op, a, b) ==
  CASE op \in {"+", "-", "*", "/", "//", "%"} -> Arith(op, a, b)
    [] op \in {"==", "!="} -> IF Unknown(a, b) THEN Strange ELSE Bo(Equal(a, b) = (op = "=="))
    [] op \in {"<", "<=", ">", ">="} -> IF Unknown(a, b) THEN Strange ELSE Bo(Order(op, a, b))
    [] op = "e" -> Bo(a.v /\ b.v)
    [] op = "ou" -> Bo(a.v \/ b.v)
Unary(op, a) ==
  CASE op = "nao" -> Bo(~a.v)
    [] op = "+" -> a
    [] op = "-" -> IF IsReal(a) THEN NegR(a)
                   ELSE LET r == NegInt(a) IN IF r.t = "ovf" THEN Fail(EOver, <<>>) ELSE r

\* Explicit conversions (v:>ty); only an indef is checked when it runs
RECURSIVE Convert(_, _, _, _)
Convert(v, ty, fromIndef, h) ==
  CASE ty.k = "opt" -> IF v.t # "n" THEN Convert(v, ty.e, fromIndef, h) ELSE IF fromIndef THEN Strange ELSE v
    [] fromIndef -> IF ty.k = "indef" \/ Kind(v) = ty.k THEN v ELSE Fail(ECast, <<Kind(v), ty.k>>)
    [] ty.k = "texto" -> IF ~Known(v, h) THEN Strange ELSE Tx(Show(v, h))
    [] ty.k = "int" -> (CASE IsInt(v) -> v
                          [] IsReal(v) -> LET n == IntR(v, "trunc") IN IF n.t = "none" THEN Strange ELSE n
                          [] v.t = "s" -> LET r == ParseInt(v.v)
                                          IN IF r.t = "none" THEN Fail(EParseInt, <<v.v>>) ELSE r)
    [] ty.k = "real" -> (CASE IsNum(v) -> ToReal(v)
                           [] v.t = "s" -> LET r == ParseReal(v.v)
                                           IN IF r.t = "none" THEN Fail(EParseReal, <<v.v>>) ELSE r)
    [] ty.k = "bool" -> (CASE v.t = "b" -> v
                           [] IsInt(v) -> Bo(Sgn(v) # 0)
                           [] v.t = "rx" -> IF NoZero(v) THEN Bo(TRUE) ELSE Strange
                           [] v.t \in {"r", "R"} -> Bo(~IsZeroR(v))
                           [] v.t = "s" -> Bo(v.v # <<>>))
    [] OTHER -> v

\* The vector or text position an int denotes, or the error
Position(i, n, neg, range) ==
  IF Sgn(i) < 0 THEN Fail(neg, <<>>)
  ELSE IF i.t = "I" \/ i.n >= n THEN Fail(range, <<Digits(n), ShowInt(i)>>)
  ELSE i

\* Pattern matching: the bindings (name, type, value) of the first match, or none
NoMatch == [ok |-> FALSE, b |-> <<>>]
Fits_(b) == [ok |-> TRUE, b |-> b]
RECURSIVE Matches(_, _)
RECURSIVE MatchArgs(_, _, _)
MatchArgs(ps, args, k) ==
  IF k > Len(ps) THEN Fits_(<<>>)
  ELSE LET m == Matches(ps[k], args[k]) IN
       IF ~m.ok THEN NoMatch
       ELSE LET r == MatchArgs(ps, args, k + 1) IN IF r.ok THEN Fits_(m.b \o r.b) ELSE NoMatch
Matches(p, v) ==
  CASE p.k = "any" -> Fits_(IF p.n = "_" THEN <<>> ELSE <<[n |-> p.n, ty |-> p.ty, v |-> v]>>)
    [] p.k = "lit" -> IF Equal(p.v, v) THEN Fits_(<<>>) ELSE NoMatch
    [] p.k = "adt" -> IF v.tag # p.tag THEN NoMatch ELSE MatchArgs(p.subs, v.args, 1)
RECURSIVE FirstArm(_, _, _)
FirstArm(arms, v, k) ==
  IF k > Len(arms) THEN [arm |-> 0, b |-> <<>>]
  ELSE LET m == Matches(arms[k].p, v)
       IN IF m.ok THEN [arm |-> k, b |-> m.b] ELSE FirstArm(arms, v, k + 1)

-----------------------------------------------------------------------------
\* The nested vectors that vec(ty, d1, d2, ...) creates
RECURSIVE NewVec(_, _, _, _)
RECURSIVE NewRows(_, _, _, _, _)
NewRows(h, ty, dims, k, n) ==       \* <<heap, rows>>
  IF n = 0 THEN <<h, <<>>>>
  ELSE LET one == NewVec(h, ty, dims, k)
           rest == NewRows(one[1], ty, dims, k, n - 1)
       IN <<rest[1], <<Vc(one[2])>> \o rest[2]>>
RECURSIVE VecOf(_, _)
VecOf(ty, k) == IF k = 0 THEN ty ELSE [k |-> "vec", e |-> VecOf(ty, k - 1)]
NewVec(h, ty, dims, k) ==           \* <<heap, address>>
  IF k = Len(dims)
  THEN LET el == [j \in 1..dims[k] |-> Default(ty)]
       IN <<Append(h, [ty |-> ty, el |-> el]), Len(h) + 1>>
  ELSE LET rows == NewRows(h, ty, dims, k + 1, dims[k])
       IN <<Append(rows[1], [ty |-> VecOf(ty, Len(dims) - k), el |-> rows[2]]), Len(rows[1]) + 1>>

=============================================================================
