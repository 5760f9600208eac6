------------------------------ MODULE AmaMath --------------------------------
(* The functions of the module mat.  Those whose results IEEE 754 fixes give *)
(* a double; a transcendental function gives the interval in which its       *)
(* result must lie: its series, in fixed point with 40 decimal places,       *)
(* widened by 2^-48 of its size, which leaves every library room to round.   *)
EXTENDS AmaReal

\* Fixed point: a sign and a magnitude in units of 10^-40
Places == 10
One == [j \in 1..Places |-> 0] \o <<1>>
FPi == <<1971, 2884, 7950, 3832, 2643, 3846, 7932, 3589, 9265, 1415, 3>>
FLn2 == <<755, 6568, 5817, 1214, 7232, 941, 9453, 559, 4718, 6931>>
FHalfPi == Trim(Half2(FPi))
FMul(a, b) == LET p == MulMag(a, b) IN IF Len(p) <= Places THEN <<>> ELSE SubSeq(p, Places + 1, Len(p))
FDiv(a, b) == Trim(QuoMag([j \in 1..Places |-> 0] \o a, b)[1])
RECURSIVE OverFrom(_, _, _, _)
OverFrom(a, n, k, r) ==             \* a \div n, for n < 10^5
  IF k = 0 THEN <<>> ELSE LET c == r * Base + a[k] IN OverFrom(a, n, k - 1, c % n) \o <<c \div n>>
Over(a, n) == Trim(OverFrom(a, n, Len(a), 0))
FixedOf(x) ==                       \* of a double that is a number
  IF x.e >= 0 THEN [j \in 1..Places |-> 0] \o Shl(x.m, x.e)
  ELSE Trim(ShrQR([j \in 1..Places |-> 0] \o x.m, -x.e)[1])
\* signed sums
Sum(a, b) ==
  IF a[1] = b[1] THEN <<a[1], AddMag(a[2], b[2])>>
  ELSE IF CmpMag(a[2], b[2]) >= 0 THEN <<a[1], SubMag(a[2], b[2])>> ELSE <<b[1], SubMag(b[2], a[2])>>

\* r - r^3/3! + ... and 1 - r^2/2! + ...: the terms from r^k/k! = t on
RECURSIVE Taylor(_, _, _, _)
Taylor(t, r2, k, s) == IF t = <<>> THEN <<1, <<>>>> ELSE Sum(<<s, t>>, Taylor(Over(FMul(t, r2), (k + 1) * (k + 2)), r2, k + 2, -s))
FSin(r) == Taylor(r, FMul(r, r), 1, 1)
FCos(r) == Taylor(One, FMul(r, r), 0, 1)
RECURSIVE ExpTerms(_, _, _)
ExpTerms(t, r, k) == IF t = <<>> THEN <<>> ELSE AddMag(t, ExpTerms(Over(FMul(t, r), k + 1), r, k + 1))
RECURSIVE AtanhTerms(_, _, _)
AtanhTerms(p, u2, k) == IF p = <<>> THEN <<>> ELSE AddMag(Over(p, k), AtanhTerms(FMul(p, u2), u2, k + 2))
\* The natural logarithm of a positive double, signed
FLn(x) ==
  LET b == Bits(x.m)
      k == b + x.e - 1
      t == FixedOf(NumB(1, x.m, 1 - b))
      u == FDiv(SubMag(t, One), AddMag(t, One))
      l == Scale(AtanhTerms(u, FMul(u, u), 1), 2)
  IN Sum(<<IF k < 0 THEN -1 ELSE 1, Scale(FLn2, Abs(k))>>, <<1, Trim(l)>>)

-----------------------------------------------------------------------------
\* The interval around the signed fixed point value a times 2^k
Slack == QuotB(1, <<1>>, Mag10(28), 0)
Around(d, abs) == LET w == AddB(MulB([d EXCEPT !.s = 1], NumB(1, <<1>>, -48)), IF abs THEN Slack ELSE ZeroB(1)) IN Between(SubB(d, w), AddB(d, w))
About(a, k, abs) == Around(IF a[2] = <<>> THEN ZeroB(1) ELSE QuotB(a[1], a[2], One, k), abs)
\* <<sine, cosine>> of a double that is a number of at most 2^40
SinCos(x) ==
  LET q == QuoMag(FixedOf(x), FHalfPi)
      k == LET m == Trim(q[1]) IN IF m = <<>> THEN 0 ELSE m[1] % 4
      r == Trim(q[2])
      s == FSin(r)
      c == FCos(r)
      neg(v) == <<-v[1], v[2]>>
      sin == CASE k = 0 -> s [] k = 1 -> c [] k = 2 -> neg(s) [] OTHER -> neg(c)
      cos == CASE k = 0 -> c [] k = 1 -> neg(s) [] k = 2 -> neg(c) [] OTHER -> s
  IN <<IF x.s < 0 THEN neg(sin) ELSE sin, cos>>
Trig(f, x) ==
  CASE x.k \in {"nan", "inf"} -> OfB(NanB)
    [] x.k = "zero" -> IF f = "cos" THEN R(1) ELSE OfB(x)
    [] TopBit(x.m, x.e) > 40 \/ TopBit(x.m, x.e) < -60 -> Foreign
    [] OTHER -> LET sc == SinCos(x) IN
                CASE f = "sen" -> About(sc[1], 0, TRUE)
                  [] f = "cos" -> About(sc[2], 0, TRUE)
                  [] OTHER -> IF Len(sc[2][2]) < 7 THEN Foreign ELSE About(<<sc[1][1] * sc[2][1], FDiv(sc[1][2], sc[2][2])>>, 0, TRUE)
\* Degrees and radians: x times a / b
Turned(x, a, b) ==
  CASE x.k \in {"nan", "inf"} -> OfB(x)
    [] x.k = "zero" -> OfB(x)
    [] TopBit(x.m, x.e) > 900 \/ TopBit(x.m, x.e) < -900 -> Foreign
    [] OTHER -> Around(DivB(MulB(x, a), b), FALSE)
Num180 == NumB(1, <<180>>, 0)
\* The logarithm of x in the base y, the quotient of natural logarithms
Whole1(x) == x.k = "num" /\ CmpB(x, NumB(1, <<1>>, 0)) = 0
Ln(x) ==                            \* x not negative
  CASE x.k = "zero" -> OfB(InfB(-1))
    [] x.k = "inf" -> OfB(x)
    [] Whole1(x) -> R(0)
    [] OTHER -> About(FLn(x), 0, TRUE)
Log(x, y) ==
  LET l == Ln(x)
      m == Ln(y)
  IN CASE x.k = "nan" \/ y.k = "nan" -> OfB(NanB)
       [] Low(x) < 0 \/ Low(y) < 0 -> OfB(NanB)
       [] m = R(0) -> IF l = R(0) THEN OfB(NanB) ELSE IF NoZero(l) THEN OfB(InfB(Low(Lo(l)))) ELSE Foreign
       [] l.t # "rx" /\ m.t # "rx" -> OfB(DivB(Big(l), Big(m)))
       [] OTHER -> DivR(l, m)
\* x to the power y
IsWhole(y) == y.k = "zero" \/ (y.k = "num" /\ WholeB(y).rest = -1)
IsOdd(y) == LET w == WholeB(y).m IN y.k = "num" /\ IsWhole(y) /\ w # <<>> /\ w[1] % 2 = 1
PowPos(x, y) ==                     \* x positive
  LET l == FLn(x)
      p == FMul(l[2], FixedOf(y))
      s == l[1] * y.s
      n == Trim(QuoMag(p, FLn2)[1])
      k == IF n = <<>> THEN 0 ELSE n[1] + (IF Len(n) > 1 THEN Base * n[2] ELSE 0)
      r == Trim(QuoMag(p, FLn2)[2])
      e == ExpTerms(One, r, 0)
  IN IF TopBit(y.m, y.e) > 40 \/ TopBit(y.m, y.e) < -60 THEN Foreign
     ELSE IF Len(n) > 2 \/ k > 1100 THEN (IF s > 0 THEN OfB(InfB(1)) ELSE ZeroR(1))
     ELSE IF k > 1000 THEN Foreign
     ELSE IF s > 0 THEN About(<<1, e>>, k, FALSE) ELSE Around(QuotB(1, One, e, -k), FALSE)
SmallPow(x, y) ==                   \* exact, or Foreign
  IF x.t # "r" \/ y.t # "r" \/ y.d # 1 \/ y.n < 0 \/ y.n > 10 THEN Foreign
  ELSE FoldLeft(LAMBDA acc, j: IF acc = Foreign THEN acc ELSE SMul(acc, x), R(1), [j \in 1..y.n |-> j])
Power(x, y) ==
  LET s == SmallPow(x, y)
      a == Big(x)
      b == Big(y)
  IN CASE s # Foreign -> s
       [] b.k = "zero" \/ Whole1(a) -> R(1)
       [] a.k = "nan" \/ b.k = "nan" -> OfB(NanB)
       [] b.k = "inf" -> LET o == CmpB([a EXCEPT !.s = 1], NumB(1, <<1>>, 0)) IN IF o = 0 THEN R(1) ELSE IF o = b.s THEN OfB(InfB(1)) ELSE R(0)
       [] a.k \in {"inf", "zero"} -> LET s1 == IF a.s < 0 /\ IsOdd(b) THEN -1 ELSE 1
                                    IN IF (a.k = "inf") = (b.s > 0) THEN OfB(InfB(s1)) ELSE ZeroR(s1)
       [] a.s > 0 -> PowPos(a, b)
       [] ~IsWhole(b) -> OfB(NanB)
       [] OTHER -> LET p == PowPos([a EXCEPT !.s = 1], b) IN IF IsOdd(b) THEN NegR(p) ELSE p

Strange == [t |-> "foreign"]            \* outside what is specified
MathFn(f, a) ==
  LET x == ToReal(a[1])
      y == IF Len(a) = 2 THEN ToReal(a[2]) ELSE R(0)
  IN CASE f = "abs" -> AbsR(x)
       [] f \in {"piso", "teto", "arredonda"} -> LET n == IntR(x, f) IN IF n.t = "none" THEN Strange ELSE n
       [] f = "raizqd" -> SqrtR(x)
       [] x.t = "rx" \/ y.t = "rx" -> Foreign
       [] f = "expoente" -> Power(x, y)
       [] f \in {"sen", "cos", "tan"} -> Trig(f, Big(x))
       [] f = "grausprad" -> Turned(Big(x), Pi, Num180)
       [] f = "radpgraus" -> Turned(Big(x), Num180, Pi)
       [] f = "log" -> Log(Big(x), Big(y))
=============================================================================
