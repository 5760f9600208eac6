------------------------------ MODULE AmaFloat ------------------------------
(* IEEE 754 doubles, bit for bit, out of exact integers: s * m * 2^e with m  *)
(* a magnitude of AmaInt of at most 53 bits and e at least -1074, negative   *)
(* zero, the infinities and NaN.  Every operation computes the exact result  *)
(* (or enough of its bits and whether anything is left) and rounds it once,  *)
(* to nearest, ties to even.                                                 *)
EXTENDS AmaInt, FiniteSets

NumB(s, m, e) == [t |-> "R", k |-> "num", s |-> s, m |-> m, e |-> e]
ZeroB(s) == [t |-> "R", k |-> "zero", s |-> s, m |-> <<>>, e |-> 0]
InfB(s) == [t |-> "R", k |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
NanB == [t |-> "R", k |-> "nan", s |-> 1, m |-> <<>>, e |-> 0]

-----------------------------------------------------------------------------
\* Powers of two and of ten, and the length of a magnitude in bits
TwoTo == FoldLeft(LAMBDA acc, k: Append(acc, Scale(acc[Len(acc)], 2)), <<<<1>>>>, [k \in 1..192 |-> k])
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 192 THEN TwoTo[k + 1]
           ELSE IF k % 2 = 0 THEN LET h == Pow2(k \div 2) IN MulMag(h, h) ELSE Scale(Pow2(k - 1), 2)
Shl(m, k) == IF k = 0 \/ m = <<>> THEN m ELSE IF k <= 13 THEN Scale(m, TwoTo[k + 1][1]) ELSE MulMag(m, Pow2(k))
Mag10(k) == [j \in 1..(k \div 4) |-> 0] \o <<CASE k % 4 = 0 -> 1 [] k % 4 = 1 -> 10 [] k % 4 = 2 -> 100 [] OTHER -> 1000>>
RECURSIVE LeastAbove(_, _, _)
LeastAbove(m, lo, hi) ==            \* the least k in lo..hi with m < 2^k
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF CmpMag(m, Pow2(mid)) < 0 THEN LeastAbove(m, lo, mid) ELSE LeastAbove(m, mid + 1, hi)
Bits(m) == IF m = <<>> THEN 0
           ELSE LET lo == ((Len(m) - 1) * 13287) \div 1000 IN LeastAbove(m, lo, lo + 16)
ModMag(a, b) == IF CmpMag(a, b) < 0 THEN a ELSE DivModMag(a, b)[2]
\* long division that skips the leading limbs the divisor does not reach
QuoMag(a, b) ==
  LET k == Len(b) - 1
      la == Len(a)
  IN IF la <= k THEN <<<<>>, a>>
     ELSE DivFrom(SubSeq(a, 1, la - k), b, la - k, SubSeq(a, la - k + 1, la), <<>>)
ShrQR(m, k) == IF k = 0 THEN <<m, <<>>>> ELSE QuoMag(m, Pow2(k))
Half2(m) == DivModMag(m, <<2>>)[1]

-----------------------------------------------------------------------------
\* The double nearest to s * (m + less than one if more) * 2^e.
\* With more, m has at least 55 bits.
TopBit(m, e) == Bits(m) + e
Exactly(s, m, e) == IF m = <<>> THEN ZeroB(s) ELSE IF TopBit(m, e) > 1024 THEN InfB(s) ELSE NumB(s, m, e)
RoundB(s, m, e, more) ==
  LET len == Bits(m)
      drop == Mx(len - 53, -1074 - e)
  IN IF m = <<>> \/ drop > len + 1 THEN ZeroB(s)
     ELSE IF len + e > 1025 THEN InfB(s)
     ELSE IF drop <= 0 THEN Exactly(s, m, e)
     ELSE LET qr == ShrQR(m, drop)
              c == CmpMag(qr[2], Pow2(drop - 1))
              odd == qr[1] # <<>> /\ qr[1][1] % 2 = 1
              up == c > 0 \/ (c = 0 /\ (more \/ odd))
              m1 == IF up THEN AddMag(qr[1], <<1>>) ELSE Trim(qr[1])
          IN IF m1 = TwoTo[54] THEN Exactly(s, TwoTo[53], e + drop + 1) ELSE Exactly(s, m1, e + drop)
QuotB(s, a, b, e) ==                \* nearest to s * (a / b) * 2^e
  LET k == Mx(0, 64 + Bits(b) - Bits(a))
      qr == QuoMag(Shl(a, k), b)
  IN RoundB(s, qr[1], e - k, qr[2] # <<>>)

-----------------------------------------------------------------------------
\* Arithmetic
AddMags(x, y) ==                    \* x and y finite, not zero, x.e >= y.e
  LET d == x.e - y.e IN
  IF d > 120
  THEN LET big == Shl(x.m, 60)
       IN RoundB(x.s, IF x.s = y.s THEN big ELSE SubMag(big, <<1>>), x.e - 60, TRUE)
  ELSE LET a == Shl(x.m, d)
           c == CmpMag(a, y.m)
       IN IF x.s = y.s THEN RoundB(x.s, AddMag(a, y.m), y.e, FALSE)
          ELSE IF c = 0 THEN ZeroB(1)
          ELSE IF c > 0 THEN RoundB(x.s, SubMag(a, y.m), y.e, FALSE)
          ELSE RoundB(y.s, SubMag(y.m, a), y.e, FALSE)
AddB(x, y) ==
  CASE x.k = "nan" \/ y.k = "nan" -> NanB
    [] x.k = "inf" -> IF y.k = "inf" /\ y.s # x.s THEN NanB ELSE x
    [] y.k = "inf" -> y
    [] x.k = "zero" /\ y.k = "zero" -> IF x.s = y.s THEN x ELSE ZeroB(1)
    [] x.k = "zero" -> y
    [] y.k = "zero" -> x
    [] OTHER -> IF x.e >= y.e THEN AddMags(x, y) ELSE AddMags(y, x)
NegB(x) == IF x.k = "nan" THEN x ELSE [x EXCEPT !.s = -@]
SubB(x, y) == AddB(x, NegB(y))
MulB(x, y) ==
  LET s == x.s * y.s IN
  CASE x.k = "nan" \/ y.k = "nan" -> NanB
    [] x.k = "inf" \/ y.k = "inf" -> IF x.k = "zero" \/ y.k = "zero" THEN NanB ELSE InfB(s)
    [] x.k = "zero" \/ y.k = "zero" -> ZeroB(s)
    [] OTHER -> RoundB(s, MulMag(x.m, y.m), x.e + y.e, FALSE)
DivB(x, y) ==                       \* y is not a zero
  LET s == x.s * y.s IN
  CASE x.k = "nan" \/ y.k = "nan" -> NanB
    [] x.k = "inf" -> IF y.k = "inf" THEN NanB ELSE InfB(s)
    [] y.k = "inf" \/ x.k = "zero" -> ZeroB(s)
    [] OTHER -> QuotB(s, x.m, y.m, x.e - y.e)
RECURSIVE ShiftMod(_, _, _)
ShiftMod(a, k, b) ==                \* a * 2^k modulo b
  IF k <= 160 THEN Trim(ModMag(Shl(a, k), b)) ELSE ShiftMod(Trim(ModMag(Shl(a, 160), b)), k - 160, b)
RemB(x, y) ==                       \* y is not a zero
  CASE x.k \in {"nan", "inf"} \/ y.k = "nan" -> NanB
    [] x.k = "zero" \/ y.k = "inf" -> x
    [] OTHER -> IF TopBit(x.m, x.e) < TopBit(y.m, y.e) THEN x
                ELSE LET r == IF x.e >= y.e THEN ShiftMod(x.m, x.e - y.e, y.m)
                              ELSE Trim(ModMag(x.m, Shl(y.m, y.e - x.e)))
                     IN RoundB(x.s, r, IF x.e >= y.e THEN y.e ELSE x.e, FALSE)
RECURSIVE RootFrom(_, _)
RootFrom(n, x) ==                   \* Newton's iteration from above
  LET y == Trim(Half2(AddMag(x, Trim(QuoMag(n, x)[1])))) IN IF CmpMag(y, x) >= 0 THEN x ELSE RootFrom(n, y)
SqrtB(x) ==
  CASE x.k \in {"nan", "zero"} -> x
    [] x.s < 0 -> NanB
    [] x.k = "inf" -> x
    [] OTHER -> LET k0 == Mx(0, 124 - Bits(x.m))
                    k == IF (x.e - k0) % 2 = 0 THEN k0 ELSE k0 + 1
                    n == Shl(x.m, k)
                    r == RootFrom(n, Pow2((Bits(n) + 2) \div 2))
                IN RoundB(1, r, (x.e - k) \div 2, CmpMag(MulMag(r, r), n) # 0)

-----------------------------------------------------------------------------
\* Comparison: -1, 0, 1, or 2 when there is no order
Low(x) == IF x.k = "zero" THEN 0 ELSE x.s
CmpB(x, y) ==
  CASE x.k = "nan" \/ y.k = "nan" -> 2
    [] Low(x) # Low(y) -> IF Low(x) < Low(y) THEN -1 ELSE 1
    [] x.k = "zero" -> 0
    [] x.k = "inf" \/ y.k = "inf" -> IF x.k = y.k THEN 0 ELSE IF x.k = "inf" THEN x.s ELSE -x.s
    [] OTHER -> LET a == TopBit(x.m, x.e)
                    b == TopBit(y.m, y.e)
                    c == IF a # b THEN (IF a < b THEN -1 ELSE 1)
                         ELSE IF x.e >= y.e THEN CmpMag(Shl(x.m, x.e - y.e), y.m)
                         ELSE CmpMag(x.m, Shl(y.m, y.e - x.e))
                IN x.s * c

-----------------------------------------------------------------------------
\* Integers: of a number, and of a double (whole part, and what is left of it
\* compared with a half: -1 nothing, 0 less, 1 a half or more)
OfMag(s, m) == RoundB(s, m, 0, FALSE)
WholeB(x) ==                        \* x is finite
  IF x.k = "zero" THEN [m |-> <<>>, rest |-> -1]
  ELSE IF x.e >= 0 THEN [m |-> IF TopBit(x.m, x.e) > 70 THEN Pow2(70) ELSE Shl(x.m, x.e), rest |-> -1]
  ELSE IF TopBit(x.m, x.e) < 0 THEN [m |-> <<>>, rest |-> 0]
  ELSE LET qr == ShrQR(x.m, -x.e)
           r == Trim(qr[2])
       IN [m |-> Trim(qr[1]), rest |-> IF r = <<>> THEN -1 ELSE IF CmpMag(r, Pow2(-x.e - 1)) >= 0 THEN 1 ELSE 0]
Clamp(s, m) == IF m = <<>> THEN I(0) ELSE IF InRange(s, m) THEN Mk(s, m) ELSE IF s > 0 THEN MaxI64 ELSE MinI64
\* f is "trunc", "piso", "teto" or "arredonda"
IntB(x, f) ==
  CASE x.k = "nan" -> I(0)
    [] x.k = "inf" -> IF x.s > 0 THEN MaxI64 ELSE MinI64
    [] OTHER -> LET w == WholeB(x)
                    away == \/ f = "piso" /\ x.s < 0 /\ w.rest >= 0
                            \/ f = "teto" /\ x.s > 0 /\ w.rest >= 0
                            \/ f = "arredonda" /\ w.rest = 1
                IN Clamp(x.s, IF away THEN AddMag(w.m, <<1>>) ELSE w.m)
TruncB(x) == IF x.k # "num" \/ x.e >= 0 THEN x ELSE RoundB(x.s, WholeB(x).m, 0, FALSE)

-----------------------------------------------------------------------------
\* The shortest decimal that denotes the double and no other, nearest to it
RECURSIVE Place(_, _, _)
Place(r, s, k) ==                   \* the least k' >= k with r < (or <=) s * 10^k', ties excluded by r
  IF CmpMag(IF k < 0 THEN MulMag(r, Mag10(-k)) ELSE r, IF k > 0 THEN MulMag(s, Mag10(k)) ELSE s) < 0 THEN k
  ELSE Place(r, s, k + 1)
RECURSIVE Digit(_, _, _)
Digit(r, s, d) == IF CmpMag(r, s) < 0 THEN <<d, r>> ELSE Digit(SubMag(r, s), s, d + 1)
RECURSIVE Gen(_, _, _, _, _)
Gen(r, s, lo, hi, even) ==
  LET q == Digit(Scale(r, 10), s, 0)
      r1 == q[2]
      lo1 == Scale(lo, 10)
      hi1 == Scale(hi, 10)
      cl == CmpMag(r1, lo1)
      ch == CmpMag(AddMag(r1, hi1), s)
      down == cl < 0 \/ (even /\ cl = 0)
      up == ch > 0 \/ (even /\ ch = 0)
  IN IF ~down /\ ~up THEN <<q[1]>> \o Gen(r1, s, lo1, hi1, even)
     ELSE IF up /\ (~down \/ CmpMag(Scale(r1, 2), s) >= 0) THEN <<q[1] + 1>> ELSE <<q[1]>>
RECURSIVE Carry(_)
Carry(ds) ==                        \* a digit may have become ten
  IF ds[Len(ds)] < 10 THEN ds
  ELSE IF Len(ds) = 1 THEN <<10>>
  ELSE Carry([k \in 1..(Len(ds) - 1) |-> IF k = Len(ds) - 1 THEN ds[k] + 1 ELSE ds[k]])
\* <<digits, k>>: the value is 0.digits * 10^k
Shortest(x) ==
  LET len == Bits(x.m)
      u == Mx(len + x.e - 53, -1074)
      m == Shl(x.m, x.e - u)
      even == m[1] % 2 = 0
      edge == m = TwoTo[53] /\ u > -1074
      r0 == IF u >= 0 THEN Shl(m, u + 2) ELSE Shl(m, 2)
      s0 == IF u >= 0 THEN <<4>> ELSE Pow2(2 - u)
      hi0 == IF u >= 0 THEN Pow2(u + 1) ELSE <<2>>
      lo0 == IF edge THEN Trim(Half2(hi0)) ELSE hi0
      top == AddMag(r0, hi0)
      k == Place(IF even THEN top ELSE SubMag(top, <<1>>), s0, (((len + x.e - 1) * 3010) \div 10000) - 1)
      f(z) == IF k < 0 THEN MulMag(z, Mag10(-k)) ELSE z
      ds == Carry(Gen(f(r0), IF k > 0 THEN MulMag(s0, Mag10(k)) ELSE s0, f(lo0), f(hi0), even))
  IN IF ds = <<10>> THEN <<<<1>>, k + 1>> ELSE <<ds, k>>
Zeros(k) == [j \in 1..k |-> 48]
ShowB(x) ==
  LET sign == IF x.s < 0 THEN <<45>> ELSE <<>> IN
  CASE x.k = "nan" -> <<78, 97, 78>>
    [] x.k = "inf" -> sign \o <<105, 110, 102>>
    [] x.k = "zero" -> sign \o <<48, 46, 48>>
    [] OTHER -> LET q == Shortest(x)
                    ds == [j \in 1..Len(q[1]) |-> 48 + q[1][j]]
                    k == q[2]
                    n == Len(ds)
                IN sign \o (IF k <= 0 THEN <<48, 46>> \o Zeros(-k) \o ds
                            ELSE IF k >= n THEN ds \o Zeros(k - n) \o <<46, 48>>
                            ELSE SubSeq(ds, 1, k) \o <<46>> \o SubSeq(ds, k + 1, n))

\* The double nearest to s * digits * 10^x (digits: characters)
RECURSIVE LeadingZeros(_, _)
LeadingZeros(ds, k) == IF k <= Len(ds) /\ ds[k] = 48 THEN LeadingZeros(ds, k + 1) ELSE k - 1
OfDecimal(s, ds, x) ==
  LET b == SubSeq(ds, LeadingZeros(ds, 1) + 1, Len(ds))
      m == ParseMag(b, 1, <<>>)
  IN IF m = <<>> THEN ZeroB(s)
     ELSE IF Len(b) + x > 310 THEN InfB(s)
     ELSE IF Len(b) + x < -330 THEN ZeroB(s)
     ELSE IF x >= 0 THEN RoundB(s, Trim(MulMag(m, Mag10(x))), 0, FALSE)
     ELSE QuotB(s, m, Mag10(-x), 0)
=============================================================================
