------------------------------ MODULE AmaReal -------------------------------
(* Reals of the language.  A double that is a dyadic rational n / d of       *)
(* modest size is [t |-> "r", n, d]: on those TLC computes directly.  Every  *)
(* other one (and negative zero, infinities, NaN) is a double of AmaFloat;   *)
(* an operation that leaves the small ones is done there.  A result that     *)
(* only lies between two doubles (AmaMath) is [t |-> "rx", lo, hi]; rounding *)
(* preserves order, so operations on the ends enclose the operation on it.   *)
(* Foreign is a real this specification knows nothing of.                    *)
EXTENDS AmaFloat

Foreign == [t |-> "rx", lo |-> NanB, hi |-> NanB]
MaxNum == 8000000
MaxDen == 1024
IsReal(v) == v.t = "r" \/ v.t = "R" \/ v.t = "rx"
RECURSIVE Reduce(_, _)
Reduce(n, d) == IF d > 1 /\ n % 2 = 0 THEN Reduce(n \div 2, d \div 2) ELSE <<n, d>>
MkR(n, d) == LET q == Reduce(n, d) IN
             IF Abs(q[1]) > MaxNum \/ q[2] > MaxDen THEN Foreign
             ELSE [t |-> "r", n |-> q[1], d |-> q[2]]
R(n) == [t |-> "r", n |-> n, d |-> 1]


\* Between the two representations; a double that can be small is small
Log2(d) == CHOOSE k \in 0..10: TwoTo[k + 1] = LimbsOf(d)
Big(x) == IF x.t = "R" THEN x
          ELSE IF x.n = 0 THEN ZeroB(1)
          ELSE NumB(IF x.n < 0 THEN -1 ELSE 1, LimbsOf(Abs(x.n)), -Log2(x.d))
Value(m) == Limb(m, 1) + Base * Limb(m, 2)
OfB(b) ==
  IF b.k = "zero" /\ b.s > 0 THEN R(0)
  ELSE IF b.k # "num" THEN b
  ELSE LET top == TopBit(b.m, b.e)
           k == IF 23 - top < 10 THEN 23 - top ELSE 10
       IN IF top > 23 \/ top < -10 THEN b
          ELSE IF b.e >= 0 THEN (LET v == Value(Shl(b.m, b.e)) IN IF v > MaxNum THEN b ELSE R(b.s * v))
          ELSE LET up == Shl(b.m, k)
                   qr == IF -b.e <= 200 THEN QuoMag(up, Pow2(-b.e)) ELSE <<<<>>, <<1>>>>
                   q == Trim(qr[1])
                   small == IF Len(q) > 2 THEN Foreign ELSE MkR(b.s * Value(q), TwoTo[k + 1][1])
               IN IF Trim(qr[2]) # <<>> \/ small = Foreign THEN b ELSE small

OfInt(v) == IF v.t = "i" /\ Abs(v.n) <= MaxNum THEN R(v.n) ELSE OfB(OfMag(Sgn(v), Mag(v)))
\* Any number as a real
ToReal(v) == IF IsReal(v) THEN v ELSE OfInt(v)
IsZeroR(v) == (v.t = "r" /\ v.n = 0) \/ (v.t = "R" /\ v.k = "zero")
Unknown_(x, y) == x.t = "rx" \/ y.t = "rx"
Small_(x, y) == x.t = "r" /\ y.t = "r"

-----------------------------------------------------------------------------
\* On small ones; Foreign when the result is not a small one
Fits(n, m) == Abs(n) <= 2000000000 \div Mx(1, m)
SAdd(x, y) ==
  LET D == Mx(x.d, y.d) IN
  IF ~Fits(x.n, 2 * (D \div x.d)) \/ ~Fits(y.n, 2 * (D \div y.d)) THEN Foreign
  ELSE MkR(x.n * (D \div x.d) + y.n * (D \div y.d), D)
SSub(x, y) == IF y.n = 0 THEN x ELSE SAdd(x, [y EXCEPT !.n = -y.n])
SMul(x, y) ==
  IF x.n = 0 \/ y.n = 0 THEN (IF x.n < 0 \/ y.n < 0 THEN Foreign ELSE R(0))
  ELSE IF ~Fits(x.n, Abs(y.n)) THEN Foreign ELSE MkR(x.n * y.n, x.d * y.d)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
SDiv(x, y) ==                       \* y is not zero
  IF x.n = 0 THEN (IF y.n < 0 THEN Foreign ELSE R(0))
  ELSE IF ~Fits(x.n, y.d) \/ ~Fits(y.n, x.d) THEN Foreign
  ELSE LET n == Abs(x.n) * y.d
           d == Abs(y.n) * x.d
           g == Gcd(n, d)
           s == IF (x.n < 0) = (y.n < 0) THEN 1 ELSE -1
       IN IF IsPow2(d \div g) THEN MkR(s * (n \div g), d \div g) ELSE Foreign
SRem(x, y) ==                       \* with the sign of the dividend
  LET D == Mx(x.d, y.d) IN
  IF ~Fits(x.n, D \div x.d) \/ ~Fits(y.n, D \div y.d) THEN Foreign
  ELSE LET a == x.n * (D \div x.d)
           b == y.n * (D \div y.d)
           r == Abs(a) % Abs(b)
       IN IF r = 0 /\ a < 0 THEN Foreign ELSE MkR(IF a < 0 THEN -r ELSE r, D)
SQuo(x, y) ==                       \* the whole part of the quotient
  IF ~Fits(x.n, y.d) \/ ~Fits(y.n, x.d) THEN Foreign
  ELSE LET q == (Abs(x.n) * y.d) \div (Abs(y.n) * x.d)
           neg == (x.n < 0) # (y.n < 0)
       IN IF neg /\ q = 0 THEN Foreign ELSE MkR(IF neg THEN -q ELSE q, 1)

-----------------------------------------------------------------------------
\* On any
Between(lo, hi) == IF lo.k = "nan" \/ hi.k = "nan" THEN Foreign ELSE IF lo = hi THEN OfB(lo) ELSE [t |-> "rx", lo |-> lo, hi |-> hi]
Lo(x) == IF x.t = "rx" THEN x.lo ELSE Big(x)
Hi(x) == IF x.t = "rx" THEN x.hi ELSE Big(x)
MinB(a, b) == IF a.k = "nan" \/ b.k = "nan" THEN NanB ELSE IF CmpB(a, b) <= 0 THEN a ELSE b
MaxB(a, b) == IF a.k = "nan" \/ b.k = "nan" THEN NanB ELSE IF CmpB(a, b) >= 0 THEN a ELSE b
Corners(Op(_, _), x, y) ==
  LET a == Op(Lo(x), Lo(y))
      b == Op(Lo(x), Hi(y))
      c == Op(Hi(x), Lo(y))
      d == Op(Hi(x), Hi(y))
  IN Between(MinB(MinB(a, b), MinB(c, d)), MaxB(MaxB(a, b), MaxB(c, d)))
ZeroR(s) == OfB(ZeroB(s))
NoZero(x) == x.t # "rx" \/ (Low(Lo(x)) = Low(Hi(x)) /\ Low(Lo(x)) # 0 /\ x.lo.k # "nan")
Or(small, big) == IF small # Foreign THEN small ELSE OfB(big)
NegR(x) == IF x.t = "rx" THEN Between(NegB(x.hi), NegB(x.lo)) ELSE IF x.t = "R" \/ x.n = 0 THEN OfB(NegB(Big(x))) ELSE [x EXCEPT !.n = -x.n]
AddR(x, y) == IF Unknown_(x, y) THEN Between(AddB(Lo(x), Lo(y)), AddB(Hi(x), Hi(y))) ELSE Or(IF Small_(x, y) THEN SAdd(x, y) ELSE Foreign, AddB(Big(x), Big(y)))
SubR(x, y) == IF Unknown_(x, y) THEN Between(SubB(Lo(x), Hi(y)), SubB(Hi(x), Lo(y))) ELSE Or(IF Small_(x, y) THEN SSub(x, y) ELSE Foreign, SubB(Big(x), Big(y)))
MulR(x, y) == IF Unknown_(x, y) THEN Corners(MulB, x, y) ELSE Or(IF Small_(x, y) THEN SMul(x, y) ELSE Foreign, MulB(Big(x), Big(y)))
\* y is not zero
DivR(x, y) == IF Unknown_(x, y) THEN (IF NoZero(y) THEN Corners(DivB, x, y) ELSE Foreign) ELSE Or(IF Small_(x, y) THEN SDiv(x, y) ELSE Foreign, DivB(Big(x), Big(y)))
RemR(x, y) == IF Unknown_(x, y) THEN Foreign ELSE Or(IF Small_(x, y) THEN SRem(x, y) ELSE Foreign, RemB(Big(x), Big(y)))
TruncR(x) == LET a == TruncB(x.lo)
                 b == TruncB(x.hi)
             IN IF x = Foreign THEN x ELSE IF a = b THEN OfB(a) ELSE Between(a, b)
QuoR(x, y) == IF Unknown_(x, y) THEN TruncR(DivR(x, y)) ELSE Or(IF Small_(x, y) THEN SQuo(x, y) ELSE Foreign, TruncB(DivB(Big(x), Big(y))))
\* -1, 0, 1, or 2 when there is no order; both known or apart
CmpR(x, y) ==
  LET D == Mx(x.d, y.d)
      a == x.n * (D \div x.d)
      b == y.n * (D \div y.d)
  IN IF Small_(x, y) /\ Fits(x.n, D \div x.d) /\ Fits(y.n, D \div y.d)
     THEN (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
     ELSE CmpB(Lo(x), Lo(y))
CmpOk(x, y) == ~Unknown_(x, y) \/ CmpB(Hi(x), Lo(y)) = -1 \/ CmpB(Lo(x), Hi(y)) = 1
\* The int a real becomes, by f ("trunc", "piso", "teto", "arredonda")
IntR(x, f) == IF x.t # "rx" THEN IntB(Big(x), f)
              ELSE IF x # Foreign /\ IntB(x.lo, f) = IntB(x.hi, f) THEN IntB(x.lo, f) ELSE NoNumber
AbsB(x) == IF x.k = "nan" THEN x ELSE [x EXCEPT !.s = 1]
AbsR(x) == IF x.t = "r" THEN [x EXCEPT !.n = Abs(@)]
           ELSE IF x.t = "R" THEN OfB(AbsB(x))
           ELSE IF NoZero(x) THEN Between(MinB(AbsB(x.lo), AbsB(x.hi)), MaxB(AbsB(x.lo), AbsB(x.hi))) ELSE Foreign
SqrtR(x) == IF x.t # "rx" THEN OfB(SqrtB(Big(x)))
            ELSE IF Low(x.lo) < 0 THEN Foreign ELSE Between(SqrtB(x.lo), SqrtB(x.hi))
\* 884279719003555 / 2^48
Pi == NumB(1, <<3555, 1900, 2797, 884>>, -48)

RECURSIVE FracDigits(_, _)
FracDigits(n, d) == IF n = 0 THEN <<>> ELSE <<48 + ((n * 10) \div d)>> \o FracDigits((n * 10) % d, d)
ShowReal(x) ==
  IF x.t = "R" THEN ShowB(x) ELSE
  (IF x.n < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs(x.n) \div x.d) \o <<46>>
  \o (LET f == Abs(x.n) % x.d IN IF f = 0 THEN <<48>> ELSE FracDigits(f, x.d))

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
DotAt(s) == {k \in 1..Len(s): s[k] = 46}
Letters(s) == \E k \in 1..Len(s): (s[k] >= 65 /\ s[k] <= 90) \/ (s[k] >= 97 /\ s[k] <= 122)
Dec(s) == FoldLeft(LAMBDA a, c: a * 10 + (c - 48), 0, s)
Lower(s) == [k \in 1..Len(s) |-> IF s[k] >= 65 /\ s[k] <= 90 THEN s[k] + 32 ELSE s[k]]
Specials == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>, <<110, 97, 110>>}   \* inf infinity nan
\* The real a text denotes: decimal notation with or without an exponent,
\* or the name of a special one.
ParseReal(s) ==
  LET signed(x) == Len(x) > 0 /\ x[1] \in {43, 45}
      neg == signed(s) /\ s[1] = 45
      b == IF signed(s) THEN Tail(s) ELSE s
      es == {k \in 1..Len(b): b[k] \in {69, 101}}
      e == IF es = {} THEN Len(b) + 1 ELSE CHOOSE k \in es: \A j \in es: k <= j
      m == SubSeq(b, 1, e - 1)
      xp == SubSeq(b, e + 1, Len(b))
      xd == IF signed(xp) THEN Tail(xp) ELSE xp
      xx == SubSeq(xd, LeadingZeros(xd, 1) + 1, Len(xd))
      x == (IF signed(xp) /\ xp[1] = 45 THEN -1 ELSE 1) * (IF Len(xx) > 5 THEN 100000 ELSE Dec(xx))
      dots == DotAt(m)
      dot == IF dots = {} THEN Len(m) + 1 ELSE CHOOSE k \in dots: TRUE
      ip == SubSeq(m, 1, dot - 1)
      fp == SubSeq(m, dot + 1, Len(m))
      okp(p) == \A k \in 1..Len(p): IsDigit(p[k])
      sg == IF neg THEN -1 ELSE 1
  IN IF Lower(b) \in Specials THEN (IF Len(b) = 3 /\ Lower(b)[1] = 110 THEN NanB ELSE InfB(sg))
     ELSE IF Cardinality(dots) > 1 \/ ~okp(ip) \/ ~okp(fp) \/ (ip = <<>> /\ fp = <<>>) THEN NoNumber
     ELSE IF es # {} /\ (xd = <<>> \/ ~okp(xd)) THEN NoNumber
     ELSE OfB(OfDecimal(sg, ip \o fp, x - Len(fp)))
=============================================================================
