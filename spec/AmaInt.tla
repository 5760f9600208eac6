------------------------------- MODULE AmaInt -------------------------------
(* Exact 64-bit signed integers for TLC, whose own integers have 32 bits.    *)
(* A number is [t |-> "i", n |-> n] when |n| < 10^9, otherwise               *)
(* [t |-> "I", s |-> 1 or -1, l |-> limbs], base 10^4, least limb first, no  *)
(* leading (i.e. last) zero limb.  The representation is canonical, so       *)
(* equality of numbers is equality of representations.                       *)
EXTENDS Integers, Sequences, SequencesExt

Base  == 10000
Small == 1000000000

Abs(n) == IF n < 0 THEN -n ELSE n
Mx(a, b) == IF a >= b THEN a ELSE b

I(n) == [t |-> "i", n |-> n]
IsInt(v) == v.t = "i" \/ v.t = "I"

RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o LimbsOf(n \div Base)

RECURSIVE Trim(_)
Trim(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l

Limb(l, k) == IF k <= Len(l) THEN l[k] ELSE 0

Sgn(v)  == IF v.t = "I" THEN v.s ELSE IF v.n < 0 THEN -1 ELSE IF v.n = 0 THEN 0 ELSE 1
Mag(v)  == IF v.t = "I" THEN v.l ELSE LimbsOf(Abs(v.n))

\* Canonical number from sign and trimmed magnitude.
Mk(s, l) ==
  IF Len(l) <= 2 \/ (Len(l) = 3 /\ l[3] < 10)
  THEN LET m == Limb(l,1) + Base * Limb(l,2) + (Base * Base) * Limb(l,3)
       IN I(s * m)
  ELSE [t |-> "I", s |-> s, l |-> l]

\* -1, 0, 1 comparison of magnitudes
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) == IF k = 0 THEN 0
                    ELSE IF a[k] < b[k] THEN -1
                    ELSE IF a[k] > b[k] THEN 1 ELSE CmpFrom(a, b, k - 1)
CmpMag(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, k, c) ==
  IF k > Mx(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Limb(a, k) + Limb(b, k) + c
       IN <<s % Base>> \o AddFrom(a, b, k + 1, s \div Base)
AddMag(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, k, c) ==                      \* a >= b
  IF k > Len(a) THEN <<>>
  ELSE LET d == a[k] - Limb(b, k) - c
       IN <<(IF d < 0 THEN d + Base ELSE d)>> \o SubFrom(a, b, k + 1, IF d < 0 THEN 1 ELSE 0)
SubMag(a, b) == Trim(SubFrom(a, b, 1, 0))

RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, m, k, c) ==
  IF k > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET p == a[k] * m + c IN <<p % Base>> \o ScaleFrom(a, m, k + 1, p \div Base)
Scale(a, m) == IF m = 0 THEN <<>> ELSE ScaleFrom(a, m, 1, 0)

RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, k) ==
  IF k > Len(b) THEN <<>>
  ELSE LET rest == MulFrom(a, b, k + 1)
       IN AddMag(Scale(a, b[k]), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
MulMag(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulFrom(a, b, 1))

\* Largest q in lo..hi with q*b <= a (binary search)
RECURSIVE TrialQ(_, _, _, _)
TrialQ(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF CmpMag(Scale(b, mid), a) <= 0 THEN TrialQ(a, b, mid, hi)
          ELSE TrialQ(a, b, lo, mid - 1)

\* Schoolbook division: limbs of a from the most significant down.
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, k, r, q) ==
  IF k = 0 THEN <<Trim(q), r>>
  ELSE LET r1 == Trim(<<a[k]>> \o r)
           d  == TrialQ(r1, b, 0, Base - 1)
           r2 == SubMag(r1, Scale(b, d))
       IN DivFrom(a, b, k - 1, r2, <<d>> \o q)
DivModMag(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>)

MaxMag == <<5807, 5477, 368, 3372, 922>>
MinMag == <<5808, 5477, 368, 3372, 922>>
InRange(s, l) == CmpMag(l, IF s < 0 THEN MinMag ELSE MaxMag) <= 0
MaxI64 == [t |-> "I", s |-> 1, l |-> MaxMag]
MinI64 == [t |-> "I", s |-> -1, l |-> MinMag]

Overflow == [t |-> "ovf"]
Ranged(s, l) == IF l = <<>> THEN I(0) ELSE IF InRange(s, l) THEN Mk(s, l) ELSE Overflow

NegInt(v) == IF v.t = "i" THEN I(-v.n) ELSE Ranged(-v.s, v.l)

AddSigned(sa, a, sb, b) ==
  IF sa = 0 THEN Ranged(sb, b) ELSE IF sb = 0 THEN Ranged(sa, a)
  ELSE IF sa = sb THEN Ranged(sa, AddMag(a, b))
  ELSE LET c == CmpMag(a, b) IN
       IF c = 0 THEN I(0)
       ELSE IF c > 0 THEN Ranged(sa, SubMag(a, b)) ELSE Ranged(sb, SubMag(b, a))

AddInt(x, y) == IF x.t = "i" /\ y.t = "i" /\ Abs(x.n + y.n) < Small THEN I(x.n + y.n)
                ELSE AddSigned(Sgn(x), Mag(x), Sgn(y), Mag(y))
SubInt(x, y) == IF x.t = "i" /\ y.t = "i" /\ Abs(x.n - y.n) < Small THEN I(x.n - y.n)
                ELSE AddSigned(Sgn(x), Mag(x), -Sgn(y), Mag(y))
MulInt(x, y) == IF x.t = "i" /\ y.t = "i" /\ Abs(x.n) <= 30000 /\ Abs(y.n) <= 30000
                THEN I(x.n * y.n)
                ELSE IF Sgn(x) = 0 \/ Sgn(y) = 0 THEN I(0)
                ELSE Ranged(Sgn(x) * Sgn(y), MulMag(Mag(x), Mag(y)))
\* y is not zero.  Truncated quotient; remainder has the dividend's sign.
QuoInt(x, y) ==
  IF x.t = "i" /\ y.t = "i"
  THEN I((IF (x.n < 0) = (y.n < 0) THEN 1 ELSE -1) * (Abs(x.n) \div Abs(y.n)))
  ELSE IF Sgn(x) = 0 THEN I(0)
  ELSE Ranged(Sgn(x) * Sgn(y), DivModMag(Mag(x), Mag(y))[1])
RemInt(x, y) ==
  IF x.t = "i" /\ y.t = "i"
  THEN I((IF x.n < 0 THEN -1 ELSE 1) * (Abs(x.n) % Abs(y.n)))
  ELSE IF Sgn(x) = 0 THEN I(0)
  ELSE IF QuoInt(x, y).t = "ovf" THEN Overflow      \* i64::MIN % -1 is out of range, too
  ELSE Ranged(Sgn(x), DivModMag(Mag(x), Mag(y))[2])

\* -1, 0, 1
CmpInt(x, y) ==
  IF x.t = "i" /\ y.t = "i" THEN (IF x.n < y.n THEN -1 ELSE IF x.n > y.n THEN 1 ELSE 0)
  ELSE IF Sgn(x) # Sgn(y) THEN (IF Sgn(x) < Sgn(y) THEN -1 ELSE 1)
  ELSE Sgn(x) * CmpMag(Mag(x), Mag(y))

-----------------------------------------------------------------------------
(* Printing and parsing; characters are Unicode numbers.                     *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Pad4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE BigDigits(_, _)
BigDigits(l, k) == IF k = 0 THEN <<>> ELSE Pad4(l[k]) \o BigDigits(l, k - 1)
ShowInt(v) ==
  IF v.t = "i" THEN (IF v.n < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs(v.n))
  ELSE (IF v.s < 0 THEN <<45>> ELSE <<>>) \o Digits(v.l[Len(v.l)]) \o BigDigits(v.l, Len(v.l) - 1)

IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == Len(s) > 0 /\ \A k \in 1..Len(s): IsDigit(s[k])

RECURSIVE ParseMag(_, _, _)
ParseMag(s, k, acc) ==
  IF k > Len(s) THEN Trim(acc)
  ELSE ParseMag(s, k + 1, AddMag(Scale(acc, 10), IF s[k] = 48 THEN <<>> ELSE <<s[k] - 48>>))
NoNumber == [t |-> "none"]
\* The 64-bit integer a text denotes: optional sign, then decimal digits.
ParseInt(s) ==
  LET signed == Len(s) > 0 /\ s[1] \in {43, 45}
      body == IF signed THEN Tail(s) ELSE s
      sg == IF signed /\ s[1] = 45 THEN -1 ELSE 1
  IN IF ~AllDigits(body) THEN NoNumber
     ELSE IF Len(body) <= 8
     THEN I(sg * FoldLeft(LAMBDA a, c: a * 10 + (c - 48), 0, body))
     ELSE LET r == Ranged(sg, ParseMag(body, 1, <<>>))
          IN IF r.t = "ovf" THEN NoNumber ELSE r
=============================================================================
