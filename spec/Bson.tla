-------------------------------- MODULE Bson --------------------------------
(* The binary format in which the compiler hands modules to the machine, and *)
(* a reader of it.                                                           *)
(*                                                                           *)
(* A document is a sequence of named elements; values are documents, arrays, *)
(* texts (sequences of code points), byte strings, 64-bit integers and 64-   *)
(* bit reals.  Encode gives the bytes of a document; the reader is a machine *)
(* that walks over bytes, an element per step, and rebuilds the document, or *)
(* stops at the first byte that breaks a rule of the format.  Every document *)
(* must be read back from what is written for it, by this specification      *)
(* (invariant RoundTrip on the documents without bytes of their own) and by  *)
(* the compiler (the bytes recorded from it).                                *)
(*                                                                           *)
(* Constant is what the machine makes of a text in a module's table of       *)
(* constants.                                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

CONSTANT StepsPerTransition
P == JsonDeserialize(IOEnv.PROGS)
VARIABLES pid, R
vars == <<pid, R>>

-----------------------------------------------------------------------------
\* Numbers as bytes, least significant first
Pow2(k) == 2 ^ k
Bytes4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
\* an integer: a sign and four groups of 16 bits, least significant first
Complement(w) ==
  LET f == [k \in 1..4 |-> 65535 - w[k]]
      g == FoldLeft(LAMBDA a, k: [c |-> IF a.c + f[k] = 65536 THEN 1 ELSE 0, w |-> Append(a.w, (a.c + f[k]) % 65536)], [c |-> 1, w |-> <<>>], <<1, 2, 3, 4>>)
  IN g.w
Int64(v) == LET w == IF v.s = "-" THEN Complement(v.w) ELSE v.w
            IN [k \in 1..8 |-> IF k % 2 = 1 THEN w[(k + 1) \div 2] % 256 ELSE w[k \div 2] \div 256]
OfInt64(b) == LET w == [k \in 1..4 |-> b[2 * k - 1] + 256 * b[2 * k]]
              IN IF b[8] >= 128 THEN [t |-> "i", s |-> "-", w |-> Complement(w)] ELSE [t |-> "i", s |-> "+", w |-> w]
\* a real: a sign, the bits of a whole number from the first that is not 0, and
\* the power of two of its last bit; "inf" for what is beyond all numbers
Bit(b, k) == IF k >= 1 /\ k <= Len(b) THEN b[k] ELSE 0
Value(bits) == FoldLeft(LAMBDA a, b: 2 * a + b, 0, bits)
Bits(n, k) == [i \in 1..k |-> (n \div Pow2(k - i)) % 2]
Real64Bits(v) ==
  LET top == v.e + Len(v.m) - 1
      sign == IF v.s = "-" THEN <<1>> ELSE <<0>>
  IN IF v.k = "inf" THEN sign \o [i \in 1..11 |-> 1] \o [i \in 1..52 |-> 0]
     ELSE IF v.m = <<>> THEN sign \o [i \in 1..63 |-> 0]
     ELSE IF top >= -1022 THEN sign \o Bits(top + 1023, 11) \o [i \in 1..52 |-> Bit(v.m, i + 1)]
     \* too small for the leading bit to be left out
     ELSE sign \o [i \in 1..11 |-> 0] \o [i \in 1..52 |-> Bit(v.m, i - (-1022 - top) + 1)]
Real64(v) == LET b == Real64Bits(v) IN [k \in 1..8 |-> Value(SubSeq(b, 65 - 8 * k, 72 - 8 * k))]
Drop0(m) == LET on == {i \in 1..Len(m): m[i] = 1} IN
            IF on = {} THEN [m |-> <<>>, cut |-> 0]
            ELSE LET lo == CHOOSE i \in on: \A j \in on: i <= j
                     hi == CHOOSE i \in on: \A j \in on: j <= i
                 IN [m |-> SubSeq(m, lo, hi), cut |-> Len(m) - hi]
OfReal64(b) ==
  LET bits == [i \in 1..64 |-> (b[8 - (i - 1) \div 8] \div Pow2(7 - ((i - 1) % 8))) % 2]
      s == IF bits[1] = 1 THEN "-" ELSE "+"
      ex == Value(SubSeq(bits, 2, 12))
      fr == SubSeq(bits, 13, 64)
      d == Drop0(IF ex = 0 THEN fr ELSE <<1>> \o fr)
  IN IF ex = 2047 THEN [t |-> "r", k |-> IF \E i \in 1..52: fr[i] = 1 THEN "nan" ELSE "inf", s |-> s, m |-> <<>>, e |-> 0]
     ELSE [t |-> "r", k |-> "num", s |-> s, m |-> d.m, e |-> IF d.m = <<>> THEN 0 ELSE (IF ex = 0 THEN -1074 ELSE ex - 1075) + d.cut]

\* Text as bytes
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
TextBytes(v) == FoldLeft(LAMBDA a, c: a \o Utf8(c), <<>>, v)
More(b) == b >= 128 /\ b < 192
Starts(b) == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i: ~More(b[i]))
CodeAt(b, i, j) ==                                    \* the bytes from i up to j
  LET n == j - i
      x == b[i]
      y(k) == b[i + k] - 128
      c == CASE n = 1 /\ x < 128 -> x
             [] n = 2 /\ x >= 192 /\ x < 224 -> (x - 192) * 64 + y(1)
             [] n = 3 /\ x >= 224 /\ x < 240 -> (x - 224) * 4096 + y(1) * 64 + y(2)
             [] n = 4 /\ x >= 240 /\ x < 248 -> (x - 240) * 262144 + y(1) * 4096 + y(2) * 64 + y(3)
             [] OTHER -> -1
  IN IF c < 0 \/ c > 1114111 \/ (c >= 55296 /\ c < 57344) \/ Len(Utf8(c)) # n THEN -1 ELSE c
\* The code points, or -1 where the bytes are none
OfText(b) == LET at == Starts(b) IN
             IF b = <<>> THEN <<>>
             ELSE IF at = <<>> \/ at[1] # 1 THEN <<-1>>
             ELSE [k \in 1..Len(at) |-> CodeAt(b, at[k], IF k < Len(at) THEN at[k + 1] ELSE Len(b) + 1)]
Digits(n) == LET RECURSIVE go(_)
                 go(x) == IF x < 10 THEN <<48 + x>> ELSE go(x \div 10) \o <<48 + (x % 10)>>
             IN go(n)

-----------------------------------------------------------------------------
\* What is written
RECURSIVE Encode(_)
Payload(v) == CASE v.t = "i" -> Int64(v)
                [] v.t = "r" -> Real64(v)
                [] v.t = "s" -> LET b == TextBytes(v.v) IN Bytes4(Len(b)) \o b \o <<0>>
                [] v.t = "b" -> Bytes4(Len(v.v)) \o <<128>> \o v.v
                [] OTHER -> Encode(v)
Tag(v) == CASE v.t = "r" -> 1 [] v.t = "s" -> 2 [] v.t = "d" -> 3 [] v.t = "a" -> 4 [] v.t = "b" -> 5 [] v.t = "i" -> 18
Encode(v) ==
  LET key(k) == IF v.t = "a" THEN Digits(k - 1) ELSE TextBytes(v.v[k].n)
      val(k) == IF v.t = "a" THEN v.v[k] ELSE v.v[k].v
      body == FoldLeft(LAMBDA a, k: a \o <<Tag(val(k))>> \o key(k) \o <<0>> \o Payload(val(k)), <<>>, [k \in 1..Len(v.v) |-> k])
  IN Bytes4(Len(body)) \o body \o <<0>>

-----------------------------------------------------------------------------
\* The reader.  A frame is a document or array being read: its kind, the name
\* it goes by in the frame around it, where its size was, the size, its elements.
Doc0 == P[pid].doc
Given == P[pid].bytes
Text0 == P[pid].consts
Int4(b, i) == b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * b[i + 3]
Fits4(b, i) == i + 3 <= Len(b) /\ b[i + 3] < 128
Frame(t, n, b, at) == [t |-> t, n |-> n, from |-> at, size |-> Int4(b, at), v |-> <<>>]
Stop(r, why) == [r EXCEPT !.st = "bad", !.why = why]
RECURSIVE ZeroFrom(_, _)
ZeroFrom(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i ELSE ZeroFrom(b, i + 1)
Put(f, n, v) == IF f.t = "a" THEN [f EXCEPT !.v = Append(@, v)] ELSE [f EXCEPT !.v = Append(@, [n |-> n, v |-> v])]
Close(r) ==
  LET f == Last(r.stk)
      v == [t |-> f.t, v |-> f.v]
      body == r.at - f.from - 4
      rest == Front(r.stk)
  IN IF f.size # body THEN Stop(r, "size of a document")
     ELSE IF rest = <<>> THEN (IF r.at # Len(r.b) THEN Stop(r, "bytes after the document") ELSE [r EXCEPT !.st = "read", !.stk = <<>>, !.v = v])
     ELSE [r EXCEPT !.at = @ + 1, !.stk = Append(Front(rest), Put(Last(rest), f.n, v))]
Scalar(r, n, v, next) == [r EXCEPT !.at = next, !.stk = Append(Front(@), Put(Last(@), n, v))]
Element(r) ==
  LET b == r.b
      f == Last(r.stk)
      t == b[r.at]
      z == ZeroFrom(b, r.at + 1)
      i == z + 1
      n == OfText(SubSeq(b, r.at + 1, z - 1))
  IN IF z = 0 THEN Stop(r, "name without an end")
     ELSE IF \E k \in 1..Len(n): n[k] < 0 THEN Stop(r, "name that is no text")
     ELSE IF f.t = "a" /\ n # Digits(Len(f.v)) THEN Stop(r, "index of an element")
     ELSE IF f.t = "d" /\ \E k \in 1..Len(f.v): f.v[k].n = n THEN Stop(r, "name used twice")
     ELSE IF t \in {1, 18} THEN (IF i + 7 > Len(b) THEN Stop(r, "number cut short")
                                 ELSE Scalar(r, n, IF t = 1 THEN OfReal64(SubSeq(b, i, i + 7)) ELSE OfInt64(SubSeq(b, i, i + 7)), i + 8))
     ELSE IF t \notin {2, 3, 4, 5} THEN Stop(r, "unknown kind of value")
     ELSE IF ~Fits4(b, i) THEN Stop(r, "size cut short")
     ELSE IF t \in {3, 4} THEN [r EXCEPT !.at = i + 4, !.stk = Append(@, Frame(IF t = 3 THEN "d" ELSE "a", n, b, i))]
     ELSE LET l == Int4(b, i)
              j == IF t = 2 THEN i + 4 ELSE i + 5
          IN IF j + l + (IF t = 2 THEN 0 ELSE -1) > Len(b) THEN Stop(r, "text or bytes cut short")
             ELSE IF t = 5 THEN Scalar(r, n, [t |-> "b", v |-> SubSeq(b, j, j + l - 1)], j + l)
             ELSE IF b[j + l] # 0 THEN Stop(r, "text without an end")
             ELSE LET s == OfText(SubSeq(b, j, j + l - 1))
                  IN IF \E k \in 1..Len(s): s[k] < 0 THEN Stop(r, "bytes that are no text") ELSE Scalar(r, n, [t |-> "s", v |-> s], j + l + 1)
Step(r) == IF r.st # "run" THEN r
           ELSE IF r.at > Len(r.b) THEN Stop(r, "document without an end")
           ELSE IF r.b[r.at] = 0 THEN Close(r) ELSE Element(r)

-----------------------------------------------------------------------------
\* Constants: the words of the language, whole numbers, decimal numbers, texts
\* in quotes and texts as they are
Word(s) == [t |-> "word", v |-> s]
IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == s # <<>> /\ \A k \in 1..Len(s): IsDigit(s[k])
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Strip0(s) == LET on == {k \in 1..Len(s): s[k] # 48} IN IF on = {} THEN <<48>> ELSE SubSeq(s, CHOOSE k \in on: \A j \in on: k <= j, Len(s))
\* s <= u for digits without leading zeros
RECURSIVE NotAfter(_, _, _)
NotAfter(s, u, k) == IF k > Len(s) THEN TRUE ELSE IF s[k] # u[k] THEN s[k] < u[k] ELSE NotAfter(s, u, k + 1)
AtMost(s, u) == Len(s) < Len(u) \/ (Len(s) = Len(u) /\ NotAfter(s, u, 1))
MaxInt == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MinInt == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
Whole(s) == AllDigits(Unsigned(s)) /\ AtMost(Strip0(Unsigned(s)), IF s[1] = 45 THEN MinInt ELSE MaxInt)
Decimal(s) ==
  LET u == Unsigned(s)
      dots == {k \in 1..Len(u): u[k] = 46}
  IN u # <<>> /\ Cardinality(dots) <= 1 /\ (\A k \in 1..Len(u): IsDigit(u[k]) \/ u[k] = 46) /\ \E k \in 1..Len(u): IsDigit(u[k])
Quote(c) == c \in {34, 39}
Constant(s) ==
  CASE s \in {<<118,101,114,100,97,100,101,105,114,111>>, <<102,97,108,115,111>>, <<110,117,108,111>>} -> [t |-> "word", v |-> s]
    [] s # <<>> /\ Whole(s) -> LET d == Strip0(Unsigned(s)) IN [t |-> "int", v |-> IF s[1] = 45 /\ d # <<48>> THEN <<45>> \o d ELSE d]
    [] s # <<>> /\ ~Whole(s) /\ Decimal(s) -> [t |-> "real", v |-> s]
    [] s # <<>> /\ Quote(s[1]) /\ Len(s) > 1 -> [t |-> "text", v |-> SubSeq(s, 2, Len(s) - 1)]
    [] OTHER -> [t |-> "text", v |-> s]

-----------------------------------------------------------------------------
Ticks == [i \in 1..StepsPerTransition |-> i]
Reader(b) == LET r == [st |-> "run", why |-> "", at |-> 5, b |-> b, stk |-> <<>>, v |-> <<>>] IN
             IF ~Fits4(b, 1) THEN Stop(r, "size cut short") ELSE [r EXCEPT !.stk = <<Frame("d", <<>>, b, 1)>>]
Init == pid \in 1..Len(P) /\ R = [st |-> "new", v |-> <<>>]
Opening == R.st = "new" /\ R' = Reader(IF Given = <<>> THEN Encode(Doc0) ELSE Given)
Reading == R.st = "run" /\ R' = FoldLeft(LAMBDA r, i: Step(r), R, Ticks)
Reporting == /\ R.st \in {"read", "bad"}
             /\ PrintT("@@" \o ToJson([p |-> P[pid].pid, st |-> R.st, why |-> R.why, at |-> R.at, same |-> R.st = "read" /\ R.v = Doc0,
                                       bytes |-> IF Given = <<>> THEN R.b ELSE <<>>, consts |-> [k \in 1..Len(Text0) |-> Constant(Text0[k])]]))
             /\ R' = [st |-> "done", v |-> <<>>]
Next == (Opening \/ Reading \/ Reporting) /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars

\* What the specification writes it reads back
RoundTrip == R.st \in {"read", "bad"} /\ Given = <<>> => R.st = "read" /\ R.v = Doc0
\* The reader stays within the bytes, and its frames within each other
Within == R.st = "run" => /\ R.at >= 5
                          /\ \A k \in 1..(Len(R.stk) - 1): R.stk[k].from < R.stk[k + 1].from
=============================================================================
