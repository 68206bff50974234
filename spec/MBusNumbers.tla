----------------------------- MODULE MBusNumbers -----------------------------
(***************************************************************************)
(* Arithmetic on integers of any size and on decimal numbers, so that the  *)
(* meaning of 64-bit integers, BCD numbers and IEEE reals can be stated    *)
(* exactly.  A natural number is its sequence of limbs (base 10000, least  *)
(* significant first, the last one not zero); a decimal number is          *)
(* (-1)^s * n * 10^x.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, TLC

Base == 10000
MaxN(a, b) == IF a > b THEN a ELSE b
AbsN(i) == IF i < 0 THEN -i ELSE i

RECURSIVE StripZeros(_)
StripZeros(n) == IF n = <<>> THEN n ELSE IF n[Len(n)] # 0 THEN n ELSE StripZeros(SubSeq(n, 1, Len(n) - 1))
RECURSIVE LimbsOf(_)
LimbsOf(i) == IF i = 0 THEN <<>> ELSE <<i % Base>> \o LimbsOf(i \div Base)

\* n * k + c for small k and c (at most 100000)
MulAdd(n, k, c) ==
  LET r == FoldLeft(LAMBDA a, d : [n |-> Append(a.n, (d * k + a.c) % Base), c |-> (d * k + a.c) \div Base], [n |-> <<>>, c |-> c], n)
  IN StripZeros(r.n \o LimbsOf(r.c))
Limb(n, i) == IF i <= Len(n) THEN n[i] ELSE 0
Indices(k) == [i \in 1..k |-> i]
NatAdd(a, b) ==
  LET r == FoldLeft(LAMBDA t, i : [n |-> Append(t.n, (Limb(a, i) + Limb(b, i) + t.c) % Base), c |-> (Limb(a, i) + Limb(b, i) + t.c) \div Base],
                    [n |-> <<>>, c |-> 0], Indices(MaxN(Len(a), Len(b))))
  IN StripZeros(r.n \o LimbsOf(r.c))
\* a - b, for a >= b
NatSub(a, b) ==
  LET r == FoldLeft(LAMBDA t, i : LET d == Limb(a, i) - Limb(b, i) - t.c IN [n |-> Append(t.n, d % Base), c |-> IF d < 0 THEN 1 ELSE 0],
                    [n |-> <<>>, c |-> 0], Indices(Len(a)))
  IN StripZeros(r.n)
\* -1, 0, 1
NatCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == { i \in 1..Len(a) : a[i] # b[i] } IN
       IF D = {} THEN 0 ELSE IF a[Max(D)] < b[Max(D)] THEN -1 ELSE 1
Zeros(k) == [i \in 1..k |-> 0]
NatShift(n, k) == IF n = <<>> THEN n ELSE Zeros(k \div 4) \o MulAdd(n, <<1, 10, 100, 1000>>[(k % 4) + 1], 0)     \* n * 10^k
\* quotient and remainder by a small number (at most 100000)
NatDiv(n, k) ==
  LET r == FoldLeft(LAMBDA a, d : [q |-> <<(a.r * Base + d) \div k>> \o a.q, r |-> (a.r * Base + d) % k], [q |-> <<>>, r |-> 0], Reverse(n))
  IN [q |-> StripZeros(r.q), r |-> r.r]

Pad4(i) == IF i < 10 THEN "000" \o ToString(i) ELSE IF i < 100 THEN "00" \o ToString(i) ELSE IF i < 1000 THEN "0" \o ToString(i) ELSE ToString(i)
NatText(n) == IF n = <<>> THEN "0"
              ELSE FoldLeft(LAMBDA acc, d : acc \o Pad4(d), ToString(n[Len(n)]), Reverse(SubSeq(n, 1, Len(n) - 1)))

\* the bytes of a number, least significant first
NatOfBytes(b) == FoldLeft(LAMBDA n, d : MulAdd(n, 256, d), <<>>, Reverse(b))
\* digits, most significant first
NatOfDigits(ds) == FoldLeft(LAMBDA n, d : MulAdd(n, 10, d), <<>>, ds)

---------------------------------------------------------------------------
Dec(s, n, x) == [s |-> IF n = <<>> THEN 0 ELSE s, n |-> n, x |-> x]
DecInt(i) == Dec(IF i < 0 THEN 1 ELSE 0, LimbsOf(AbsN(i)), 0)
Sign(d) == IF d.s = 1 THEN "-" ELSE ""
\* text of a decimal number that is an integer (x = 0)
IntText(d) == Sign(d) \o NatText(d.n)
DecMul(d, k, x) == Dec(d.s, MulAdd(d.n, k, 0), d.x + x)              \* d * k * 10^x, k at most 100000
DecAdd(a, b) ==
  LET x == IF a.x < b.x THEN a.x ELSE b.x
      m == NatShift(a.n, a.x - x) n == NatShift(b.n, b.x - x)
  IN IF a.s = b.s THEN Dec(a.s, NatAdd(m, n), x)
     ELSE IF NatCmp(m, n) >= 0 THEN Dec(a.s, NatSub(m, n), x) ELSE Dec(b.s, NatSub(n, m), x)
DecAbs(d) == [d EXCEPT !.s = 0]
DecNeg(d) == Dec(1 - d.s, d.n, d.x)
\* |a| <= |b|
AbsLeq(a, b) == LET x == IF a.x < b.x THEN a.x ELSE b.x IN NatCmp(NatShift(a.n, a.x - x), NatShift(b.n, b.x - x)) <= 0
\* o differs from e by no more than the given bound
Near(o, e, bound) == AbsLeq(DecAdd(o, DecNeg(e)), bound)

---------------------------------------------------------------------------
(* Two's complement integers and IEEE 754 single precision numbers of      *)
(* bytes in transmission order (least significant first).                  *)
Negative(b) == b[Len(b)] >= 128
TwosComplement(b) ==
  IF Negative(b) THEN Dec(1, MulAdd(NatOfBytes([i \in 1..Len(b) |-> 255 - b[i]]), 1, 1), 0) ELSE Dec(0, NatOfBytes(b), 0)

RealSign(b) == b[4] \div 128
RealExp(b) == (b[4] % 128) * 2 + b[3] \div 128
RealFrac(b) == (b[3] % 128) * 65536 + b[2] * 256 + b[1]
IsNan(b) == RealExp(b) = 255 /\ RealFrac(b) # 0
IsInf(b) == RealExp(b) = 255 /\ RealFrac(b) = 0
\* the number is Mant * 2^(Pow2)
Mant(b) == IF RealExp(b) = 0 THEN RealFrac(b) ELSE RealFrac(b) + 8388608
Pow2(b) == (IF RealExp(b) = 0 THEN 1 ELSE RealExp(b)) - 150
RECURSIVE MulPow(_, _, _, _)
MulPow(n, base, chunk, k) ==      \* n * base^k, where chunk = <<j, base^j>>
  IF k = 0 THEN n ELSE IF k >= chunk[1] THEN MulPow(MulAdd(n, chunk[2], 0), base, chunk, k - chunk[1]) ELSE MulPow(MulAdd(n, base, 0), base, chunk, k - 1)
\* exact decimal value of a finite real
RealDec(b) ==
  LET e == Pow2(b) m == LimbsOf(Mant(b)) IN
  IF e >= 0 THEN Dec(RealSign(b), MulPow(m, 2, <<16, 65536>>, e), 0)
  ELSE Dec(RealSign(b), MulPow(m, 5, <<7, 78125>>, -e), e)
\* floor(n / 2^k) and whether something was cut off
RECURSIVE ShiftRight(_, _, _)
ShiftRight(n, k, cut) ==
  IF k = 0 \/ n = <<>> THEN [q |-> n, cut |-> cut]
  ELSE LET j == IF k > 13 THEN 13 ELSE k
           d == NatDiv(n, 2^j)
       IN ShiftRight(d.q, k - j, cut \/ d.r # 0)
\* n / 2^k rounded to the nearest integer, to the even one when there are two
RoundShift(n, k) ==
  IF k = 0 THEN n
  ELSE LET h == ShiftRight(n, k - 1, FALSE)
           q == NatDiv(h.q, 2)
           up == q.r = 1 /\ (h.cut \/ NatDiv(q.q, 2).r = 1)
       IN IF up THEN MulAdd(q.q, 1, 1) ELSE q.q
Pad6(s, i) == IF i < 10 THEN "00000" \o s ELSE IF i < 100 THEN "0000" \o s ELSE IF i < 1000 THEN "000" \o s ELSE IF i < 10000 THEN "00" \o s ELSE IF i < 100000 THEN "0" \o s ELSE s
\* n / 10^6 with six decimals
MillionthsText(n) == LET d == NatDiv(n, 1000) e == NatDiv(d.q, 1000) f == e.r * 1000 + d.r IN NatText(e.q) \o "." \o Pad6(ToString(f), f)
\* text of a finite real with six decimals, correctly rounded
RealText(b) ==
  LET e == Pow2(b) m == LimbsOf(Mant(b))
      t == IF e >= 0 THEN NatShift(MulPow(m, 2, <<16, 65536>>, e), 6)
           ELSE IF -e <= 6 THEN MulPow(MulAdd(m, 15625, 0), 2, <<16, 65536>>, 6 + e)
           ELSE RoundShift(MulAdd(m, 15625, 0), -e - 6)
  IN (IF RealSign(b) = 1 THEN "-" ELSE "") \o MillionthsText(t)

=============================================================================
