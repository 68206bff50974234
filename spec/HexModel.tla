------------------------------ MODULE HexModel ------------------------------
(* Every text over one character of every class, into buffers of every size. *)
EXTENDS MBusText
CONSTANT N
VARIABLES s, n
Alphabet == {48, 65, 102, 32, 10, 103}
Init == s = <<>> /\ n \in 0..3
Next == Len(s) < N /\ n' = n /\ \E c \in Alphabet : s' = Append(s, c)
P == Pairs(s, 1, n)
Emit == PrintT("CASE " \o FoldLeft(LAMBDA acc, c : acc \o HexByteLo(c), "", s) \o " " \o ToString(n))
\* the bytes fit, are spelled by two characters each, and more room or more text only adds to them
Fits == Len(P) <= n /\ 2 * Len(P) <= Len(s)
Grows == /\ \A m \in 0..n : Pairs(s, 1, m) = SubSeq(P, 1, IF m < Len(P) THEN m ELSE Len(P))
         /\ \A k \in 0..Len(s) : LET Q == Pairs(SubSeq(s, 1, k), 1, n) IN Q = SubSeq(P, 1, Len(Q))
\* white space between pairs, and the case of letters, mean nothing
Ignores == /\ Pairs(<<32>> \o s, 1, n) = P
           /\ Pairs([k \in 1..Len(s) |-> IF s[k] = 102 THEN 70 ELSE s[k]], 1, n) = P
\* text spelled from bytes gives the bytes back
SpelledBack == LET t == FoldLeft(LAMBDA acc, b : acc \o <<32, 48, 48 + b>>, <<>>, [k \in 1..n |-> k]) IN Pairs(t, 1, n) = [k \in 1..n |-> k]
=============================================================================
