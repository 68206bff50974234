--------------------------- MODULE MBusFrameModel ---------------------------
(***************************************************************************)
(* Exhaustive exploration of the decision procedure: byte strings grow one *)
(* byte at a time over an alphabet that reaches every branch (every string *)
(* met is also a test case for the code, printed in driver syntax).        *)
(***************************************************************************)
EXTENDS MBusFrame, TLC

CONSTANT Emit            \* TRUE: print every string as a test case
VARIABLE b

Ck(s) == LET v == CheckSum(s) IN {v, (v + 1) % 256}
\* one byte too many for each kind is also explored
Done(s) == LET v == Decide(s) IN s # <<>> /\ v.r <= 0 /\ (Len(s) = 1 \/ Decide(SubSeq(s, 1, Len(s) - 1)).r <= 0)
Candidates(s) ==
  LET n == Len(s) IN
  IF n = 0 THEN {0, 16, 22, 104, 229, 255}
  ELSE IF s[1] = StartShort THEN
       CASE n = 1 -> {64, 91, 122, 8, 83, 0}
         [] n = 2 -> {0, 5, 253}
         [] n = 3 -> Ck(SubSeq(s, 2, 3))
         [] n = 4 -> {22, 16, 0}
         [] OTHER -> {22}
  ELSE IF s[1] = StartLong THEN
       CASE n \in {1, 2} -> {0, 2, 3, 4, 5}
         [] n = 3 -> {104, 16}
         [] n = 4 -> {83, 8, 91, 64}
         [] n = 5 -> {1, 254}
         [] n = 6 -> {114, 81}
         [] n > 6 /\ n < s[2] + 4 -> {229, 22, 255}
         [] n = s[2] + 4 -> Ck(SubSeq(s, 5, n))
         [] n = s[2] + 5 -> {22, 104}
         [] OTHER -> {22}
  ELSE {22, 229}

Init == b = <<>>
Next == /\ ~Done(b)
        /\ \E x \in Candidates(b) : b' = Append(b, x)
Spec == Init /\ [][Next]_b

Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexOf(s) == FoldLeft(LAMBDA acc, x : acc \o Hex[(x \div 16) + 1] \o Hex[(x % 16) + 1], "", s)
PrintCase == (Emit /\ b # <<>>) => PrintT("CASE " \o HexOf(b))

---------------------------------------------------------------------------
Dec == Decide(b)
\* no telegram is the beginning of another: a receiver never has to guess (C03 rests on this)
PrefixFree == (Dec.r = 0 /\ b[1] # StartAck) => \A k \in 1..(Len(b)-1) : Decide(SubSeq(b, 1, k)).r > 0
\* an accepted string is the image of the telegram it denotes, and of no other
RoundTrip == (Dec.r = 0 /\ b[1] # StartAck) => Image(Dec.f) = b
AckOnly == (Dec.r = 0 /\ b[1] = StartAck) => Dec.f = [t |-> ACK]
\* rejection is final: nothing that follows can repair it
BadIsFinal == (b # <<>> /\ Dec.r = -1) => \A x \in Candidates(b) : Decide(Append(b, x)).r = -1
\* the missing count goes down by one with every byte, except where the length bytes announce the rest
CountDown == [][ (Decide(b).r > 0 /\ Decide(b').r > 0 /\ Len(b') # 3) => Decide(b').r = Decide(b).r - 1 ]_b
NeverEarly == [][ Decide(b).r > 1 => (Decide(b').r # 0) ]_b

\* every telegram's image decodes to it (a long telegram without data is a control telegram)
Frames == { [t |-> ACK] }
   \cup { [t |-> SHORT, c |-> c, a |-> a] : c \in ShortControls, a \in {0, 1, 253, 255} }
   \cup { [t |-> CONTROL, c |-> c, a |-> a, ci |-> ci] : c \in LongControls, a \in {0, 254}, ci \in {0, 81, 255} }
   \cup { [t |-> LONG, c |-> c, a |-> a, ci |-> ci, d |-> d] : c \in LongControls, a \in {0, 255}, ci \in {114}, d \in {<<0>>, <<22, 104, 229>>, [i \in 1..252 |-> (i * 7) % 256]} }
Norm(f) == IF f.t = CONTROL THEN [t |-> CONTROL, c |-> f.c, a |-> f.a, ci |-> f.ci, d |-> <<>>] ELSE f
ASSUME \A f \in Frames : Decide(Image(f)).r = 0 /\ Decide(Image(f)).f = Norm(f)
ASSUME \A f \in Frames, n \in 0..12 : (Encode(f, n).r >= 0) => (Encode(f, n).r <= n)
=============================================================================
