------------------------------ MODULE MBusSlaves ------------------------------
(***************************************************************************)
(* The other side of the line: a population of slaves as EN 13757-2/-3     *)
(* prescribe them.  A slave is [prim, sec (8 bytes as in its replies),     *)
(* tel (its telegrams: the bytes after the header), sel (selected),        *)
(* fcb (last frame count bit, -1 none), ix (telegram it is at)].           *)
(***************************************************************************)
EXTENDS MBusRecords

BroadcastAll == 255   BroadcastTest == 254   SelectedAddress == 253

\* nibble-wise, F matches everything
NibbleMatch(m, s) == m = 15 \/ m = s
ByteMatch(m, s) == NibbleMatch(m \div 16, s \div 16) /\ NibbleMatch(m % 16, s % 16)
SelectedBy(m, x) == \A k \in 1..8 : ByteMatch(m[k], x.sec[k])

Hears(a, x) == a = x.prim \/ a \in {BroadcastAll, BroadcastTest} \/ (a = SelectedAddress /\ x.sel)
Reply(x) == Image([t |-> LONG, c |-> 8, a |-> x.prim, ci |-> CIVariable,
                   d |-> x.sec \o <<85, 0, 0, 0>> \o (IF x.tel = <<>> THEN <<>> ELSE x.tel[x.ix])])

\* the state of slave x after, and its answer to, telegram f; no answer is <<>>
React1(f, x) ==
  IF f.t = SHORT /\ f.c = 64 THEN
       IF Hears(f.a, x) THEN [x |-> [x EXCEPT !.sel = IF f.a = SelectedAddress THEN FALSE ELSE @, !.fcb = -1, !.ix = 1],
                              a |-> IF f.a = BroadcastAll THEN <<>> ELSE <<229>>]
       ELSE [x |-> x, a |-> <<>>]
  ELSE IF f.t = SHORT /\ f.c \in {91, 123} THEN
       IF Hears(f.a, x) THEN
         LET b == IF f.c = 123 THEN 1 ELSE 0
             y == [x EXCEPT !.fcb = b, !.ix = IF x.fcb >= 0 /\ b # x.fcb THEN IF @ >= Len(x.tel) THEN 1 ELSE @ + 1 ELSE @]
         IN [x |-> y, a |-> IF f.a = BroadcastAll THEN <<>> ELSE Reply(y)]
       ELSE [x |-> x, a |-> <<>>]
  ELSE IF f.t = LONG /\ f.a = SelectedAddress /\ f.ci = 82 /\ Len(f.d) = 8 THEN
       IF SelectedBy(f.d, x) THEN [x |-> [x EXCEPT !.sel = TRUE, !.fcb = -1, !.ix = 1], a |-> <<229>>]
       ELSE [x |-> [x EXCEPT !.sel = FALSE], a |-> <<>>]
  ELSE IF f.t \in {LONG, CONTROL} /\ f.c \in {83, 115} THEN
       IF Hears(f.a, x) THEN
         [x |-> IF f.t = LONG /\ f.ci = 81 /\ Len(f.d) = 3 /\ f.d[1] = 1 /\ f.d[2] = 122 THEN [x EXCEPT !.prim = f.d[3]] ELSE x,
          a |-> IF f.a = BroadcastAll THEN <<>> ELSE <<229>>]
       ELSE [x |-> x, a |-> <<>>]
  ELSE [x |-> x, a |-> <<>>]

Heard(w, pop) == LET v == Decide(w) IN
  IF v.r # 0 THEN [pop |-> pop, as |-> <<>>]
  ELSE [pop |-> [k \in 1..Len(pop) |-> React1(v.f, pop[k]).x],
        as |-> SelectSeq([k \in 1..Len(pop) |-> React1(v.f, pop[k]).a], LAMBDA a : a # <<>>)]

(* What answers given at the same time look like: one after the other (0), *)
(* wired together with a damaged checksum when longer than an              *)
(* acknowledgement (1), garbled from the first byte (2), merely wired      *)
(* together (3).                                                           *)
Longest(as) == FoldLeft(LAMBDA n, a : IF Len(a) > n THEN Len(a) ELSE n, 0, as)
Wired(as) == [k \in 1..Longest(as) |-> FoldLeft(LAMBDA v, a : IF k <= Len(a) THEN v & a[k] ELSE v, 255, as)]
Together(mode, as) ==
  IF as = <<>> THEN <<>>
  ELSE IF Len(as) = 1 \/ mode = 0 THEN FoldLeft(LAMBDA s, a : s \o a, <<>>, as)
  ELSE LET w == Wired(as) IN
       CASE mode = 1 /\ Len(w) > 1 -> [w EXCEPT ![Len(w) - 1] = @ ^^ 90]
         [] mode = 2 -> [w EXCEPT ![1] = 0]
         [] OTHER -> w
=============================================================================
