------------------------------ MODULE RecvModel ------------------------------
(***************************************************************************)
(* One receive in steps of single reads.  A stream is a sequence of bytes  *)
(* with events between them (silence, interruption, failure, end); every   *)
(* read may deliver any number of the bytes asked for.  The outcome must   *)
(* be the one that is a function of the stream alone, and equal to what    *)
(* MBusLine makes of the same stream.                                      *)
(***************************************************************************)
EXTENDS MBusLine, TLC, Json

CONSTANTS Events,     \* greatest number of events in a stream
          History,    \* keep the segmentation (and print each case)?
          Bases

T == 300   INT == 301   E == 302   Z == 303
NONE == 99
Letter(s) == CASE s = T -> "T" [] s = INT -> "I" [] s = E -> "E" [] s = Z -> "Z"
IsByte(s) == s < 256

F1 == Image([t |-> SHORT, c |-> 91, a |-> 5])
F2 == Image([t |-> CONTROL, c |-> 8, a |-> 5, ci |-> 112])
F3 == Image([t |-> LONG, c |-> 8, a |-> 5, ci |-> 114, d |-> <<22>>])
SmallBases == { <<>>, <<229>>, <<229, 229>>, F1, F1 \o <<229>>, F2, F2 \o <<16>>, SubSeq(F1, 1, 4), SubSeq(F2, 1, 6), SubSeq(F2, 1, 2),
                <<0>>, <<22, 229>>, <<104, 3, 4, 104>>, <<104, 2, 2, 104, 229>>, <<104, 3, 3, 105, 8, 5, 112, 125, 22, 229>>, <<16, 91, 5, 97, 22, 229>>, <<16, 8, 5, 13, 22>> }
LargeBases == SmallBases \cup { F3, F3 \o F1, F2 \o F2, <<104, 4, 4, 104, 8, 5, 114, 22, 150, 22>>, <<104, 5, 5, 104, 8, 5, 114, 22, 149, 22>>, F1 \o F3 }

\* s with events put at the given places: places p is a sequence of <<position before which, event>>, last first
RECURSIVE With(_, _)
With(s, p) == IF p = <<>> THEN s ELSE With(SubSeq(s, 1, p[1][1] - 1) \o <<p[1][2]>> \o SubSeq(s, p[1][1], Len(s)), Tail(p))
Marks(tr) == IF tr = "tcp" THEN {T, INT, E, Z} ELSE {T, INT, E}
Placed(s, tr, n) ==
  IF n = 0 THEN {s}
  ELSE IF n = 1 THEN {s} \cup { With(s, << <<i, m>> >>) : i \in 1..(Len(s) + 1), m \in Marks(tr) }
  ELSE IF n = 2 THEN { With(s, << <<i, m>>, <<j, k>> >>) : i \in 1..(Len(s) + 1), j \in 1..(Len(s) + 1), m \in Marks(tr), k \in Marks(tr) }
  ELSE { With(s, << <<i, T>>, <<j, T>>, <<l, k>> >>) : i \in 1..(Len(s) + 1), j \in 1..(Len(s) + 1), l \in 1..(Len(s) + 1), k \in Marks(tr) }
Streams == IF Bases = "small" THEN SmallBases ELSE LargeBases

VARIABLES tr, all, st, b, n, res, cut
vars == <<tr, all, st, b, n, res, cut>>

Init == /\ tr \in {"tcp", "ser"}
        /\ all \in UNION { Placed(s, tr, k) : s \in Streams, k \in 0..Events }
        /\ st = all /\ b = <<>> /\ n = 0 /\ res = NONE /\ cut = <<>>

Note(x) == cut' = IF History THEN Append(cut, x) ELSE cut
End(r) == res' = r /\ UNCHANGED <<b, n>>
Avail == IF \A i \in 1..Len(st) : IsByte(st[i]) THEN Len(st) ELSE (CHOOSE i \in 1..Len(st) : ~IsByte(st[i]) /\ \A j \in 1..(i - 1) : IsByte(st[j])) - 1
ReadBytes ==
  /\ Avail > 0
  /\ \E k \in 1..Least(Wanted(b), Avail) :
       LET b2 == b \o SubSeq(st, 1, k) v == Decide(b2) IN
       /\ b' = b2 /\ st' = SubSeq(st, k + 1, Len(st)) /\ n' = n
       /\ Note(k)
       /\ res' = IF v.r = 0 THEN OK ELSE IF v.r > 0 THEN NONE ELSE INVALID
Silence ==
  /\ IF st = <<>> THEN TRUE ELSE Head(st) = T
  /\ st' = IF st = <<>> THEN st ELSE Tail(st)
  /\ IF st = <<>> THEN cut' = cut ELSE Note(-1)
  /\ IF tr = "tcp" \/ b = <<>> THEN End(TIMEOUT)
     ELSE IF n + 1 = 3 THEN End(INVALID) ELSE n' = n + 1 /\ UNCHANGED <<b, res>>
Interrupted == Len(st) > 0 /\ Head(st) = INT /\ st' = Tail(st) /\ Note(-2)
               /\ IF tr = "tcp" THEN UNCHANGED <<b, n, res>> ELSE End(ERROR)
Failed == st # <<>> /\ Head(st) = E /\ st' = Tail(st) /\ Note(-3) /\ End(ERROR)
AtEnd == st # <<>> /\ Head(st) = Z /\ st' = st /\ Note(-4) /\ End(RESET)
Next == /\ res = NONE /\ UNCHANGED <<tr, all>>
        /\ (ReadBytes \/ Silence \/ Interrupted \/ Failed \/ AtEnd)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
\* The outcome as a function of the stream alone.
ByteIx == SelectSeq([i \in 1..Len(all) |-> i], LAMBDA i : IsByte(all[i]))
Prefix(k) == [i \in 1..k |-> all[ByteIx[i]]]
Decided == { k \in 1..Len(ByteIx) : Decide(Prefix(k)).r <= 0 /\ \A j \in 1..(k - 1) : Decide(Prefix(j)).r > 0 }
At(k) == ByteIx[k]                       \* where in the stream the k-th byte is
FirstByte == IF ByteIx = <<>> THEN Len(all) + 1 ELSE ByteIx[1]
Stops(i) ==       \* the event at place i ends the receive
  ~IsByte(all[i]) /\
  IF tr = "tcp" THEN all[i] # INT
  ELSE all[i] # T \/ i < FirstByte \/ Cardinality({ j \in FirstByte..i : all[j] = T }) >= 3
FirstStop == { i \in 1..Len(all) : Stops(i) /\ \A j \in 1..(i - 1) : ~Stops(j) }
Meaning ==
  LET d == IF Decided = {} THEN Len(all) + 1 ELSE At(CHOOSE k \in Decided : TRUE)
      s == IF FirstStop = {} THEN Len(all) + 1 ELSE CHOOSE i \in FirstStop : TRUE
  IN IF d < s THEN [r |-> IF Decide(Prefix(CHOOSE k \in Decided : TRUE)).r = 0 THEN OK ELSE INVALID, used |-> d]
     ELSE IF s > Len(all) THEN [r |-> IF tr = "ser" /\ ByteIx # <<>> THEN INVALID ELSE TIMEOUT, used |-> Len(all)]
     ELSE [r |-> CASE all[s] = T -> IF tr = "ser" /\ s > FirstByte THEN INVALID ELSE TIMEOUT
                   [] all[s] = Z -> RESET
                   [] OTHER -> ERROR,
           used |-> IF all[s] = Z THEN s - 1 ELSE s]

RightOutcome == res # NONE => res = Meaning.r
RightPlace == res # NONE => Len(all) - Len(st) = Meaning.used
Exact == res = OK => \E k \in Decided : b = Prefix(k)
\* and the big step of MBusLine says the same of the unsegmented stream
Queue == [i \in 1..Len(all) |-> IF IsByte(all[i]) THEN Bytes(<<all[i]>>) ELSE Mark(Letter(all[i]))]
BigStep == LET y == DeviceRecv([tr |-> tr, tty |-> 1], Queue) IN
           res # NONE => res = y.r /\ LeftBytes(y.q) = Cardinality({ i \in 1..Len(st) : IsByte(st[i]) }) /\ b = y.b
Terminates == <>(res # NONE)
Case == (res # NONE /\ History) => PrintT("CASE " \o ToJson([tr |-> tr, all |-> all, cut |-> cut]))
=============================================================================
