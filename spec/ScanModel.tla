------------------------------ MODULE ScanModel ------------------------------
(***************************************************************************)
(* Secondary scans over populations of slaves, and over every way in which *)
(* simultaneous answers overlap; transport failures at any write.          *)
(***************************************************************************)
EXTENDS MBusMaster, MBusSlaves, Json

CONSTANTS Size,        \* greatest number of slaves
          Chaos,       \* each collision may look different (otherwise one way per case)
          Emits

\* addresses 0DDD4321 FFFF 0106 with digits 2..4 of the identification varying
Sec(a, b, c) == <<33, 67, 16 * b + c, a, 17, 34, 1, 6>>
\* (identification least significant byte first: ...; digits are 0 a b c 4 3 2 1 read from byte 4 downwards)
Digits == {0, 1, 9}
Pool == { Sec(a, b, c) : a \in {0, 1}, b \in {1, 2}, c \in {0, 7} }
PoolIx(s) == s[4] * 100 + s[3]
Populations == { p \in SUBSET Pool : Cardinality(p) <= Size }
Slave(s, k) == [prim |-> k, sec |-> s, tel |-> << <<1, 3, 9>> >>, sel |-> FALSE, fcb |-> -1, ix |-> 1]
Pop(p) == LET q == SetToSortSeq(p, LAMBDA u, v : PoolIx(u) < PoolIx(v)) IN [k \in 1..Len(q) |-> Slave(q[k], k)]

\* starting masks: character codes; 70 is F
Tail12 == <<52, 51, 50, 49, 49, 49, 50, 50, 48, 49, 48, 54>>
Masks == { [pos |-> 1, m |-> <<48, 70, 70, 70>> \o Tail12],       \* varies digits 1..3 from position 1 on
           [pos |-> 1, m |-> <<48, 49, 70, 70>> \o Tail12],       \* first digit fixed
           [pos |-> 2, m |-> <<48, 48, 70, 70>> \o Tail12],
           [pos |-> 2, m |-> <<48, 70, 70, 102>> \o Tail12],      \* wildcard before the position stays a wildcard
           [pos |-> 3, m |-> <<48, 48, 49, 55>> \o Tail12],
           [pos |-> 15, m |-> <<48, 48, 49, 55>> \o Tail12],      \* the last digit is probed as it is
           [pos |-> 15, m |-> <<48, 48, 49, 55>> \o SubSeq(Tail12, 1, 11) \o <<70>>],
           [pos |-> 16, m |-> <<48, 48, 70, 70>> \o Tail12],
           [pos |-> 0, m |-> <<48, 48, 70, 70>>] }
SStarts == { [tr |-> "tcp", tty |-> 1, pre |-> <<>>, w |-> w, echo |-> 1, sr |-> 0, dr |-> 3, cb |-> 0, fcb |-> 1,
              script |-> << [op |-> "scan", pos |-> u.pos, m |-> u.m] >>, cm |-> md,
              env |-> Pop(p)] : p \in Populations, u \in Masks, md \in (IF Chaos THEN {0} ELSE 0..3), w \in { <<>>, <<"o", "f">>, <<"o", "o", "s">> } }
SObs0(c) == <<>>
SSees(c, h, s) == TRUE
SObserve(c, h, s) == h \o s
SReact(c, h, en, d) ==
  LET r == Heard(d, en) IN
  { [q |-> IF r.as = <<>> THEN <<>> ELSE << Bytes(Together(md, r.as)) >>, env |-> r.pop] :
      md \in IF Chaos /\ Len(r.as) > 1 THEN 0..2 ELSE {c.cm} }

---------------------------------------------------------------------------
Done == pc = "Done"
Start == cs.script[1]
Ret == (SelectSeq(obs, LAMBDA e : e.e = "ret"))[1]
Progress == LET s == SelectSeq(obs, LAMBDA e : e.e = "prog") IN [k \in 1..Len(s) |-> s[k].m]
FoundF == LET s == SelectSeq(obs, LAMBDA e : e.e = "found") IN [k \in 1..Len(s) |-> SecondaryBytes(s[k].f)]
Fails == SelectSeq(obs, LAMBDA e : e.e = "txfail" \/ (e.e = "tx" /\ Decide(e.d).r # 0))
Selections == SelectSeq(obs, LAMBDA e : e.e = "tx" /\ Len(e.d) = 17)
\* the mask m refines mask s from position p on: equal before p, and equal wherever s is no wildcard
Refines(a, s, p) == Len(a) = Len(s) /\ \A k \in 1..Len(a) : a[k] = s[k] \/ (Wild(s[k]) /\ k > p /\ a[k] \in 48..57)
Matching == IF Len(Start.m) = 16 /\ Start.pos \in 0..15 THEN { cs.env[k].sec : k \in { j \in 1..Len(cs.env) : SelectedBy(AddressBytes(Start.m), cs.env[j]) } } ELSE {}

(* C09 *)
FoundOnce == Done => \A i, j \in 1..Len(FoundF) : i # j => FoundF[i] # FoundF[j]
FoundOnly == Done => ToSet(FoundF) \subseteq Matching
\* a wildcard before the starting position is never refined: devices may remain that no further digit tells apart
Separable == Len(Start.m) = 16 /\ Start.pos < 16 => \A k \in 1..Start.pos : ~Wild(Start.m[k])
FoundAll  == (Done /\ Ret.v = 0 /\ Separable) => Matching \subseteq ToSet(FoundF)
Aborts == Done => ((Ret.v # 0) <=> (Fails # <<>> \/ Len(Start.m) # 16))
MasksRefine == Done => \A k \in 1..Len(Progress) : Refines(Progress[k], Start.m, Start.pos)
ProgressOnce == (Done /\ Separable) => \A i, j \in 1..Len(Progress) : i # j => Progress[i] # Progress[j]
\* the masks notified are those selected, in that order
ProgressBefore == Done =>
  LET h == SelectSeq(obs, LAMBDA e : e.e = "prog" \/ (e.e = "tx" /\ Decide(e.d).r = 0 /\ Decide(e.d).f.t = LONG) \/ e.e = "txfail") IN
  \A k \in 1..Len(h) : (h[k].e = "tx") => k > 1 /\ h[k - 1].e = "prog" /\ h[k].d = Image(Selection(h[k - 1].m))
Bounded == Len(Progress) <= 10 * (1 + 10 + 100)
Case == (Done /\ Emits) => PrintT("CASE " \o ToJson([s |-> Start, w |-> cs.w, cm |-> cs.cm,
          pop |-> [k \in 1..Len(cs.env) |-> cs.env[k].sec], n |-> Len(FoundF)]))
=============================================================================
