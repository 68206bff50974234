------------------------------ MODULE EchoModel ------------------------------
(***************************************************************************)
(* Sequences of telegrams of both directions, garbage, silences and        *)
(* failures, met by receives and purges under every setting of the echo    *)
(* option; what must come out is stated unit by unit.                      *)
(***************************************************************************)
EXTENDS MBusMaster, Json

CONSTANTS Units, Emits

U(k, d) == [k |-> k, d |-> d]
\* m: sent by a master, s: sent by a slave, g: no telegram, T silence, E failure
All == { U("m", Image(Request(5))), U("m", Image(SetBaud(5, 300))), U("m", Image(UserData(5, <<1, 2>>))), U("s", <<229>>),
         U("s", Image([t |-> CONTROL, c |-> 24, a |-> 5, ci |-> 112])), U("s", Image([t |-> LONG, c |-> 8, a |-> 5, ci |-> 114, d |-> <<22, 104>>])),
         U("g", <<0>>), U("T", <<>>), U("E", <<>>) }
Seqs == UNION { [1..n -> All] : n \in 0..Units }
RECURSIVE Items(_)
Items(us) == IF us = <<>> THEN <<>> ELSE << IF us[1].d = <<>> THEN Mark(us[1].k) ELSE Bytes(us[1].d) >> \o Items(Tail(us))
Programs == { << [op |-> "recv"] >>, << [op |-> "purge"] >>, << [op |-> "recv"], [op |-> "recv"] >> }
EStarts == { [tr |-> t, tty |-> 1, pre |-> Items(us), us |-> us, w |-> <<>>, echo |-> e, sr |-> 1, dr |-> 3, cb |-> 0, fcb |-> 0, script |-> pr, env |-> 0] :
               t \in {"tcp", "ser"}, us \in Seqs, e \in 0..2, pr \in Programs }
EObs0(c) == <<>>
ESees(c, h, s) == TRUE
EObserve(c, h, s) == h \o s
EReact(c, h, en, d) == {}

---------------------------------------------------------------------------
Done == pc = "Done"
Us == cs.us
Skipped(u) == (cs.echo = 1 /\ u.k = "m") \/ (cs.echo = 2 /\ u.k = "s")
UnitAt(i) == IF i <= Len(Us) THEN Us[i] ELSE U("T", <<>>)
\* one receive that starts at unit i: the unit that decides it
Deciding(i) == IF Skipped(UnitAt(i)) THEN i + 1 ELSE i
Code(u) == CASE u.k \in {"m", "s"} -> OK [] u.k = "g" -> INVALID [] u.k = "T" -> TIMEOUT [] u.k = "E" -> ERROR
Rets == SelectSeq(obs, LAMBDA e : e.e = "ret")
Left(i) == FoldLeft(LAMBDA n, u : n + Len(u.d), 0, SubSeq(Us, i, Len(Us)))
RECURSIVE ReceiveFrom(_, _)
ReceivesRight(k, i) == LET j == Deciding(i) IN
  /\ Rets[k].v = Code(UnitAt(j))
  /\ Rets[k].lb = Left(j + 1)
  /\ Rets[k].v = OK => Image(Rets[k].f) = UnitAt(j).d /\ Rets[k].f.ts = 1
ReceiveFrom(k, i) == ReceivesRight(k, i) /\ (k < Len(Rets) => ReceiveFrom(k + 1, Deciding(i) + 1))
RecvRight == (Done /\ cs.script[1].op = "recv") => ReceiveFrom(1, 1)

RECURSIVE StopsAt(_)
StopsAt(i) == LET j == Deciding(i) IN IF UnitAt(j).k \in {"T", "E"} THEN j ELSE StopsAt(j + 1)
PurgeRight == (Done /\ cs.script[1].op = "purge") =>
  /\ Rets[1].lb = Left(StopsAt(1) + 1)                                        \* everything up to silence or failure is gone
  /\ Rets[1].v = IF UnitAt(Deciding(1)).k \in {"T", "E"} THEN 0 ELSE 1
Case == (Done /\ Emits) => PrintT("CASE " \o ToJson([tr |-> cs.tr, w |-> cs.w, sr |-> cs.sr, dr |-> cs.dr, s |-> cs.script, q |-> <<>>, pre |-> cs.pre, echo |-> cs.echo]))
=============================================================================
