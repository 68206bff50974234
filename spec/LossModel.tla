------------------------------ MODULE LossModel ------------------------------
(***************************************************************************)
(* Reading out a slave that honours the frame count bit over a line that   *)
(* loses and damages requests and answers, or delivers an answer late.     *)
(***************************************************************************)
EXTENDS MBusMaster, MBusSlaves, Json

CONSTANTS Telegrams, Retries, Emits

Tel(k, n) == <<1, 3, k>> \o (IF k < n THEN <<31>> ELSE <<>>)
TheSlave(n) == [prim |-> 5, sec |-> <<33, 67, 101, 7, 17, 34, 1, 6>>, tel |-> [k \in 1..n |-> Tel(k, n)], sel |-> FALSE, fcb |-> -1, ix |-> 1]
\* lost: failures in a row so far; worst: the longest run of them; late: bytes still under way
LStarts == { [tr |-> t, tty |-> 1, pre |-> <<>>, w |-> <<>>, echo |-> 1, sr |-> 1, dr |-> dr, cb |-> 0, fcb |-> 1,
              script |-> << [op |-> "rr", addr |-> 5, max |-> l] >>, env |-> [sl |-> TheSlave(n), late |-> <<>>, lost |-> 0, worst |-> 0]] :
              t \in {"tcp", "ser"}, n \in Telegrams, dr \in Retries, l \in {0, 2} }
LObs0(c) == <<>>
LSees(c, h, s) == TRUE
LObserve(c, h, s) == h \o s
Bump(en) == [en EXCEPT !.lost = @ + 1, !.worst = IF en.lost + 1 > @ THEN en.lost + 1 ELSE @]
Fine(en) == [en EXCEPT !.lost = 0]
Damage(a, p) == [a EXCEPT ![p] = @ ^^ 4]
LReact(c, h, en, d) ==
  LET r == Heard(d, <<en.sl>>)
      a == IF r.as = <<>> THEN <<>> ELSE r.as[1]
      heard == [en EXCEPT !.sl = r.pop[1], !.late = <<>>]
      deaf  == [en EXCEPT !.late = <<>>]
      Q(b) == IF b = <<>> THEN <<>> ELSE << Bytes(b) >>
      Out(e2, b, ok) == [q |-> Q(en.late \o b), env |-> IF ok \/ en.late # <<>> THEN Fine(e2) ELSE Bump(e2)]
  IN
  { Out(heard, a, TRUE), Out(deaf, <<>>, FALSE), Out(heard, <<>>, FALSE) }
  \cup { Out(heard, Damage(a, p), FALSE) : p \in {5, 6, Len(a) - 1, Len(a)} }
  \cup { Out(heard, SubSeq(a, 1, Len(a) - 1), FALSE) }
  \cup (IF en.late = <<>> /\ en.lost < c.dr THEN { [q |-> <<>>, env |-> Bump([en EXCEPT !.sl = r.pop[1], !.late = a])] } ELSE {})

---------------------------------------------------------------------------
Done == pc = "Done"
Ret == (SelectSeq(obs, LAMBDA e : e.e = "ret"))[1]
Sent == SelectSeq(obs, LAMBDA e : e.e = "tx")
Total == Len(cs.env.sl.tel)
Due == IF cs.script[1].max > 0 /\ cs.script[1].max < Total THEN cs.script[1].max ELSE Total
Content(f2) == SubSeq(f2.d, 13, Len(f2.d))

(* C10 *)
Complete == (Done /\ env.worst <= cs.dr) =>
  /\ Ret.v = 0
  /\ Len(Ret.ch) = Due
  /\ \A k \in 1..Due : Content(Ret.ch[k]) = Tel(k, Total)
GivesUp == (Done /\ env.worst > cs.dr) => Ret.v = -1 /\ Ret.ch = <<>>
OnlyRequests == \A k \in 1..Len(Sent) : Sent[k].d \in { Image(RequestF(5, 0)), Image(RequestF(5, 1)) }
\* at most dr repetitions for each telegram
Effort == Len(Sent) <= Due * (cs.dr + 1)
\* (the deep exploration identifies states that differ only in how they were reached)
View == <<cs, env, pc, bus, sp, sent, res, chain, stack, f, fcb, fails, num, Len(Sent), IF Sent = <<>> THEN <<>> ELSE Sent[Len(Sent)].d, IF Done THEN Ret ELSE NoFrame>>
Case == (Done /\ Emits) => PrintT("CASE " \o ToJson([tr |-> cs.tr, w |-> cs.w, sr |-> cs.sr, dr |-> cs.dr, s |-> cs.script, q |-> [k \in 1..Len(Sent) |-> Sent[k].q]]))
=============================================================================
