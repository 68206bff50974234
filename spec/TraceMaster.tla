----------------------------- MODULE TraceMaster -----------------------------
(***************************************************************************)
(* Recorded executions of the code, judged by the machine of MBusMaster:   *)
(* every line of the trace is one case, an initial state of its own; the   *)
(* machine may move only as the recorded events say.                       *)
(***************************************************************************)
EXTENDS MBusMaster, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

Ev(c) == c.ev
TStarts == LET all == Trace IN { all[k].i @@ [id |-> all[k].id, ev |-> all[k].ev, env |-> 0] : k \in 1..Len(all) }
TObs0(c) == 1
TSees(c, l, s) == l + Len(s) - 1 <= Len(Ev(c)) /\ \A j \in 1..Len(s) : Ev(c)[l + j - 1] = s[j]
TObserve(c, l, s) == l + Len(s)
TNow(c, l) == 1 + Len(SelectSeq(SubSeq(Ev(c), 1, l - 1), LAMBDA e : e.e = "tx"))
\* memory was refused since the call began (c.oom: how many events, plus one, had been recorded then), and a call may fail for it
Refused(c, l) == IF "oom" \in DOMAIN c THEN { c.oom[k] : k \in 1..Len(c.oom) } ELSE {}
Hit(c, l) == \E p \in Refused(c, l) : p <= l /\ \A j \in p..(l - 1) : Ev(c)[j].e # "call"
HitBefore(c, l) == FALSE
TSpec == Init /\ [][Next \/ Starve(Hit(cs, obs)) \/ GiveUp(HitBefore(cs, obs))]_vars
TReact(c, l, en, d) == IF l <= Len(Ev(c)) /\ Ev(c)[l].e = "tx" THEN { [q |-> Ev(c)[l].q, env |-> en] } ELSE {}

Accepted == (pc = "Done" /\ obs = Len(Ev(cs)) + 1) => PrintT("ACCEPT " \o ToString(cs.id))
Where == Diag => PrintT("AT " \o ToString(cs.id) \o " " \o ToString(obs))
\* states of different cases differ in the number of the case: that is enough to tell them apart
View == << cs.id, pc, obs, bus, wq, env, sp, x, sent, res, frm, chain, addr, said, stack, f, m, pm, tries, pos, sm, todo, ra, limit, fcb, fails, num, prim, ta, tm >>
=============================================================================
