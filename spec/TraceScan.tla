------------------------------ MODULE TraceScan ------------------------------
(***************************************************************************)
(* Recorded scans of a population of simulated slaves.  The slaves are     *)
(* part of the specification: what they put on the line is not taken from  *)
(* the recording but prescribed, and the property of a scan is required of *)
(* the recorded history besides its being one the machine can produce.     *)
(***************************************************************************)
EXTENDS MBusMaster, MBusSlaves, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

Ev(c) == c.ev
TStarts == LET all == Trace IN { all[k].i @@ [id |-> all[k].id, ev |-> all[k].ev, env |-> all[k].i.pop] : k \in 1..Len(all) }
TObs0(c) == 1
TSees(c, l, s) == l + Len(s) - 1 <= Len(Ev(c)) /\ \A j \in 1..Len(s) : Ev(c)[l + j - 1] = s[j]
TObserve(c, l, s) == l + Len(s)
TNow(c, l) == 1 + Len(SelectSeq(SubSeq(Ev(c), 1, l - 1), LAMBDA e : e.e = "tx"))
\* memory was refused since the call began (c.oom: how many events, plus one, had been recorded then), and a call may fail for it
Refused(c, l) == IF "oom" \in DOMAIN c THEN { c.oom[k] : k \in 1..Len(c.oom) } ELSE {}
Hit(c, l) == \E p \in Refused(c, l) : p <= l /\ \A j \in p..(l - 1) : Ev(c)[j].e # "call"
HitBefore(c, l) == FALSE
TSpec == Init /\ [][Next \/ Starve(Hit(cs, obs)) \/ GiveUp(HitBefore(cs, obs))]_vars
TReact(c, l, en, d) == LET r == Heard(d, en) IN { [q |-> IF r.as = <<>> THEN <<>> ELSE << Bytes(Together(c.cm, r.as)) >>, env |-> r.pop] }

Start == cs.script[1]
Separable == Len(Start.m) = 16 /\ Start.pos \in 0..15 /\ \A k \in 1..Start.pos : ~Wild(Start.m[k])
RetOf(c) == (SelectSeq(Ev(c), LAMBDA e : e.e = "ret"))[1]
FoundIn(c) == LET s == SelectSeq(Ev(c), LAMBDA e : e.e = "found") IN [k \in 1..Len(s) |-> SecondaryBytes(s[k].f)]
Matching(c) == { c.pop[k].sec : k \in { j \in 1..Len(c.pop) : SelectedBy(AddressBytes(Start.m), c.pop[j]) } }
ScanRight == (Separable /\ cs.fcb = 1) =>
  /\ \A a, b \in 1..Len(FoundIn(cs)) : a # b => FoundIn(cs)[a] # FoundIn(cs)[b]
  /\ ToSet(FoundIn(cs)) \subseteq Matching(cs)
  /\ RetOf(cs).v = 0 => Matching(cs) \subseteq ToSet(FoundIn(cs))

Accepted == (pc = "Done" /\ obs = Len(Ev(cs)) + 1) =>
  IF ScanRight THEN PrintT("ACCEPT " \o ToString(cs.id))
  ELSE PrintT("REJECT " \o ToString(cs.id) \o " the devices found are not those that match")
Where == Diag => PrintT("AT " \o ToString(cs.id) \o " " \o ToString(obs))
\* states of different cases differ in the number of the case: that is enough to tell them apart
View == << cs.id, pc, obs, bus, wq, env, sp, x, sent, res, frm, chain, addr, said, stack, f, m, pm, tries, pos, sm, todo, ra, limit, fcb, fails, num, prim, ta, tm >>
=============================================================================
