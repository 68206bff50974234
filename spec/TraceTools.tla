----------------------------- MODULE TraceTools -----------------------------
(***************************************************************************)
(* Recorded runs of the command line programs: what they put on the line,  *)
(* what they printed and how they ended.  The other side of the line is    *)
(* either the recorded reactions or, when a population of slaves is given, *)
(* the slaves as MBusSlaves prescribes them; then what a program achieved  *)
(* is judged on the population itself.                                     *)
(***************************************************************************)
EXTENDS MBusMaster, Json, IOUtils
SL == INSTANCE MBusSlaves
U == INSTANCE MBusUsage

Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

Ev(c) == c.ev
Peopled(c) == "pop" \in DOMAIN c
\* the program that the words of the command line ask for
Word(y, n, else) == IF n \in DOMAIN y THEN y[n] ELSE else
Asked(p, y) == [name |-> p.name, tr |-> p.tr, open |-> p.open, tcs |-> p.tcs, here |-> p.here, place |-> y.place, port |-> Word(y, "port", <<>>), baud |-> Word(y, "baud", <<57, 54, 48, 48>>),
  retries |-> Word(y, "retries", <<48>>), addr |-> Word(y, "addr", [k \in 1..16 |-> 70]), new |-> Word(y, "new", <<>>), rate |-> Word(y, "rate", <<>>), sub |-> Word(y, "sub", <<>>),
  max |-> IF "max" \in DOMAIN y THEN Number(y.max) ELSE 16, raw |-> IF "file" \in DOMAIN y THEN p.file ELSE p.stdin]
Wrong(p) == [name |-> "usage", tr |-> p.tr, open |-> p.open, tcs |-> p.tcs, here |-> p.here, place |-> <<>>, port |-> <<48>>, baud |-> <<48>>]
Started(t, p, debug, n) == [id |-> t.id, ev |-> t.ev, env |-> IF Peopled(t.i) THEN t.i.pop ELSE 0, prog |-> p, verbose |-> debug, way |-> n,
  sr |-> IF p.name = "scan" THEN (IF Number(p.retries) \in 0..9 THEN Number(p.retries) ELSE 0) ELSE 1] @@ t.i
StartsOf(t) == LET p == t.i.prog  ys == U!Meanings(p.name, p.tr, p.words) IN
  IF ys = {} THEN { Started(t, Wrong(p), 0, {}) } ELSE { Started(t, Asked(p, y), IF "debug" \in DOMAIN y THEN 1 ELSE 0, DOMAIN y) : y \in ys }
TStarts == LET all == Trace IN UNION { StartsOf(all[k]) : k \in 1..Len(all) }
TObs0(c) == 1
\* how a run ended: exit status, what was printed, the speed of the line and where the connection went
Spoke(c) == \E k \in 1..Len(Ev(c)) : Ev(c)[k].e \in {"tx", "txfail"}
\* run with its debug option, a program says the same among other things
Printed(c, o) == IF c.verbose = 1 THEN o.dbg ELSE o
ExitOk(c, want, o) ==
  /\ want.rc = Ignore \/ want.rc = o.rc
  \* who claims to have looked at every address without having said anything was refused memory at each of them
  /\ "refusals" \in DOMAIN c /\ c.prog.name = "scan" /\ o.rc = 0 /\ ~Spoke(c) => c.refusals > LastAddress(c.prog)
  /\ LET p == Printed(c, o) IN IF want.doc.ok THEN X!DocOk(want.doc, p) ELSE p.out = want.out
  /\ Spoke(c) => IF c.tr = "ser" THEN o.rate = Number(c.prog.baud) ELSE o.port = ToString(Number(c.prog.port))
OneOk(c, e, o) == IF e.e = "exit" THEN o.e = "exit" /\ ExitOk(c, e, o) ELSE e = o
TSees(c, l, s) == l + Len(s) - 1 <= Len(Ev(c)) /\ \A j \in 1..Len(s) : OneOk(c, s[j], Ev(c)[l + j - 1])
TObserve(c, l, s) == l + Len(s)
TNow(c, l) == 1 + Len(SelectSeq(SubSeq(Ev(c), 1, l - 1), LAMBDA e : e.e = "tx"))
\* memory was refused since the call began (c.oom: how many events, plus one, had been recorded then), and a call may fail for it
Refused(c, l) == IF "oom" \in DOMAIN c THEN { c.oom[k] : k \in 1..Len(c.oom) } ELSE {}
Hit(c, l) == l \in Refused(c, l)
HitBefore(c, l) == \E p \in Refused(c, l) : p <= l
TSpec == Init /\ [][Next \/ Starve(Hit(cs, obs)) \/ GiveUp(HitBefore(cs, obs))]_vars
TReact(c, l, en, d) ==
  IF Peopled(c) THEN LET r == SL!Heard(d, en) IN { [q |-> IF r.as = <<>> THEN <<>> ELSE << Bytes(SL!Together(c.cm, r.as)) >>, env |-> r.pop] }
  ELSE IF l <= Len(Ev(c)) /\ Ev(c)[l].e = "tx" THEN { [q |-> Ev(c)[l].q, env |-> en] } ELSE {}

---------------------------------------------------------------------------
\* what was achieved among slaves
At(pop, a) == { k \in 1..Len(pop) : pop[k].prim = a }
FinalEv(c) == Ev(c)[Len(Ev(c))]
FoundLine(a) == "Found a M-Bus device at address " \o ToString(a)
ClashLine(a) == "Collision at address " \o ToString(a)
Line(c, s) == LET p == Printed(c, FinalEv(c)) IN \E k \in 1..Len(p.lines) : p.lines[k].s = s
\* every address with a slave is listed and no other; two slaves are told from one unless their answers look like one
ScanAchieves(c) == \A a \in 0..LastAddress(c.prog) :
  LET n == Cardinality(At(c.pop, a)) IN
  /\ n = 0 => ~Line(c, FoundLine(a)) /\ ~Line(c, ClashLine(a))
  /\ n = 1 => Line(c, FoundLine(a)) /\ ~Line(c, ClashLine(a))
  /\ n > 1 => Line(c, FoundLine(a)) # Line(c, ClashLine(a)) /\ (c.cm \in {0, 2} => Line(c, ClashLine(a)))
Matching(c) == { k \in 1..Len(c.pop) : SL!SelectedBy(AddressBytes(c.prog.addr), c.pop[k]) }
Meant(c) == IF Secondary(c.prog) THEN Matching(c) ELSE IF Number(c.prog.addr) = 254 THEN 1..Len(c.pop) ELSE At(c.pop, Number(c.prog.addr))
\* an address that is in use is not given a second time; what is announced happened
Short(c) == "oom" \in DOMAIN c              \* memory was refused: the program may fail, but not claim what is not so
SetAchieves(c) == LET new == Number(c.prog.new) IN
  IF FinalEv(c).rc = 0 THEN
    /\ At(c.pop, new) = {}
    /\ Meant(c) # {}
    /\ \A k \in 1..Len(c.pop) : env[k].prim = IF k \in Meant(c) THEN new ELSE c.pop[k].prim
  ELSE (~Short(c) /\ Cardinality(Meant(c)) = 1 /\ At(c.pop, new) = {} /\ c.w = <<>> /\ (Secondary(c.prog) \/ Number(c.prog.addr) \in 0..250) /\ Primary(new) /\ new \notin Reserved) => FALSE
Achieves(c) == (Peopled(c) /\ SetUp(c.prog) /\ ArgumentsOk(c.prog)) =>
  CASE c.prog.name = "scan" -> c.w = <<>> /\ ~Short(c) => ScanAchieves(c)
    [] c.prog.name = "set" -> SetAchieves(c)
    [] c.prog.name \in {"read", "readall"} -> c.w = <<>> =>
         /\ FinalEv(c).rc = 0 => Meant(c) # {}
         /\ (~Short(c) /\ Cardinality(Meant(c)) = 1) => FinalEv(c).rc = 0
    [] OTHER -> TRUE

Accepted == (pc = "Done" /\ obs = Len(Ev(cs)) + 1) =>
  IF Achieves(cs) THEN PrintT("ACCEPT " \o ToString(cs.id))
  ELSE PrintT("REJECT " \o ToString(cs.id) \o " the program did not achieve what it is for among these slaves")
Where == Diag => PrintT("AT " \o ToString(cs.id) \o " " \o ToString(obs))
\* states of different cases differ in the number of the case: that is enough to tell them apart
View == << cs.id, cs.way, pc, obs, bus, wq, env, sp, x, sent, res, frm, chain, addr, said, stack, f, m, pm, tries, pos, sm, todo, ra, limit, fcb, fails, num, prim, ta, tm >>
=============================================================================
