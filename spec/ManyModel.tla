------------------------------ MODULE ManyModel ------------------------------
(***************************************************************************)
(* Several handles of one process, their calls interleaved at will.  They  *)
(* share nothing but the timeout of TCP connections to come: what a call   *)
(* on one of them shows is what it would show were the handle alone.  The  *)
(* behaviours are executed by the code; each handle's part of a recorded   *)
(* history is then judged by itself (TraceHandle, TraceMaster).            *)
(***************************************************************************)
EXTENDS MBusHandle, Json

CONSTANTS Handles, Depth, Emits, Pairs
AllPairs == { << "tcp", "tcp" >>, << "tcp", "ser" >>, << "ser", "ser" >> }
Three == { << "tcp", "ser", "ser" >> }
VARIABLES hs, log, opl, tcl
vars == << hs, log, opl, tcl >>

Calls(s) ==
  IF ~s.h THEN { [op |-> "new", tr |-> s.tr, place |-> "", port |-> 0] }
  ELSE { [op |-> "free"], [op |-> "recv"], [op |-> "probe", m |-> << 49, 50, 51, 52, 53, 54, 55, 56, 65, 65, 66, 66, 48, 49, 48, 50 >>], [op |-> "rr", addr |-> 5] }
       \cup (IF s.fd = None THEN { [op |-> "connect"] } ELSE { [op |-> "disconnect"] })
       \cup (IF s.tr = "ser" THEN { [op |-> "setbaud", rate |-> r] : r \in {300, 38400} } ELSE { [op |-> "tmo", ms |-> 250] })
       \cup { [op |-> "opt", o |-> DataRetries, n |-> 0], [op |-> "opt", o |-> SearchRetries, n |-> 2], [op |-> "opt", o |-> EchoKind, n |-> 0] }
\* every handle is there and connected to begin with
Begun(tr) == CHOOSE s \in { o.st : o \in { q \in Connect([NoHandle EXCEPT !.h = TRUE, !.tr = tr]) : q.ob.v = 0 /\ Len(q.op) = 1 } } : TRUE
Init == /\ \E p \in Pairs : hs = [k \in Handles |-> Begun(p[k])]
        /\ log = <<>> /\ opl = [k \in Handles |-> <<"o">>] /\ tcl = [k \in Handles |-> IF hs[k].tr = "ser" THEN <<"o">> ELSE <<>>]
\* a handle that is gone keeps its transport: the next one on that line is of the same kind
Kept(old, new) == IF new.h THEN new ELSE [new EXCEPT !.tr = old.tr]
Next == /\ Len(log) < Depth
        /\ \E k \in Handles : \E c \in Calls(hs[k]) : \E o \in After(hs[k], c) :
             /\ hs' = [j \in Handles |-> IF j = k THEN Kept(hs[k], o.st) ELSE [hs[j] EXCEPT !.tmo = o.st.tmo]]
             /\ log' = Append(log, [k |-> k, c |-> c, ob |-> o.ob]) /\ opl' = [opl EXCEPT ![k] = @ \o o.op] /\ tcl' = [tcl EXCEPT ![k] = @ \o o.tc]
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the part of the history that concerns a handle: its own calls, and the timeouts anyone set
Part(k) == SelectSeq(log, LAMBDA e : e.k = k \/ e.c.op = "tmo")
RECURSIVE Reach(_, _)
Reach(S, p) == IF p = <<>> THEN S
               ELSE Reach(UNION { { Kept(s, o.st) : o \in { q \in After(s, Head(p).c) : q.ob = Head(p).ob } } : s \in S }, Tail(p))
\* alone, with only its part of the history, the handle shows the same and ends in the same state
Alone == \A k \in Handles : hs[k] \in Reach({ Begun(hs[k].tr) }, Part(k))
\* the same, said of single observations and without the state
Own(k, n, P(_)) == LET S == { j \in 1..(n - 1) : log[j].k = k /\ P(log[j]) } IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A i \in S : i <= j
Repeats == \A n \in 1..Len(log) : log[n].c.op = "probe" /\ log[n].ob.tx # <<>> =>
  LET k == log[n].k j == Own(k, n, LAMBDA e : (e.c.op = "opt" /\ e.c.o = SearchRetries) \/ e.c.op = "new") IN Len(log[n].ob.tx) = 1 + (IF j = 0 THEN 1 ELSE IF log[j].c.op = "new" THEN 1 ELSE log[j].c.n)
Timeouts == \A n \in 1..Len(log) : log[n].ob.tmo # {} =>
  LET S == { j \in 1..(n - 1) : log[j].c.op = "tmo" /\ log[j].ob.v = 0 } IN \A t \in log[n].ob.tmo : t.ms = IF S = {} THEN DefaultTimeout ELSE 250
\* a handle transmits only if its own descriptor is open, whatever the others have
Connected == \A n \in 1..Len(log) : log[n].ob.tx # <<>> =>
  LET k == log[n].k j == Own(k, n, LAMBDA e : e.c.op \in {"disconnect", "free", "new"} \/ (e.c.op = "connect")) IN j = 0 \/ (log[j].c.op = "connect" /\ log[j].ob.v = 0)
Case == (Len(log) = Depth /\ Emits) => PrintT("CASE " \o ToJson([s |-> [n \in 1..Len(log) |-> [k |-> log[n].k, c |-> log[n].c]], tr |-> [k \in Handles |-> hs[k].tr], o |-> opl, t |-> tcl]))
=============================================================================
