----------------------------- MODULE HandleModel -----------------------------
(***************************************************************************)
(* Every life of a handle up to a length, with every refusal the           *)
(* environment may make.  The guarantees are stated over what was observed,*)
(* without reference to the handle's state.                                *)
(***************************************************************************)
EXTENDS MBusHandle, Json

CONSTANTS Depth, Emits, Twice, Transports, Focus, Places
VARIABLES st, log, opl, tcl

New(trs) == { [op |-> "new", tr |-> t, place |-> p.place, port |-> p.port] : t \in trs, p \in Places }
OnePlace == { [place |-> "gateway.test", port |-> 10001] }
FewPlaces == OnePlace \cup { [place |-> "10.1.2.3", port |-> 9], [place |-> "/dev/ttyUSB0", port |-> 65535] }
\* only what is interesting in some state; connecting twice only where asked for
Calls(s) ==
  IF Focus = "place" THEN (IF ~s.h THEN New({"tcp", "ser"}) ELSE { [op |-> "free"] } \cup (IF s.fd = None THEN { [op |-> "connect"] } ELSE { [op |-> "disconnect"] }))
  ELSE IF Focus = "line" THEN (IF ~s.h THEN New({"ser"}) ELSE { [op |-> "setbaud", rate |-> r] : r \in {300, 600, 2400, 9600, 115200} } \cup (IF s.fd = None THEN { [op |-> "connect"] } ELSE { [op |-> "disconnect"] }))
  ELSE IF ~s.h THEN New(Transports) \cup { [op |-> "null"] }
  ELSE { [op |-> "disconnect"], [op |-> "free"], [op |-> "ping", addr |-> 5], [op |-> "recv"] }
       \cup (IF s.fd = None \/ Twice THEN { [op |-> "connect"] } ELSE {})
       \cup (IF s.tr = "ser" THEN { [op |-> "setbaud", rate |-> r] : r \in {300, 38400, 115200} } ELSE { [op |-> "tmo", ms |-> n] : n \in {-1, 250} })
       \cup { [op |-> "opt", o |-> DataRetries, n |-> 1], [op |-> "opt", o |-> SearchRetries, n |-> 10], [op |-> "opt", o |-> EchoKind, n |-> 0] }
Init == st = NoHandle /\ log = <<>> /\ opl = <<>> /\ tcl = <<>>
Next == Len(log) < Depth /\ \E c \in Calls(st) : \E o \in After(st, c) :
          st' = o.st /\ log' = Append(log, [c |-> c, ob |-> o.ob]) /\ opl' = opl \o o.op /\ tcl' = tcl \o o.tc
Spec == Init /\ [][Next]_<<st, log, opl, tcl>>

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Fds == Flat([k \in 1..Len(log) |-> log[k].ob.fds])
\* every descriptor is closed at most once, after it was opened, and opened once
ClosedOnce == \A a, b \in 1..Len(Fds) : (Fds[a].e = "close" /\ Fds[b].e = "close" /\ Fds[a].fd = Fds[b].fd) => a = b
ClosesItsOwn == \A a \in 1..Len(Fds) : Fds[a].e = "close" => \E b \in 1..(a - 1) : Fds[b] = Opened(Fds[a].fd)
StillOpen(n) == LET upto == Flat([k \in 1..n |-> log[k].ob.fds]) IN
  { d \in 0..100 : (\E a \in 1..Len(upto) : upto[a] = Opened(d)) /\ ~\E a \in 1..Len(upto) : upto[a] = Closed(d) }
\* at most one descriptor when nobody connects twice, none after a failed connect or a disconnect
OneDescriptor == ~Twice => \A n \in 1..Len(log) :
  LET l == log[n] IN /\ Cardinality(StillOpen(n) \ StillOpen(0)) <= 1 + Cardinality({ k \in 1..(n - 1) : log[k].c.op = "free" })
                     /\ (l.c.op = "connect" /\ l.ob.v # 0) => StillOpen(n) = (IF n = 1 THEN {} ELSE StillOpen(n - 1))
                     /\ (l.c.op = "connect" /\ l.ob.v = 0) => Cardinality(StillOpen(n)) = Cardinality(StillOpen(n - 1)) + 1
                     /\ (l.c.op = "disconnect" /\ l.ob.v = 0) => Cardinality(StillOpen(n)) = Cardinality(StillOpen(n - 1)) - 1
                     /\ (l.c.op = "disconnect" /\ l.ob.v # 0) => l.ob.fds = <<>>
\* a disconnect succeeds exactly when the last connect of this handle succeeded and was not undone
Since(n) == { k \in 1..(n - 1) : log[k].c.op \in {"new", "connect", "disconnect"} /\ (log[k].c.op = "connect" => TRUE) }
LastOf(S) == CHOOSE k \in S : \A j \in S : j <= k
DisconnectRight == ~Twice => \A n \in 1..Len(log) : log[n].c.op = "disconnect" =>
  (log[n].ob.v = 0 <=> LET k == LastOf(Since(n)) IN log[k].c.op = "connect" /\ log[k].ob.v = 0)
\* the line is set when connecting and by a supported rate, and only so
LineRight == \A n \in 1..Len(log) : LET l == log[n] IN
  /\ l.ob.line # NoLine => l.c.op \in {"connect", "setbaud"} /\ l.ob.line = LineAt(IF l.c.op = "connect" THEN 2400 ELSE l.c.rate)
  /\ l.ob.refused => l.ob.v # 0
\* a connection goes to the place of the last handle made, its port in decimal digits, and to the addresses of the host in turn until one accepts
PlaceOf(n) == log[LastOf({ k \in 1..(n - 1) : log[k].c.op = "new" })].c
GoesThere == \A n \in 1..Len(log) : LET l == log[n] IN
  IF l.c.op # "connect" THEN l.ob.res = <<>> /\ l.ob.dev = <<>> /\ l.ob.to = <<>>
  ELSE (Twice /\ l.ob.v # 0) \/ LET p == PlaceOf(n) IN
    IF p.tr = "ser" THEN l.ob.dev = << p.place >> /\ l.ob.res = <<>> /\ l.ob.to = <<>>
    ELSE /\ l.ob.dev = <<>> /\ l.ob.res = << [h |-> p.place, p |-> ToString(p.port)] >>
         /\ \A a, b \in 1..Len(l.ob.to) : a < b => l.ob.to[a] < l.ob.to[b]
         /\ l.ob.v = 0 => l.ob.to # <<>>
         /\ (l.ob.v # 0 /\ l.ob.free = 1) => Len(SelectSeq(l.ob.fds, LAMBDA e : e = OpenFails)) + Len(l.ob.to) = Addresses
\* nothing is transmitted without a connection
Transmits == \A n \in 1..Len(log) : log[n].ob.tx # <<>> => StillOpen(n) # {}
Case == (Len(log) = Depth /\ Emits) => PrintT("CASE " \o ToJson([s |-> [k \in 1..Len(log) |-> log[k].c], o |-> opl, t |-> tcl]))
=============================================================================
