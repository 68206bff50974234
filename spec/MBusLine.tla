------------------------------- MODULE MBusLine -------------------------------
(***************************************************************************)
(* The transport as a master sees it: a queue of what will still be read   *)
(* (bytes in whatever pieces, silences, interruptions, failures, the end), *)
(* and what one receive makes of it.                                       *)
(***************************************************************************)
EXTENDS MBusFrame

OK == 0  ERROR == -1  INVALID == -2  TIMEOUT == -3  RESET == -4

\* queue items: bytes "B", silence "T", interrupted read "I", read failure "E", end of stream "Z" (for good)
Bytes(d) == [k |-> "B", d |-> d]
Mark(k) == [k |-> k, d |-> <<>>]

LeftBytes(q) == FoldLeft(LAMBDA n, x : n + Len(x.d), 0, q)
TcpKind == 0   SerialKind == 1
Kind(c) == IF c.tr = "tcp" THEN TcpKind ELSE SerialKind

Least(a, b) == IF a < b THEN a ELSE b
\* how many bytes are certain to belong to the telegram whose beginning is b
Wanted(b) == IF b = <<>> THEN 1 ELSE Decide(b).r

(* One receive on the device.  b: bytes taken so far, n: silences so far.  *)
(* The result: code r, telegram f, remaining queue q, reported bytes b     *)
(* (meaningful when rep is TRUE).                                          *)
Ended(r, q, b, rep) == [r |-> r, f |-> [t |-> ANY], q |-> q, b |-> b, rep |-> rep]
Taken(q, b) == LET v == Decide(b) IN
  IF v.r = 0 THEN [r |-> OK, f |-> v.f, q |-> q, b |-> b, rep |-> TRUE] ELSE Ended(INVALID, q, b, TRUE)

RECURSIVE TcpRecv(_, _)
TcpRecv(q, b) ==
  IF q = <<>> THEN Ended(TIMEOUT, q, b, FALSE)
  ELSE LET x == Head(q) IN
  CASE x.k = "T" -> Ended(TIMEOUT, Tail(q), b, FALSE)
    [] x.k = "E" -> Ended(ERROR, Tail(q), b, FALSE)
    [] x.k = "Z" -> Ended(RESET, q, b, FALSE)
    [] x.k = "I" -> TcpRecv(Tail(q), b)
    [] x.k = "B" ->
         LET n == Least(Wanted(b), Len(x.d))
             b2 == b \o SubSeq(x.d, 1, n)
             q2 == IF n = Len(x.d) THEN Tail(q) ELSE <<Bytes(SubSeq(x.d, n + 1, Len(x.d)))>> \o Tail(q)
         IN IF Decide(b2).r > 0 THEN TcpRecv(q2, b2) ELSE Taken(q2, b2)

RECURSIVE SerialRecv(_, _, _)
SerialRecv(q, b, n) ==
  LET silent == q = <<>> \/ Head(q).k \in {"T", "Z"}
      rest == IF q # <<>> /\ Head(q).k = "T" THEN Tail(q) ELSE q
  IN
  IF silent THEN
       IF b = <<>> THEN Ended(TIMEOUT, rest, b, FALSE)
       ELSE IF n + 1 = 3 THEN Ended(INVALID, rest, b, TRUE)
       ELSE SerialRecv(rest, b, n + 1)
  ELSE LET x == Head(q) IN
  CASE x.k \in {"E", "I"} -> Ended(ERROR, Tail(q), b, FALSE)
    [] x.k = "B" ->
         LET m == Least(Wanted(b), Len(x.d))
             b2 == b \o SubSeq(x.d, 1, m)
             q2 == IF m = Len(x.d) THEN Tail(q) ELSE <<Bytes(SubSeq(x.d, m + 1, Len(x.d)))>> \o Tail(q)
         IN IF Decide(b2).r > 0 THEN SerialRecv(q2, b2, n) ELSE Taken(q2, b2)

DeviceRecv(c, q) ==
  IF c.tr = "tcp" THEN TcpRecv(q, <<>>)
  ELSE IF c.tty = 0 THEN Ended(ERROR, q, <<>>, FALSE)
  ELSE SerialRecv(q, <<>>, 0)

\* what the receive callback is told
Reported(c, x) == IF x.rep /\ c.cb = 1 THEN << [e |-> "rcb", k |-> Kind(c), d |-> x.b] >> ELSE <<>>

(* A receive of the library: at most one leading telegram of the direction *)
(* that is to be ignored (echo: 0 none, 1 master to slave, 2 slave to      *)
(* master) is discarded.                                                   *)
Ignored(c, f) == (c.echo = 1 /\ FromMaster(f)) \/ (c.echo = 2 /\ ~FromMaster(f))
Recv(c, q) ==
  LET x == DeviceRecv(c, q) IN
  IF x.r = OK /\ Ignored(c, x.f)
  THEN LET y == DeviceRecv(c, x.q) IN [r |-> y.r, f |-> y.f, q |-> y.q, evs |-> Reported(c, x) \o Reported(c, y)]
  ELSE [r |-> x.r, f |-> x.f, q |-> x.q, evs |-> Reported(c, x)]

(* Draining: receive until silence or failure.                             *)
RECURSIVE Drain(_, _, _, _)
Drain(c, q, got, evs) ==
  LET x == Recv(c, q) IN
  IF x.r \in {OK, INVALID} THEN Drain(c, x.q, TRUE, evs \o x.evs)
  ELSE [got |-> got, r |-> x.r, q |-> x.q, evs |-> evs \o x.evs]
Purge(c, q) == Drain(c, q, FALSE, <<>>)

\* the telegrams a send may put on the line, and the failure to encode one
CanSend(c, f) == (c.tr = "tcp" \/ c.tty = 1) /\ Encode(f, 2048).r >= 0
=============================================================================
