---------------------------- MODULE MBusRequests ----------------------------
(***************************************************************************)
(* The telegrams of a master's requests, and which arguments are valid.    *)
(***************************************************************************)
EXTENDS MBusLine, MBusRecords, TLC

\* outcomes of a selection or probe
NOTHING == 0  SINGLE == 1  COLLISION == 2  PROBEERROR == -1

Primary(a) == a \in 0..255
NetworkLayer == 253  Reserved == {253, 254, 255}

Ping(a)     == [t |-> SHORT, c |-> 64, a |-> a]
Request(a)  == [t |-> SHORT, c |-> 91, a |-> a]               \* REQ_UD2, frame count bit not in use
RequestF(a, fcb) == [t |-> SHORT, c |-> 91 + 32 * fcb, a |-> a]
Selection(m) == [t |-> LONG, c |-> 115, a |-> NetworkLayer, ci |-> 82, d |-> AddressBytes(m)]
UserData(a, d) == [t |-> LONG, c |-> 83, a |-> a, ci |-> 81, d |-> d]
AppReset(a, s) == [t |-> LONG, c |-> 83, a |-> a, ci |-> 80, d |-> IF s < 0 THEN <<>> ELSE <<s>>]
Bauds == <<300, 600, 1200, 2400, 4800, 9600, 19200, 38400>>
BaudIx(r) == IF \E k \in 1..8 : Bauds[k] = r THEN CHOOSE k \in 1..8 : Bauds[k] = r ELSE 0
SetBaud(a, r) == [t |-> CONTROL, c |-> 83, a |-> a, ci |-> 183 + BaudIx(r)]

(* The telegram of a simple request x and whether its arguments are valid. *)
Valid(x) ==
  CASE x.op \in {"ping", "req"} -> Primary(x.addr)
    [] x.op = "ud"      -> Primary(x.addr) /\ x.null = 0 /\ Len(x.d) \in 1..MaxData
    [] x.op = "areset"  -> Primary(x.addr) /\ x.sub <= 255
    [] x.op = "baud"    -> Primary(x.addr) /\ BaudIx(x.rate) > 0
    [] x.op = "setaddr" -> Primary(x.addr) /\ Primary(x.new) /\ x.new \notin Reserved
    [] x.op = "selframe" -> IsAddress(x.m)
    [] x.op = "send"    -> TRUE
Telegram(x) ==
  CASE x.op = "ping" -> Ping(x.addr)
    [] x.op = "req" -> Request(x.addr)
    [] x.op = "ud" -> UserData(x.addr, x.d)
    [] x.op = "areset" -> AppReset(x.addr, x.sub)
    [] x.op = "baud" -> SetBaud(x.addr, x.rate)
    [] x.op = "setaddr" -> UserData(x.addr, <<1, 122, x.new>>)
    [] x.op = "selframe" -> Selection(x.m)
    [] x.op = "send" -> x.f
SimpleOps == {"ping", "req", "ud", "areset", "baud", "setaddr", "selframe", "send"}

NoFrame == [t |-> -1]
DigitCode(d) == 48 + d
Wild(c) == c \in {70, 102}
LeadDigits(c) == IF Wild(c) THEN [k \in 1..10 |-> 47 + k] ELSE <<c>>
=============================================================================
