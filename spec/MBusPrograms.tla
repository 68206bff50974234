---------------------------- MODULE MBusPrograms ----------------------------
(***************************************************************************)
(* The command line programs, as programs of calls of the library: where a *)
(* program stands (a record [at, ...]), the call it makes there, and what  *)
(* it does with the outcome.  A program is                                 *)
(*   p = [name, tr, open, tcs, baud, ...]                                  *)
(* with its arguments as the texts (character codes) that were given; open *)
(* and tcs are the fates of opening and configuring the connection, in     *)
(* order ("o" works, "n" the name is unknown, all others are refused);     *)
(* here is the name of the device or host there is, place the one named.   *)
(* All programs of a kind are one program: over serial lines they take a   *)
(* baud rate, over TCP a port.                                             *)
(***************************************************************************)
EXTENDS MBusRequests
X == INSTANCE MBusXml

IsProgram(c) == "prog" \in DOMAIN c
Ignore == -1                                    \* an exit status that is not prescribed

\* the number a text starts with, 0 if it does not start with one
IsDigit(c) == c \in 48..57
RECURSIVE Digits10(_, _, _)
Digits10(t, k, v) == IF k > Len(t) THEN v ELSE IF ~IsDigit(t[k]) THEN v ELSE Digits10(t, k + 1, 10 * v + t[k] - 48)
RECURSIVE Number(_)
Number(t) == IF t = <<>> THEN 0
             ELSE IF X!White(t[1]) THEN Number(Tail(t))
             ELSE IF t[1] = 45 THEN 0 - Digits10(t, 2, 0) ELSE IF t[1] = 43 THEN Digits10(t, 2, 0) ELSE Digits10(t, 1, 0)

GatewayAddresses == 2
\* the connection is established, and set to the baud rate asked for
LetterAt(s, k) == IF k <= Len(s) THEN s[k] ELSE "o"
Connects(p) ==
  p.place = p.here /\
  IF p.tr = "ser" THEN LetterAt(p.open, 1) = "o" /\ LetterAt(p.tcs, 1) = "o"
  ELSE LetterAt(p.open, 1) # "n" /\ \E k \in 1..GatewayAddresses : LetterAt(p.open, k) = "o"
SetUp(p) == Connects(p) /\ (p.tr = "ser" => BaudIx(Number(p.baud)) > 0 /\ LetterAt(p.tcs, 2) = "o")
ArgumentsOk(p) ==
  /\ p.tr = "tcp" => Number(p.port) \in 0..65535
  /\ CASE p.name = "scan" -> Number(p.retries) \in 0..9
       [] p.name \in {"scan2", "select2"} -> IsAddress(p.addr)
       [] p.name = "set" -> Primary(Number(p.new)) /\ Number(p.new) \notin Reserved
       [] OTHER -> TRUE

Exit(rc) == [at |-> "exit", rc |-> rc, doc |-> X!NoDoc]
LastAddress(p) == IF "last" \in DOMAIN p THEN p.last ELSE 250

First(c) ==
  IF ~IsProgram(c) THEN 1
  ELSE LET p == c.prog IN
  IF p.name = "usage" THEN Exit(Ignore)                                  \* wrong usage: nothing is done
  ELSE IF ~ArgumentsOk(p) \/ ~SetUp(p) THEN Exit(1)
  ELSE CASE p.name = "scan" -> [at |-> "ping", a |-> 0, n |-> 0, bad |-> FALSE]
         [] p.name \in {"scan2", "set", "readall"} \/ (p.name = "read" /\ p.tr = "ser") -> [at |-> "init1"]
         [] p.name \in {"read", "reset", "raw"} -> [at |-> "select"]
         [] p.name = "select2" -> [at |-> "choose"]
         [] p.name = "baud" -> [at |-> "command"]

\* a secondary address is selected first, and then spoken to at the network layer address
Secondary(p) == IsAddress(p.addr)
Target(p) == IF Secondary(p) THEN NetworkLayer ELSE Number(p.addr)
RawBytes(p) == X!Pairs(p.raw, 1, 255)
Nothing == [op |-> "none"]

Goes(c, sp) == IF IsProgram(c) THEN sp.at # "exit" ELSE sp <= Len(c.script)
CallAt(c, sp) ==
  IF ~IsProgram(c) THEN c.script[sp]
  ELSE LET p == c.prog IN
  CASE sp.at = "ping" -> [op |-> "ping", addr |-> sp.a, purge |-> 0]
    [] sp.at \in {"hear", "silence", "answer", "ack", "chosen"} -> [op |-> "recv"]
    [] sp.at = "drain" -> [op |-> "purge"]
    [] sp.at = "init1" -> [op |-> "ping", addr |-> NetworkLayer, purge |-> 1]
    [] sp.at = "init2" -> [op |-> "ping", addr |-> IF p.name = "scan2" THEN 255 ELSE NetworkLayer, purge |-> 1]
    [] sp.at = "search" -> [op |-> "scan", pos |-> 0, m |-> p.addr]
    [] sp.at = "knock" -> [op |-> "ping", addr |-> Number(p.new), purge |-> 0]
    [] sp.at = "select" -> IF Secondary(p) THEN [op |-> "select", m |-> p.addr] ELSE Nothing
    [] sp.at = "choose" -> [op |-> "selframe", m |-> p.addr]
    [] sp.at = "ask" -> [op |-> "req", addr |-> IF p.name = "select2" THEN NetworkLayer ELSE Target(p)]
    [] sp.at = "askall" -> [op |-> "rr", addr |-> Target(p), max |-> p.max]
    [] sp.at = "command" -> (CASE p.name = "set" -> [op |-> "setaddr", addr |-> Target(p), new |-> Number(p.new)]
                               [] p.name = "baud" -> [op |-> "baud", addr |-> Number(p.addr), rate |-> Number(p.rate)]
                               [] p.name = "reset" -> [op |-> "areset", addr |-> Target(p), sub |-> IF p.sub = <<>> THEN -1 ELSE Number(p.sub)]
                               [] p.name = "raw" -> LET v == Decide(RawBytes(p)) IN IF v.r = 0 THEN [op |-> "send", f |-> v.f] ELSE Nothing)

Done2(rc, out) == [sp |-> Exit(rc), out |-> out]
Go(at) == [sp |-> [at |-> at], out |-> ""]
Shows(doc) == IF doc.ok THEN [sp |-> [at |-> "exit", rc |-> 0, doc |-> doc], out |-> ""] ELSE Done2(1, "")
NextScan(p, sp, bad, out) ==
  IF sp.a = LastAddress(p) THEN [sp |-> Exit(IF bad THEN Ignore ELSE 0), out |-> out]
  ELSE [sp |-> [at |-> "ping", a |-> sp.a + 1, n |-> 0, bad |-> bad], out |-> out]
Acked(p) == CASE p.name = "set" -> "Set primary address of device to " \o ToString(Number(p.new)) \o "%0A"
              [] p.name = "baud" -> "Switched baud rate of device to " \o ToString(Number(p.rate)) \o "%0A"
              [] p.name = "reset" -> "Successful reset device" \o (IF p.sub # <<>> /\ Number(p.sub) > -1 THEN " (Subcode: " \o ToString(Number(p.sub)) \o ")" ELSE "") \o "%0A"

\* the n-th moment of a run
Moment(n) == X!MomentOf(1700000000 + 61 * (n - 1))
\* where the program goes from sp when the call had result res, telegram frm (ANY when there is none), replies chain; and what it prints
NextAt(c, sp, res, frm, chain) ==
  IF ~IsProgram(c) THEN [sp |-> sp + 1, out |-> ""]
  ELSE LET p == c.prog sent == res = 0 ok == res = OK /\ frm.t # ANY ack == ok /\ frm.t = ACK IN
  CASE sp.at = "ping" -> IF sent THEN [sp |-> [sp EXCEPT !.at = "hear"], out |-> ""] ELSE NextScan(p, sp, TRUE, "")
    [] sp.at = "hear" -> IF res = TIMEOUT THEN IF sp.n < c.sr THEN [sp |-> [sp EXCEPT !.at = "ping", !.n = @ + 1], out |-> ""] ELSE NextScan(p, sp, sp.bad, "")
                         ELSE IF res \in {INVALID, OK} THEN [sp |-> [at |-> "drain", a |-> sp.a, n |-> IF ack THEN 1 ELSE IF ok THEN 2 ELSE 0, bad |-> sp.bad], out |-> ""]
                         ELSE NextScan(p, sp, TRUE, "")
    [] sp.at = "drain" -> NextScan(p, sp, sp.bad, IF sp.n = 0 \/ res = 1 THEN "Collision at address " \o ToString(sp.a) \o "%0A"
                                                 ELSE IF sp.n = 2 THEN "" ELSE "Found a M-Bus device at address " \o ToString(sp.a) \o "%0A")
    [] sp.at = "init1" -> IF sent THEN Go("init2") ELSE Done2(1, "")
    [] sp.at = "init2" -> IF ~sent THEN Done2(1, "")
                          ELSE Go(CASE p.name = "scan2" -> "search" [] p.name = "set" -> "knock" [] OTHER -> "select")
    [] sp.at = "search" -> Done2(IF res = 0 THEN 0 ELSE 1, "")
    [] sp.at = "knock" -> IF sent THEN Go("silence") ELSE Done2(1, "")
    [] sp.at = "silence" -> IF res = TIMEOUT THEN Go("select") ELSE Done2(1, "")
    [] sp.at = "select" -> IF Secondary(p) /\ res # SINGLE THEN Done2(1, "")
                           ELSE Go(CASE p.name = "read" -> "ask" [] p.name = "readall" -> "askall" [] OTHER -> "command")
    [] sp.at = "choose" -> IF sent THEN Go("chosen") ELSE Done2(1, "")
    [] sp.at = "chosen" -> IF ack THEN Go("ask") ELSE Done2(1, "")
    [] sp.at = "ask" -> IF sent THEN Go("answer") ELSE Done2(1, "")
    [] sp.at = "answer" ->
         IF ~ok THEN Done2(1, "")
         ELSE IF p.name = "read" THEN Shows(X!Single(DataOf(frm) @@ [at |-> Moment(frm.ts)]))
         ELSE IF p.name = "select2" THEN
           IF DataOf(frm).k = "var"
           THEN Done2(0, "Recieved a reply from secondarily addressed device: Searched for [" \o MaskText(p.addr) \o "] and found [" \o AddressText(SecondaryBytes(frm)) \o "].%0A")
           ELSE Done2(1, "")
         ELSE Done2(0, "")                                                   \* any valid telegram is an answer to a raw one
    [] sp.at = "askall" -> IF res # 0 THEN Done2(1, "") ELSE Shows(X!Chain([k \in 1..Len(chain) |-> DataOf(chain[k]) @@ [at |-> Moment(chain[k].at)]]))
    [] sp.at = "command" -> IF sent THEN Go(IF p.name = "raw" THEN "answer" ELSE "ack") ELSE Done2(1, "")
    [] sp.at = "ack" -> IF ack THEN Done2(0, Acked(p)) ELSE Done2(1, "")
=============================================================================
