------------------------------ MODULE MBusHandle ------------------------------
(***************************************************************************)
(* A connection handle over its life: created, connected on a transport    *)
(* that may refuse at every step, configured, disconnected, freed.  The    *)
(* place it was made for (a device, or a host and a port) is where every   *)
(* connection of it goes.  The state is what a user can rely on: the one descriptor the handle owns,   *)
(* the descriptors still open, the options, the settings of the serial     *)
(* line and the timeout of TCP connections to come.  Next(s, c) is the set *)
(* of everything a call c may do in state s: what is observed (ob), which  *)
(* choices of the environment lead there (op: opening, tc: setting the     *)
(* line), and the state afterwards.                                        *)
(***************************************************************************)
EXTENDS MBusRequests

None == -1
Addresses == 2                      \* how many addresses the name of the gateway has
DefaultTimeout == 4000

\* M-Bus: a slave starts to answer within 11 to 330 bit times and 50 ms; an adapter may add 100 ms
ResponseMs(rate) == 150 + (341 * 1000) \div rate
Tenths(ms) == (ms + 99) \div 100
WaitFor(rate) == CASE rate = 300 -> 13 [] rate = 600 -> 8 [] rate = 1200 -> 5 [] rate = 2400 -> 3
                   [] rate = 4800 -> 3 [] rate = 9600 -> 2 [] rate = 19200 -> 2 [] rate = 38400 -> 2
ASSUME \A k \in 1..8 : WaitFor(Bauds[k]) = Tenths(ResponseMs(Bauds[k]))

LineAt(rate) == [ispeed |-> rate, ospeed |-> rate, bits |-> 8, parenb |-> 1, parodd |-> 0, cstopb |-> 0, cread |-> 1, clocal |-> 1, crtscts |-> 0,
                 vmin |-> 0, vtime |-> WaitFor(rate), iflag |-> 0, oflag |-> 0, lflag |-> 0]
NoLine == [ispeed |-> 0]

NoHandle == [h |-> FALSE, tr |-> "", place |-> "", port |-> 0, fd |-> None, open |-> {}, next |-> 0, dr |-> 3, sr |-> 1, echo |-> 1, line |-> NoLine, tmo |-> DefaultTimeout, bus |-> <<>>, tty |-> 1]

\* what is observed of a call: value (0 or -1 where only success matters), what happened to descriptors, the line as set last,
\* whether setting it was refused, names resolved, devices opened, which of the addresses of the host were tried, timeouts set, address lists released, telegrams transmitted, telegram returned
Quiet == [v |-> 0, fds |-> <<>>, line |-> NoLine, refused |-> FALSE, res |-> <<>>, dev |-> <<>>, to |-> <<>>, tmo |-> {}, free |-> 0, tx |-> <<>>, f |-> [t |-> -1]]
Fails == [Quiet EXCEPT !.v = -1]
Outcome(ob, op, tc, st) == [ob |-> ob, op |-> op, tc |-> tc, st |-> st]
Just(ob, st) == { Outcome(ob, <<>>, <<>>, st) }
Opened(n) == [e |-> "open", fd |-> n]
Closed(n) == [e |-> "close", fd |-> n]
OpenFails == [e |-> "openfail"]
Refuses == [e |-> "connfail"]

---------------------------------------------------------------------------
(* Connecting.  A refusal anywhere leaves nothing open and the handle      *)
(* without a descriptor.                                                   *)
Lost(st) == [st EXCEPT !.fd = None]
Owns(st, n) == [st EXCEPT !.fd = n, !.open = @ \cup {n}, !.next = n + 1]
SerialConnect(st) ==
  LET n == st.next L == LineAt(2400) there == << st.place >> IN
  { Outcome([Fails EXCEPT !.dev = there, !.fds = << OpenFails >>], <<"x">>, <<>>, Lost(st)),
    Outcome([Fails EXCEPT !.dev = there, !.fds = << Opened(n), Closed(n) >>, !.line = L, !.refused = TRUE], <<"o">>, <<"f">>, [Lost(st) EXCEPT !.next = n + 1]),
    Outcome([Quiet EXCEPT !.dev = there, !.fds = << Opened(n) >>, !.line = L], <<"o">>, <<"o">>, [Owns(st, n) EXCEPT !.line = L]) }
\* fates of the addresses in turn: "k" no socket, "c" refused, "o" connected
Fates == UNION { { p \in [1..n -> {"k", "c", "o"}] : (\A j \in 1..n : p[j] = "o" <=> j = n /\ p[n] = "o") /\ (p[n] # "o" => n = Addresses) } : n \in 1..Addresses }
RECURSIVE Tried(_, _)
Tried(p, n) == IF p = <<>> THEN <<>>
               ELSE CASE p[1] = "k" -> << OpenFails >> \o Tried(Tail(p), n)
                      [] p[1] = "c" -> << Opened(n), Refuses, Closed(n) >> \o Tried(Tail(p), n + 1)
                      [] p[1] = "o" -> << Opened(n) >>
TcpConnect(st) ==
  LET asked == << [h |-> st.place, p |-> ToString(st.port)] >>
      used(p) == Len(SelectSeq(p, LAMBDA c : c # "k"))
      calls(p) == SelectSeq([j \in 1..Len(p) |-> j], LAMBDA j : p[j] # "k")      \* the addresses that were tried, in turn
  IN { Outcome([Fails EXCEPT !.res = asked], <<"n">>, <<>>, Lost(st)) }
     \cup { LET fds == Tried(p, st.next) last == st.next + used(p) - 1 IN
            IF p[Len(p)] = "o"
            THEN Outcome([Quiet EXCEPT !.res = asked, !.to = calls(p), !.free = 1, !.fds = fds, !.tmo = { [w |-> "s", ms |-> st.tmo], [w |-> "r", ms |-> st.tmo] }], p, <<>>, Owns(st, last))
            ELSE Outcome([Fails EXCEPT !.res = asked, !.to = calls(p), !.free = 1, !.fds = fds], p, <<>>, [Lost(st) EXCEPT !.next = last + 1])
            : p \in Fates }
Fresh(st) == IF st.tr = "ser" THEN SerialConnect(st) ELSE TcpConnect(st)
(* Connecting a connected handle is not prescribed, except that nothing is *)
(* closed twice: the descriptor may stay open, be closed first, or the     *)
(* call may be refused.                                                    *)
Connect(st) ==
  IF st.fd = None THEN Fresh(st)
  ELSE LET all == Fresh(st) IN all \cup Just(Fails, st)
       \cup { [o EXCEPT !.st.fd = st.fd] : o \in { q \in all : q.st.fd = None } }      \* a failure may leave the old connection
       \cup LET s2 == [st EXCEPT !.open = @ \ {st.fd}, !.fd = None] IN { [o EXCEPT !.ob.fds = << Closed(st.fd) >> \o @] : o \in Fresh(s2) }
Disconnect(st) ==
  IF st.fd = None THEN Just(Fails, st)
  ELSE Just([Quiet EXCEPT !.fds = << Closed(st.fd) >>], [st EXCEPT !.fd = None, !.open = @ \ {st.fd}])
\* freeing may or may not close what is still connected
Gone(st) == [NoHandle EXCEPT !.open = st.open, !.next = st.next, !.tmo = st.tmo, !.bus = st.bus, !.tty = st.tty]
Free(st) == Just(Quiet, Gone(st)) \cup IF st.fd = None THEN {} ELSE Just([Quiet EXCEPT !.fds = << Closed(st.fd) >>], [Gone(st) EXCEPT !.open = @ \ {st.fd}])

---------------------------------------------------------------------------
(* Options and settings.                                                   *)
DataRetries == 0  SearchRetries == 1  EchoKind == 2
ValidOption(o, v) == \/ o \in {DataRetries, SearchRetries} /\ v \in 0..9
                     \/ o = EchoKind /\ v \in {0, 1, 2}
SetOption(st, o, v) ==
  IF ~ValidOption(o, v) THEN Just(Fails, st)
  ELSE Just(Quiet, IF o = DataRetries THEN [st EXCEPT !.dr = v] ELSE IF o = SearchRetries THEN [st EXCEPT !.sr = v] ELSE [st EXCEPT !.echo = v])
SetTimeout(st, ms) == IF ms < 0 THEN Just(Fails, st) ELSE Just(Quiet, [st EXCEPT !.tmo = ms])
SetBaudrate(st, rate) ==
  IF BaudIx(rate) = 0 THEN Just(Fails, st)                             \* and the line is left as it was
  ELSE IF st.fd = None THEN Just(Fails, st)
  ELSE LET L == [st.line EXCEPT !.ispeed = rate, !.ospeed = rate, !.vtime = WaitFor(rate)] IN
       { Outcome([Quiet EXCEPT !.line = L], <<>>, <<"o">>, [st EXCEPT !.line = L]),
         Outcome([Fails EXCEPT !.line = L, !.refused = TRUE], <<>>, <<"f">>, st) }

---------------------------------------------------------------------------
(* Operations that show the options at work: on a silent line a probe      *)
(* repeats its selection as often as configured, a readout its request;    *)
(* a receive skips the echo configured.                                    *)
Times(n, d) == [k \in 1..n |-> d]
Config(st) == [tr |-> st.tr, tty |-> st.tty, echo |-> st.echo, cb |-> 0]
ProbeSilent(st, m) ==
  IF st.fd = None THEN Just(Fails, st)
  ELSE Just([Quiet EXCEPT !.tx = Times(st.sr + 1, Image(Selection(m)))], st)
ReadSilent(st, a) ==
  IF st.fd = None THEN Just(Fails, st)
  ELSE Just([Fails EXCEPT !.tx = Times(st.dr + 1, Image(RequestF(a, 1)))], st)
Receive(st) ==
  IF st.fd = None THEN Just([Fails EXCEPT !.v = ERROR], st)
  ELSE LET r == Recv(Config(st), st.bus) IN Just([Quiet EXCEPT !.v = r.r, !.f = IF r.r = OK THEN Shown(r.f, 1) ELSE [t |-> -1]], [st EXCEPT !.bus = r.q])
SendPing(st, a) == IF st.fd = None THEN Just(Fails, st) ELSE Just([Quiet EXCEPT !.tx = << Image(Ping(a)) >>], st)

\* without a handle nothing can be done
Without(st, c) == Just(IF c.op = "recv" THEN [Fails EXCEPT !.v = ERROR] ELSE Fails, st)
After(st, c) ==
  CASE ~st.h /\ c.op \in {"connect", "disconnect", "opt", "recv"} -> Without(st, c)
    [] c.op = "new" -> Just(Quiet, [Gone(st) EXCEPT !.h = TRUE, !.tr = c.tr, !.place = c.place, !.port = c.port])
    [] c.op = "connect" -> Connect(st)
    [] c.op = "disconnect" -> Disconnect(st)
    [] c.op = "free" -> Free(st)
    [] c.op = "null" -> Just(Quiet, st)                                 \* no operation on a missing handle succeeds
    [] c.op = "opt" -> SetOption(st, c.o, c.n)
    [] c.op = "tmo" -> SetTimeout(st, c.ms)
    [] c.op = "setbaud" -> SetBaudrate(st, c.rate)
    [] c.op = "probe" -> ProbeSilent(st, c.m)
    [] c.op = "rr" -> ReadSilent(st, c.addr)
    [] c.op = "recv" -> Receive(st)
    [] c.op = "ping" -> SendPing(st, c.addr)
=============================================================================
