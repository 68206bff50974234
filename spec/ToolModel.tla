------------------------------ MODULE ToolModel ------------------------------
(***************************************************************************)
(* The command line programs among all reactions of the line.  What they   *)
(* guarantee is stated on what was put on the line, what came back, and    *)
(* what they said in the end; not on how they are programmed.              *)
(***************************************************************************)
EXTENDS MBusMaster, Json

CONSTANTS Scenario, Emits

Answer(pay) == Image([t |-> LONG, c |-> 8, a |-> 5, ci |-> CIVariable, d |-> <<33, 67, 101, 7, 17, 34, 1, 6, 85, 0, 0, 0>> \o pay])
AckB == <<229>>
One(k, d) == [k |-> k, q |-> << Bytes(d) >>]
Damaged(s) == [s EXCEPT ![Len(s) - 1] = (@ + 1) % 256]
Rec == <<1, 3, 9>>

\* none, ack alone, many: ack and more, bad: no telegram, data: decodable and alone, more: announces further records,
\* crowd: data and something more, undec: a valid telegram that is neither, fail, ackfail: ack and then a failure
Reactions == {
  [k |-> "none", q |-> <<>>], One("ack", AckB), One("many", AckB \o AckB), [k |-> "many", q |-> << Bytes(AckB), Bytes(<<0>>) >>],
  One("bad", <<0>>), One("bad", Damaged(Answer(Rec))), One("data", Answer(Rec)), One("more", Answer(Rec \o <<31>>)),
  One("crowd", Answer(Rec) \o AckB), One("undec", Answer(<<4, 3, 9>>)), One("undec", Image([t |-> CONTROL, c |-> 8, a |-> 5, ci |-> 113])),
  One("fixed", Image([t |-> LONG, c |-> 8, a |-> 5, ci |-> CIFixed, d |-> <<1, 2, 3, 4, 5, 0, 6, 7, 8, 9, 16, 17, 18, 19, 20, 21>>])),
  [k |-> "fail", q |-> << Mark("E") >>], [k |-> "ackfail", q |-> << Bytes(AckB), Mark("E") >>] }
\* for the longer programs
Fewer == { y \in Reactions : y.k \in {"none", "ack", "ackfail", "data", "more", "fail", "crowd"} \/ y.q = << Bytes(<<0>>) >> \/ y.q = << Bytes(AckB \o AckB) >> }

---------------------------------------------------------------------------
Code(t) == t          \* (texts are sequences of character codes)
Sec == <<48, 55, 70, 53, 52, 51, 50, 49, 70, 70, 70, 70, 48, 49, 48, 54>>
Five == <<53>>  Seven == <<55>>
Strs == {"tcp", "ser"}
P(n, tr) == [name |-> n, tr |-> tr, open |-> <<>>, tcs |-> <<>>, place |-> <<104>>, here |-> <<104>>, baud |-> <<50, 52, 48, 48>>, port |-> <<49>>]
Progs ==
  CASE Scenario = "scan"    -> { P("scan", tr) @@ [retries |-> r, last |-> 1] : tr \in Strs, r \in { <<48>>, <<49>> } }
    [] Scenario = "set"     -> { P("set", "ser") @@ [addr |-> a, new |-> n] : a \in {Five, Sec}, n \in {Seven, <<50, 53, 51>>} }
    [] Scenario = "read"    -> { P("read", tr) @@ [addr |-> a] : tr \in Strs, a \in {Five, Sec} }
    [] Scenario = "readall" -> { P("readall", tr) @@ [addr |-> a, max |-> 2] : tr \in Strs, a \in {Five, Sec} }
    [] Scenario = "command" -> { P("select2", tr) @@ [addr |-> Sec] : tr \in Strs }
                               \cup { P("baud", "ser") @@ [addr |-> Five, rate |-> r] : r \in { <<51, 48, 48>>, <<49>> } }
                               \cup { P("reset", "tcp") @@ [addr |-> a, sub |-> s] : a \in {Five, Sec}, s \in { <<>>, <<55>> } }
                               \cup { P("raw", "tcp") @@ [addr |-> a, raw |-> r] : a \in {Five, Sec}, r \in { <<69, 53>>, <<49, 48, 52, 48>> } }
\* the opening pings of serial programs are met by little: what they are answered is drained
Ws == IF Scenario = "scan" THEN { <<>>, <<"f">>, <<"o", "f">>, <<"s">>, <<"o", "s">> } ELSE { <<>>, <<"f">>, <<"o", "f">>, <<"o", "o", "f">>, <<"o", "o", "o", "f">>, <<"s">>, <<"o", "s">>, <<"o", "o", "o", "s">> }
MStarts == { [tr |-> p.tr, tty |-> 1, pre |-> <<>>, w |-> w, echo |-> 1, sr |-> IF p.name = "scan" THEN Number(p.retries) ELSE 1, dr |-> 1, cb |-> 0, fcb |-> 0, env |-> 0, prog |-> p] : p \in Progs, w \in Ws }
MObs0(c) == <<>>
MSees(c, h, s) == TRUE
MObserve(c, h, s) == h \o s
Tx(h) == SelectSeq(h, LAMBDA e : e.e \in {"tx", "txfail"})
\* opening pings
Opening(c, h, d) == c.prog.name \in {"set", "read", "readall"} /\ d = Image(Ping(NetworkLayer))
RSet(c, h, d) == IF Decide(d).r # 0 THEN { y \in Reactions : y.k = "none" }       \* nothing reacts to half a telegram
                 ELSE IF Opening(c, h, d) THEN { y \in Reactions : y.k \in {"none", "ack", "fail"} }
                 ELSE IF Scenario = "readall" \/ (Scenario = "scan" /\ c.sr > 0) \/ (Scenario = "set" /\ c.prog.addr = Sec) THEN Fewer ELSE Reactions
MReact(c, h, en, d) == { [q |-> r.q, env |-> en] : r \in RSet(c, h, d) }
KindOf(q) == (CHOOSE y \in Reactions : y.q = q).k

---------------------------------------------------------------------------
Done == pc = "Done"
S == Tx(obs)
N == Len(S)
K(i) == IF S[i].e = "txfail" \/ Decide(S[i].d).r # 0 THEN "unsent" ELSE KindOf(S[i].q)
Is(i, t) == S[i].e = "tx" /\ S[i].d = Image(t)
Ex == obs[Len(obs)]
Pr == cs.prog
Acks == {"ack", "ackfail", "many"}            \* the first telegram is an acknowledgement
One1 == {"ack", "ackfail"}                    \* and nothing follows it
Selects == Pr.addr = Sec
To == IF Selects THEN NetworkLayer ELSE 5
\* the telegrams that were put on the line or should have been, in order: ts is the longest possible sequence, go(i) says whether
\* the one after i follows.  (A telegram that failed to be sent is the last.)
Follows(ts, go(_)) == /\ N <= Len(ts)
                      /\ \A i \in 1..N : K(i) # "unsent" => Is(i, ts[i])
                      /\ \A i \in 1..(N - 1) : K(i) # "unsent" /\ go(i)
                      /\ (N = 0 /\ Len(ts) > 0) => FALSE
                      /\ (N > 0 /\ N < Len(ts)) => (K(N) = "unsent" \/ ~go(N))
Ends == Done => Ex.e = "exit" /\ Ex.rc \in {0, 1, Ignore} /\ Cardinality({ i \in 1..Len(obs) : obs[i].e = "exit" }) = 1

(* C23 *)
PingsOf(a) == { i \in 1..N : Is(i, Ping(a)) }
FoundLine(a) == "Found a M-Bus device at address " \o ToString(a) \o "%0A"
ClashLine(a) == "Collision at address " \o ToString(a) \o "%0A"
LineFor(a) == IF \E i \in PingsOf(a) : K(i) \in One1 THEN FoundLine(a)
              ELSE IF \E i \in PingsOf(a) : K(i) \in {"many", "bad", "crowd"} THEN ClashLine(a) ELSE ""
ScanRight == (Done /\ Scenario = "scan") =>
  /\ Ex.out = LineFor(0) \o LineFor(1)
  /\ \A a \in 0..1 : Cardinality(PingsOf(a)) <= cs.sr + 1
  /\ \A i \in 1..N : S[i].e = "tx" => (K(i) = "unsent" \/ Is(i, Ping(0)) \/ Is(i, Ping(1)))
  /\ \A i, j \in 1..N : (i < j /\ Is(j, Ping(0))) => Is(i, Ping(0)) \/ K(i) = "unsent"
  /\ \A a \in 0..1 : \A i, j \in PingsOf(a) : i < j => K(i) = "none"
  /\ Cardinality(PingsOf(0)) + Cardinality(PingsOf(1)) + Cardinality({ i \in 1..N : K(i) = "unsent" }) = N
  /\ \A a \in 0..1 : (cs.w = <<>> => PingsOf(a) # {})
  /\ (\A i \in 1..N : K(i) \notin {"unsent", "fail"}) => Ex.rc = 0

(* C24 *)
SetImg == [t |-> LONG, c |-> 83, a |-> To, ci |-> 81, d |-> <<1, 122, 7>>]
SetRight == (Done /\ Scenario = "set") =>
  IF Pr.new # Seven THEN N = 0 /\ Ex.rc = 1 /\ Ex.out = ""
  ELSE LET ts == << Ping(NetworkLayer), Ping(NetworkLayer), Ping(7) >> \o (IF Selects THEN << Selection(Sec) >> ELSE <<>>) \o << SetImg >>
       IN /\ Follows(ts, LAMBDA i : CASE i <= 2 -> TRUE [] i = 3 -> K(3) = "none" [] OTHER -> K(i) \in One1)
          /\ Ex.out = IF N = Len(ts) /\ K(N) \in Acks THEN "Set primary address of device to 7%0A" ELSE ""
          /\ Ex.rc = IF Ex.out = "" THEN 1 ELSE 0

(* C25 *)
ReadRight == (Done /\ Scenario = "read") =>
  LET ts == (IF cs.tr = "ser" THEN << Ping(NetworkLayer), Ping(NetworkLayer) >> ELSE <<>>) \o (IF Selects THEN << Selection(Sec) >> ELSE <<>>) \o << Request(To) >>
      got == N = Len(ts) /\ K(N) \in {"data", "more", "crowd", "fixed"}
  IN /\ Follows(ts, LAMBDA i : Is(i, Ping(NetworkLayer)) \/ K(i) \in One1)
     /\ Ex.rc = IF got THEN 0 ELSE 1
     /\ Ex.doc.ok = got /\ Ex.out = ""
\* the readout of a chain, once the slave is reached
First2 == << Ping(NetworkLayer), Ping(NetworkLayer) >> \o (IF Selects THEN << Selection(Sec) >> ELSE <<>>)
Reached == N > Len(First2)
AskedRight == \A i \in (Len(First2) + 1)..N : K(i) # "unsent" => Is(i, RequestF(To, 0)) \/ Is(i, RequestF(To, 1))
GoodA(i) == K(i) \in {"data", "more", "crowd", "fixed"}
Goods == { i \in (Len(First2) + 1)..N : GoodA(i) }
ReadAllRight == (Done /\ Scenario = "readall") =>
  /\ ~Reached => Follows(First2 \o << Request(To) >>, LAMBDA i : i <= 2 \/ K(i) \in One1)
  /\ Reached => \A i \in 1..Len(First2) : Is(i, First2[i]) /\ (i > 2 => K(i) \in One1)
  /\ AskedRight
  /\ Ex.out = "" /\ (Ex.doc.ok <=> Ex.rc = 0)
  /\ Ex.doc.ok <=> (Reached /\ GoodA(N) /\ (K(N) = "more" => Cardinality(Goods) = 2))
  /\ \A i \in Goods : i < N => K(i) = "more"

(* C27 *)
CommandRight == (Done /\ Scenario = "command") =>
  CASE Pr.name = "select2" ->
         LET got == N = 2 /\ K(2) \in {"data", "more", "crowd"} IN
         /\ Follows(<< Selection(Sec), Request(NetworkLayer) >>, LAMBDA i : K(i) \in Acks)
         /\ Ex.rc = (IF Ex.out # "" THEN 0 ELSE 1)
         /\ K(1) # "many" => (Ex.out # "" <=> (got /\ K(1) = "ack"))        \* (what follows the acknowledgement is taken for the answer)
    [] Pr.name = "baud" ->
         IF Pr.rate = <<49>> THEN N = 0 /\ Ex.rc = 1 /\ Ex.out = ""
         ELSE /\ Follows(<< SetBaud(5, 300) >>, LAMBDA i : TRUE)
              /\ Ex.out = (IF K(1) \in Acks THEN "Switched baud rate of device to 300%0A" ELSE "") /\ Ex.rc = (IF K(1) \in Acks THEN 0 ELSE 1)
    [] Pr.name = "reset" ->
         LET ts == (IF Selects THEN << Selection(Sec) >> ELSE <<>>) \o << AppReset(To, IF Pr.sub = <<>> THEN -1 ELSE 7) >>
             got == N = Len(ts) /\ K(N) \in Acks
         IN /\ Follows(ts, LAMBDA i : K(i) \in One1)
            /\ Ex.out = (IF got THEN IF Pr.sub = <<>> THEN "Successful reset device%0A" ELSE "Successful reset device (Subcode: 7)%0A" ELSE "")
            /\ Ex.rc = (IF got THEN 0 ELSE 1)
    [] Pr.name = "raw" ->
         LET tele == IF Pr.raw = <<69, 53>> THEN << [t |-> ACK] >> ELSE <<>>       \* the other text is no telegram
             ts == (IF Selects THEN << Selection(Sec) >> ELSE <<>>) \o tele
         IN /\ IF ts = <<>> THEN N = 0 ELSE Follows(ts, LAMBDA i : K(i) \in One1)
            /\ Ex.out = "" /\ Ex.rc = (IF tele # <<>> /\ N = Len(ts) /\ K(N) \in (Acks \cup {"data", "more", "crowd", "undec", "fixed"}) THEN 0 ELSE 1)
Case == (Done /\ Emits) => PrintT("CASE " \o ToJson([p |-> Pr, w |-> cs.w, q |-> LET t == SelectSeq(obs, LAMBDA e : e.e = "tx") IN [i \in 1..Len(t) |-> t[i].q]]))
=============================================================================
