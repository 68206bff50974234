----------------------------- MODULE MasterModel -----------------------------
(***************************************************************************)
(* The master among all environments: after every telegram it sends, any   *)
(* of a set of reactions follows.  The properties of the operations are    *)
(* stated here on the complete histories, in terms of what the reactions   *)
(* are, and not in terms of the algorithm.  Every complete history is also *)
(* printed as a test case for the code.                                    *)
(***************************************************************************)
EXTENDS MBusMaster, Json

CONSTANTS Scenario, Emits

Answer(pay) == Image([t |-> LONG, c |-> 8, a |-> 5, ci |-> CIVariable, d |-> <<33, 67, 101, 7, 17, 34, 1, 6, 85, 0, 0, 0>> \o pay])
AckB == <<229>>
One(k, d) == [k |-> k, q |-> << Bytes(d) >>]
Trunc(s, n) == SubSeq(s, 1, Len(s) - n)
Damaged(s) == [s EXCEPT ![Len(s) - 1] = (@ + 1) % 256]

\* reactions and what they are: none, ack (alone), many (an acknowledgement and something more), bad (no telegram),
\* answer (variable data, alone), crowd (such an answer and something more), other (another telegram), fail
Reactions == {
  [k |-> "none", q |-> <<>>],
  One("ack", AckB),
  One("many", AckB \o AckB),
  [k |-> "many", q |-> << Bytes(AckB), Bytes(<<0>>) >>],
  [k |-> "many", q |-> << Bytes(AckB \o Answer(<<1, 3, 9>>)) >>],
  One("bad", <<0>>),
  [k |-> "bad", q |-> << Bytes(<<0, 22, 0>>), Bytes(AckB) >>],
  One("bad", Damaged(Answer(<<1, 3, 9>>))),
  One("answer", Answer(<<1, 3, 9>>)),
  [k |-> "answer", q |-> << Bytes(SubSeq(Answer(<<>>), 1, 2)), Bytes(SubSeq(Answer(<<>>), 3, 21)) >>],
  One("crowd", Answer(<<1, 3, 9>>) \o AckB),
  [k |-> "crowd", q |-> << Bytes(Answer(<<1, 3, 9>>)), Bytes(<<255, 255>>) >>],
  One("other", Answer(<<4, 3, 9>>)),                    \* data that does not decode
  One("other", Image([t |-> LONG, c |-> 8, a |-> 5, ci |-> CIFixed, d |-> [i \in 1..16 |-> i]])),
  One("other", Image([t |-> CONTROL, c |-> 8, a |-> 5, ci |-> 112])),
  [k |-> "fail", q |-> << Mark("E") >>],
  [k |-> "fail", q |-> << Bytes(<<104, 9>>), Mark("E") >>],
  [k |-> "ackfail", q |-> << Bytes(AckB), Mark("E") >>],
  [k |-> "end", q |-> << Mark("Z") >>],
  One("cut", Trunc(Answer(<<1, 3, 9>>), 2)) }

\* the reaction r as the master of configuration c must understand it
KindIn(c, r) ==
  CASE r.k = "end"  -> IF c.tr = "tcp" THEN "fail" ELSE "none"
    [] r.k = "cut"  -> IF c.tr = "tcp" THEN "none" ELSE "bad"
    [] r.k = "ackfail" -> "ack"
    [] OTHER -> r.k

\* read-out answers
Var(tail) == Answer(<<1, 3, 9>> \o tail)
ReadReactions == {
  One("more", Var(<<31>>)), One("more", Var(<<31, 7, 7>>)),
  [k |-> "more", q |-> << Bytes(Var(<<31>>)), Bytes(AckB) >>],     \* followed by noise, which is drained
  One("last", Var(<<>>)), One("last", Var(<<15, 31>>)),
  One("last", Image([t |-> LONG, c |-> 8, a |-> 5, ci |-> CIFixed, d |-> [i \in 1..16 |-> i]])),
  One("last", Image([t |-> CONTROL, c |-> 8, a |-> 5, ci |-> CIError])),
  One("undec", Answer(<<4, 3>>)), One("undec", AckB),
  One("bad", Damaged(Var(<<>>))), [k |-> "bad", q |-> << Bytes(<<1>>), Bytes(Var(<<>>)) >>],
  [k |-> "none", q |-> <<>>], One("cut", Trunc(Var(<<31>>), 1)),
  [k |-> "fail", q |-> << Mark("E") >>], [k |-> "end", q |-> << Mark("Z") >>] }

---------------------------------------------------------------------------
M0 == <<48, 55, 70, 53, 52, 51, 50, 49, 70, 70, 70, 70, 48, 49, 48, 54>>
Cfg(tr, s, w, sr, dr) == [tr |-> tr, tty |-> 1, pre |-> <<>>, w |-> w, echo |-> 1, sr |-> sr, dr |-> dr, cb |-> 1, fcb |-> 1, script |-> s, env |-> 0]
Ws == { <<>>, <<"f">>, <<"s">>, <<"o", "f">>, <<"o", "s">>, <<"o", "o", "f">> }
Strs == {"tcp", "ser"}
MStarts ==
  CASE Scenario = "select" -> { Cfg(tr, <<[op |-> "select", m |-> M0]>>, w, 1, 3) : tr \in Strs, w \in { <<>>, <<"f">>, <<"s">> } }
    [] Scenario = "probe"  -> { Cfg(tr, <<[op |-> "probe", m |-> M0]>>, w, sr, 3) : tr \in Strs, w \in Ws, sr \in {0, 1} }
    [] Scenario = "read"   -> { Cfg(tr, <<[op |-> "read", prim |-> p, addr |-> 5, m |-> M0]>>, w, 1, 3) : tr \in Strs, p \in {0, 1}, w \in { <<>>, <<"f">>, <<"o", "s">> } }
    [] Scenario = "rr"     -> { Cfg(tr, <<[op |-> "rr", addr |-> 5, max |-> l]>>, w, 1, dr) : tr \in Strs, dr \in {0, 1}, l \in {0, 1, 2}, w \in { <<>>, <<"f">>, <<"o", "f">> } }
MObs0(c) == <<>>
MSees(c, h, s) == TRUE
MObserve(c, h, s) == h \o s

\* the clock goes on with every telegram put on the line
MNow(c, h) == 1 + Len(SelectSeq(h, LAMBDA e : e.e = "tx"))

Tx(h) == SelectSeq(h, LAMBDA e : e.e \in {"tx", "txfail"})
RAll == IF Scenario = "rr" THEN ReadReactions ELSE Reactions
\* the end of the stream exists on TCP only
RSet == { r \in RAll : cs.tr = "tcp" \/ r.k # "end" }
MaxTx == IF Scenario = "rr" THEN 4 ELSE 99
\* (what follows a telegram that is no acknowledgement stays on the line and would meet the next attempt:
\*  that is left to the scenario select and to recorded executions)
MReact(c, h, en, d) == IF Scenario = "probe" /\ d = Image(Selection(M0)) THEN { [q |-> r.q, env |-> en] : r \in { y \in RSet : y.k # "crowd" } }
                       ELSE IF Len(Tx(h)) + 1 >= MaxTx THEN { [q |-> r.q, env |-> en] : r \in { y \in RSet : y.k \notin {"more", "bad", "none", "cut"} } }
                       ELSE { [q |-> r.q, env |-> en] : r \in RSet }
KindOf(c, q) == LET r == CHOOSE y \in RSet : y.q = q IN KindIn(c, r)

---------------------------------------------------------------------------
Done == pc = "Done"
H == obs
S == Tx(H)                                   \* what was sent, in order
K(i) == IF S[i].e = "txfail" THEN "unsent" ELSE KindOf(cs, S[i].q)
Ret == (SelectSeq(H, LAMBDA e : e.e = "ret"))[1]
Found == SelectSeq(H, LAMBDA e : e.e = "found")
\* the i-th write did not succeed
WriteFails(i) == i <= Len(cs.w) /\ cs.w[i] # "o"
SelImg == Image(Selection(M0))
AskImg(a) == Image(Request(a))

SelectMeaning(k) == CASE k = "ack" -> SINGLE [] k \in {"many", "bad"} -> COLLISION [] k = "fail" -> PROBEERROR [] OTHER -> NOTHING

(* C07 *)
SelectRight == (Done /\ Scenario = "select") =>
  /\ Len(S) = 1
  /\ Ret.v = IF WriteFails(1) THEN PROBEERROR ELSE SelectMeaning(K(1))
  /\ (Ret.v = COLLISION => Ret.lb = 0)

(* C08 *)
ProbeRight == (Done /\ Scenario = "probe") =>
  LET n == Len(S)
      asked == n > 0 /\ ~WriteFails(n) /\ S[n].d = AskImg(NetworkLayer)
      askfailed == n > 1 /\ WriteFails(n) /\ (S[n].e = "txfail" => S[n].n = 5) /\ ~(S[n].e = "tx" /\ Len(S[n].d) = 16)
      sel == IF asked \/ askfailed THEN n - 1 ELSE n
  IN
  /\ sel \in 1..(cs.sr + 1)
  /\ \A i \in 1..(sel - 1) : ~WriteFails(i) /\ S[i].d = SelImg /\ SelectMeaning(K(i)) = NOTHING      \* again only after nothing
  /\ (asked \/ askfailed) <=> (~WriteFails(sel) /\ SelectMeaning(K(sel)) = SINGLE)                   \* asks exactly after one acknowledgement
  /\ ((~WriteFails(sel) /\ SelectMeaning(K(sel)) = NOTHING) => sel = cs.sr + 1)                       \* gives up only after all attempts
  /\ Ret.v = IF WriteFails(n) THEN PROBEERROR
             ELSE IF ~asked THEN SelectMeaning(K(sel))
             ELSE CASE K(n) = "answer" -> SINGLE [] K(n) \in {"bad", "many", "crowd"} -> COLLISION
                    [] K(n) = "fail" -> PROBEERROR [] OTHER -> NOTHING
  /\ Ret.m = IF Ret.v = SINGLE THEN "0765432111220106" ELSE ""
  /\ Len(Found) = IF Ret.v = SINGLE THEN 1 ELSE 0

(* C12 *)
ReadRight == (Done /\ Scenario = "read") =>
  LET p == cs.script[1].prim = 1
      ask == IF p THEN AskImg(5) ELSE AskImg(NetworkLayer)
      k == IF p THEN 1 ELSE 2
      go == p \/ (~WriteFails(1) /\ SelectMeaning(K(1)) = SINGLE)
      got == Len(S) = k /\ ~WriteFails(k) /\ K(k) \notin {"none", "bad", "fail"}
  IN
  /\ Len(S) = IF go THEN k ELSE 1
  /\ (~p /\ ~WriteFails(1)) => S[1].d = SelImg
  /\ (go /\ ~WriteFails(k)) => S[k].d = ask
  /\ (Ret.v = 0) <=> (go /\ got)
  /\ (Ret.v = 0) => Image(Ret.f) = SubSeq(FoldLeft(LAMBDA a, y : a \o y.d, <<>>, S[k].q), 1, Len(Image(Ret.f)))

(* C10, C11 *)
RECURSIVE RunLen(_)
\* failed attempts in a row that end at exchange i
RunLen(i) == IF i = 0 \/ WriteFails(i) \/ K(i) \notin {"none", "bad"} THEN 0 ELSE 1 + RunLen(i - 1)
Good(i) == ~WriteFails(i) /\ K(i) \in {"more", "last"}
ReadOutRight == (Done /\ Scenario = "rr") =>
  LET n == Len(S)
      goods == { i \in 1..n : Good(i) }
      lim == cs.script[1].max
      Fcb(i) == (S[i].d[2] \div 32) % 2
  IN
  /\ n >= 1
  /\ \A i \in 1..n : WriteFails(i) => i = n
  /\ \A i \in 1..n : ~WriteFails(i) => S[i].d = Image(RequestF(5, Fcb(i)))
  /\ ~WriteFails(1) => Fcb(1) = 1
  /\ \A i \in 2..n : ~WriteFails(i) => ((Fcb(i) # Fcb(i - 1)) <=> Good(i - 1))                        \* toggled exactly after a valid answer
  /\ \A i \in 1..(n - 1) : K(i) \in {"more", "none", "bad"}                                           \* goes on only then
  /\ \A i \in 1..n : RunLen(i) <= cs.dr + 1
  /\ (~WriteFails(n) /\ K(n) \in {"none", "bad"}) => RunLen(n) = cs.dr + 1                             \* gives up exactly then
  /\ (~WriteFails(n) /\ K(n) = "more") => lim > 0 /\ Cardinality(goods) = lim
  /\ (lim > 0) => Cardinality(goods) <= lim
  /\ (Ret.v = 0) <=> (~WriteFails(n) /\ K(n) \in {"more", "last"})
  /\ Len(Ret.ch) = IF Ret.v = 0 THEN Cardinality(goods) ELSE 0

(* C04: what was put on the line whole is reported, once, and nothing else *)
Reports == Done =>
  LET scb == SelectSeq(H, LAMBDA e : e.e = "scb")
      whole == SelectSeq([i \in 1..Len(S) |-> [i |-> i, d |-> IF S[i].e = "tx" THEN S[i].d ELSE <<>>]], LAMBDA y : ~WriteFails(y.i))
  IN [i \in 1..Len(scb) |-> scb[i].d] = [i \in 1..Len(whole) |-> whole[i].d]

(* C33: every telegram carries the moment after the exchange that brought it *)
TimesRight == Done =>
  LET n == Len(S)
      goods == { i \in 1..n : Good(i) }
      Rank(i) == Cardinality({ j \in goods : j <= i })
  IN /\ (Scenario = "rr" /\ Ret.v = 0) => \A i \in goods : Ret.ch[Rank(i)].ts = i + 1
     /\ (Scenario = "read" /\ Ret.v = 0) => Ret.f.ts = n + 1
     /\ \A k \in 1..Len(Found) : Found[k].f.ts = n + 1

\* nothing is left unread after a collision, and every call returns
Returned == Done => Cardinality({ i \in 1..Len(H) : H[i].e = "ret" }) = 1
Case == Done => (Emits => PrintT("CASE " \o ToJson([tr |-> cs.tr, w |-> cs.w, sr |-> cs.sr, dr |-> cs.dr, s |-> cs.script,
                    q |-> [i \in 1..Len(SelectSeq(S, LAMBDA e : e.e = "tx")) |-> (SelectSeq(S, LAMBDA e : e.e = "tx"))[i].q]])))
=============================================================================
