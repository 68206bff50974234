----------------------------- MODULE RequestModel -----------------------------
(***************************************************************************)
(* Every request with arguments inside and outside the permitted ranges:   *)
(* the bytes on the line are those EN 13757 prescribes, written out here   *)
(* byte by byte, and nothing is sent for arguments that are not permitted. *)
(***************************************************************************)
EXTENDS MBusMaster

Addrs == {-2147483647, -1, 0, 1, 5, 250, 251, 253, 254, 255, 256, 257, 65541}
Rates == {-1, 0, 1, 184, 300, 301, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 65836}
D8 == <<48, 49, 50, 51, 52, 53, 54, 55, 97, 98, 99, 68, 69, 70, 102, 57>>         \* 01234567abcDEFf9
Texts == { D8, SubSeq(D8, 1, 15), D8 \o <<48>>, <<>>, [D8 EXCEPT ![1] = 103], [D8 EXCEPT ![16] = 32], [D8 EXCEPT ![9] = 58] }
Progs == { [op |-> o, addr |-> a, purge |-> 0] : o \in {"ping", "req"}, a \in Addrs }
   \cup { [op |-> "ud", addr |-> a, d |-> [i \in 1..n |-> i % 256], null |-> z] : a \in Addrs, n \in {0, 1, 2, 251, 252, 253}, z \in {0, 1} }
   \cup { [op |-> "areset", addr |-> a, sub |-> s] : a \in Addrs, s \in {-5, -1, 0, 1, 16, 255, 256, 65535} }
   \cup { [op |-> "baud", addr |-> a, rate |-> r] : a \in Addrs, r \in Rates }
   \cup { [op |-> "setaddr", addr |-> a, new |-> n] : a \in Addrs, n \in Addrs }
   \cup { [op |-> "selframe", m |-> t] : t \in Texts }
   \cup { [op |-> "select", m |-> t] : t \in Texts }
QStarts == { [tr |-> t, tty |-> y, pre |-> <<>>, w |-> w, echo |-> 1, sr |-> 1, dr |-> 3, cb |-> 0, fcb |-> 0, script |-> <<pr>>, env |-> 0] :
               t \in {"tcp", "ser"}, y \in {0, 1}, pr \in Progs, w \in { <<>>, <<"f">>, <<"s">> } }
QObs0(c) == <<>>
QSees(c, h, s) == TRUE
QObserve(c, h, s) == h \o s
QReact(c, h, en, d) == { [q |-> <<>>, env |-> en] }

---------------------------------------------------------------------------
Done == pc = "Done"
Q == cs.script[1]
Sum8(s) == FoldLeft(LAMBDA u, v : (u + v) % 256, 0, s)
ShortBytes(c, a) == <<16, c, a, (c + a) % 256, 22>>
LongBytes(s) == <<104, Len(s), Len(s), 104>> \o s \o <<Sum8(s), 22>>
RateCode == << <<300, 184>>, <<600, 185>>, <<1200, 186>>, <<2400, 187>>, <<4800, 188>>, <<9600, 189>>, <<19200, 190>>, <<38400, 191>> >>
GoodAddr == Q.addr >= 0 /\ Q.addr <= 255
Wire ==      \* what must be on the line; empty when the arguments are not permitted
  CASE Q.op = "ping" -> IF GoodAddr THEN ShortBytes(64, Q.addr) ELSE <<>>
    [] Q.op = "req"  -> IF GoodAddr THEN ShortBytes(91, Q.addr) ELSE <<>>
    [] Q.op = "ud"   -> IF GoodAddr /\ Q.null = 0 /\ Len(Q.d) > 0 /\ Len(Q.d) < 253 THEN LongBytes(<<83, Q.addr, 81>> \o Q.d) ELSE <<>>
    [] Q.op = "areset" -> IF GoodAddr /\ Q.sub < 256 THEN LongBytes(<<83, Q.addr, 80>> \o (IF Q.sub < 0 THEN <<>> ELSE <<Q.sub>>)) ELSE <<>>
    [] Q.op = "baud" -> IF GoodAddr /\ (\E k \in 1..8 : RateCode[k][1] = Q.rate) THEN LongBytes(<<83, Q.addr, RateCode[CHOOSE k \in 1..8 : RateCode[k][1] = Q.rate][2]>>) ELSE <<>>
    [] Q.op = "setaddr" -> IF GoodAddr /\ Q.new >= 0 /\ Q.new <= 252 THEN LongBytes(<<83, Q.addr, 81, 1, 122, Q.new>>) ELSE <<>>
    [] Q.op \in {"selframe", "select"} -> IF Q.m = D8 THEN LongBytes(<<115, 253, 82, 103, 69, 35, 1, 171, 205, 239, 249>>) ELSE <<>>
Txs == SelectSeq(obs, LAMBDA e : e.e \in {"tx", "txfail"})
Ret == (SelectSeq(obs, LAMBDA e : e.e = "ret"))[1]
Works == cs.tr = "tcp" \/ cs.tty = 1
RequestRight == Done =>
  IF Wire = <<>> \/ ~Works THEN Txs = <<>> /\ Ret.v = -1
  ELSE /\ Len(Txs) = 1
       /\ cs.w = <<>> => Txs[1].e = "tx" /\ Txs[1].d = Wire /\ (Ret.v = 0)
       /\ cs.w # <<>> => Ret.v = -1
=============================================================================
