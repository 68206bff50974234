----------------------------- MODULE ScarceModel -----------------------------
(***************************************************************************)
(* The operations of the master among all environments, where memory may   *)
(* be refused at any moment.  A call that does not fail means what it      *)
(* means when memory abounds; a call that fails has sent nothing but what  *)
(* the operation sends, in its order, and reported all of it.              *)
(***************************************************************************)
EXTENDS MasterModel
SSpec == Init /\ [][Next \/ Starve(TRUE)]_vars

Failed == Ret.v = IF Scenario \in {"select", "probe"} THEN PROBEERROR ELSE -1
Means == Done => Failed \/ (SelectRight /\ ProbeRight /\ ReadRight /\ ReadOutRight)
\* what a failing call has put on the line
Whole(i) == S[i].e = "tx" /\ ~WriteFails(i)
Legitimate == Done =>
  /\ \A i \in 1..Len(S) : WriteFails(i) => i = Len(S)
  /\ Scenario = "select" => Len(S) <= 1
  /\ Scenario \in {"select", "probe"} => \A i \in 1..Len(S) : Whole(i) => S[i].d = SelImg \/ (Scenario = "probe" /\ i > 1 /\ i = Len(S) /\ S[i].d = AskImg(NetworkLayer) /\ SelectMeaning(K(i - 1)) = SINGLE)
  /\ Scenario = "read" => Len(S) <= 2 /\ \A i \in 1..Len(S) : Whole(i) => S[i].d = IF cs.script[1].prim = 0 /\ i = 1 THEN SelImg ELSE IF cs.script[1].prim = 1 THEN AskImg(5) ELSE AskImg(NetworkLayer)
  /\ Scenario = "rr" => \A i \in 1..Len(S) : Whole(i) => S[i].d = Image(RequestF(5, (S[i].d[2] \div 32) % 2)) /\ (i = 1 \/ (S[i].d # S[i - 1].d <=> Good(i - 1)))
\* a slave is announced only when it answered, and nothing is handed out by a call that fails
Announced == Done => /\ (Found # <<>> => Len(Found) = 1 /\ K(Len(S)) = "answer")
                     /\ (Scenario = "probe" /\ Failed => Ret.m = "")
                     /\ (Scenario = "read" /\ Failed => Ret.f = NoFrame)
                     /\ (Scenario = "rr" /\ Failed => Ret.ch = <<>>)
=============================================================================
