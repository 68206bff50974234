---------------------------- MODULE MBusObjects ----------------------------
(***************************************************************************)
(* The objects the library hands out, and what a caller may do with them.  *)
(* Every object is its holder's: telegrams, decoded replies, chains,       *)
(* documents and normalized records are each made of what they were made   *)
(* from as it was then, show that until they are released, and know        *)
(* nothing of each other.  A step of a history is                          *)
(*   [do |-> "make", at, k, ...]   k: F of an image, D of data, C of the   *)
(*      data of several telegrams, X their document; d the data of the     *)
(*      telegram held at of, x the document of the chain held at of, N the *)
(*      n-th record of the data held at of, normalized; f, c and e give    *)
(*      the telegram, the first of the chain or the data held at this      *)
(*      place other content                                                *)
(*   [do |-> "show", at]   [do |-> "release", at]                          *)
(***************************************************************************)
EXTENDS MBusXml
Places == 0..9
Nothing == [k |-> "nothing"]
NothingHeld == [p \in Places |-> Nothing]
TelegramWith(x) == [t |-> IF x.d = <<>> THEN CONTROL ELSE LONG, c |-> x.c, a |-> 1, ci |-> x.ci, d |-> x.d]
ReplyOf(x) == DataOf(TelegramWith(x))
IfDecodes(x) == IF ReplyOf(x).k = "bad" THEN Nothing ELSE [k |-> "data", c |-> x.c, ci |-> x.ci, d |-> x.d]
RepliesOf(ds) == [j \in 1..Len(ds) |-> ReplyOf(ds[j]) @@ [at |-> ds[j].at]]
IfDocument(ds) == IF Chain(RepliesOf(ds)) = NoDoc THEN Nothing ELSE [k |-> "document", ds |-> ds]
\* the object a step makes: nothing if what it would be made from is refused
Made(h, s) ==
  CASE s.k = "F" -> IF Decide(s.d).r = 0 THEN [k |-> "telegram", d |-> s.d] ELSE Nothing
    [] s.k = "f" -> IF h[s.at].k = "telegram" /\ Decide(s.d).r = 0 THEN [k |-> "telegram", d |-> s.d] ELSE Nothing
    [] s.k = "c" -> IF h[s.at].k = "chain" THEN [h[s.at] EXCEPT !.ds[1] = s.ds[1]] ELSE Nothing
    [] s.k = "e" -> IF h[s.at].k = "data" THEN IfDecodes(s) ELSE Nothing
    [] s.k = "D" -> IfDecodes(s)
    [] s.k = "d" -> IF h[s.of].k # "telegram" THEN Nothing ELSE IF Decide(h[s.of].d).f.t # LONG THEN Nothing ELSE IfDecodes(Decide(h[s.of].d).f)
    [] s.k = "C" -> [k |-> "chain", ds |-> s.ds]
    [] s.k = "X" -> IfDocument(s.ds)
    [] s.k = "x" -> IF h[s.of].k # "chain" THEN Nothing ELSE IfDocument(h[s.of].ds)
    [] s.k = "N" -> IF h[s.of].k # "data" THEN Nothing
                    ELSE LET v == ReplyOf(h[s.of]) IN
                         IF v.k # "var" THEN Nothing ELSE IF Len(v.recs) < s.n THEN Nothing ELSE [k |-> "record", r |-> v.recs[s.n]]
After(h, s) == CASE s.do = "make" -> [h EXCEPT ![s.at] = Made(h, s)]
                 [] s.do = "release" -> [h EXCEPT ![s.at] = Nothing]
                 [] OTHER -> h
RECURSIVE HeldAfter(_, _)
HeldAfter(steps, n) == IF n = 0 THEN NothingHeld ELSE After(HeldAfter(steps, n - 1), steps[n])
=============================================================================
