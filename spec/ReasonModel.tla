----------------------------- MODULE ReasonModel -----------------------------
(***************************************************************************)
(* Telegrams damaged in every combination of ways, and record data of      *)
(* every shape over a small alphabet: there is a reason exactly when the   *)
(* thing is refused, and it is one of the damages done.                    *)
(***************************************************************************)
EXTENDS MBusReasons, TLC, Json
CONSTANTS Depth
VARIABLES kind, good, harm, data

Goods == { [t |-> SHORT, c |-> 91, a |-> 5], [t |-> CONTROL, c |-> 83, a |-> 1, ci |-> 80], [t |-> LONG, c |-> 8, a |-> 1, ci |-> 114, d |-> <<1, 2, 3>>] }
Harms(g) == IF g.t = SHORT THEN {"control", "checksum", "stop", "too much"} ELSE {"control", "checksum", "stop", "start", "length", "too much"}
Put(s, i, v) == [s EXCEPT ![i] = v]
Damaged(g, h) ==
  LET w0 == Image(g)
      ctl == IF g.t = SHORT THEN 2 ELSE 5
      w1 == IF "control" \in h THEN Put(Put(w0, ctl, 1), Len(w0) - 1, (w0[Len(w0) - 1] - w0[ctl] + 257) % 256) ELSE w0
      w2 == IF "checksum" \in h THEN Put(w1, Len(w1) - 1, (w1[Len(w1) - 1] + 1) % 256) ELSE w1
      w3 == IF "stop" \in h THEN Put(w2, Len(w2), 17) ELSE w2
      w4 == IF "start" \in h THEN Put(w3, 4, 105) ELSE w3
      w5 == IF "length" \in h THEN Put(w4, 3, (w4[3] + 1) % 256) ELSE w4
  IN IF "too much" \in h THEN Append(w5, 22) ELSE w5

Alphabet == {1, 13, 15, 47, 19, 124, 129, 147, 252, 253}
Chains == { h0 \o [k \in 1..n |-> 128 + (k % 128)] \o tail : h0 \in {<<129>>, <<1, 147>>, <<141>>}, n \in 8..12, tail \in {<<>>, <<0>>, <<19>>, <<19, 5>>, <<0, 19, 5>>, <<5, 5, 5>>} }
Hdr == <<120, 86, 52, 18, 1, 2, 3, 4, 5, 6, 7, 8>>

Init == \/ kind = "telegram" /\ good \in Goods /\ harm \in SUBSET Harms(good) /\ data = <<>>
        \/ kind = "data" /\ good = <<>> /\ harm = {} /\ data \in Chains \cup {<<>>}
Next == kind = "data" /\ Len(data) < Depth /\ \E b \in Alphabet : data' = Append(data, b) /\ UNCHANGED <<kind, good, harm>>
Spec == Init /\ [][Next]_<<kind, good, harm, data>>

Bytes0 == Damaged(good, harm)
Named(cs) == { d.what : d \in cs }
TheReply == [t |-> LONG, c |-> 8, a |-> 1, ci |-> CIVariable, d |-> Hdr \o data]
ReasonWhenRefused == IF kind = "telegram" THEN (WhyNoTelegram(Bytes0) = {}) = (Decide(Bytes0).r >= 0) ELSE (WhyNoData(TheReply) = {}) = (DataOf(TheReply).k # "bad")
ReasonIsTheHarm == kind = "telegram" => Named(WhyNoTelegram(Bytes0)) \subseteq harm
Unharmed == kind = "telegram" /\ harm = {} => Decide(Bytes0).r = 0
OneIsEnough == kind = "telegram" /\ Cardinality(harm) = 1 => Named(WhyNoTelegram(Bytes0)) = harm
\* a prefix of data that is whole is never refused for its length alone: adding bytes does not turn a "too many" into something else
TooManyStays == kind = "data" /\ Named(WhyNoData(TheReply)) \cap {"too many DIFE", "too many VIFE"} # {} =>
                \A b \in Alphabet : Named(WhyNoData([TheReply EXCEPT !.d = Append(@, b)])) \cap {"too many DIFE", "too many VIFE"} # {}
Case == PrintT("CASE " \o ToJson([kind |-> kind, d |-> IF kind = "telegram" THEN Bytes0 ELSE Hdr \o data]))
=============================================================================
