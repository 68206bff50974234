----------------------------- MODULE AbsentModel -----------------------------
(* Every call with everything it needs and every choice of what is missing. *)
EXTENDS MBusAbsent, TLC, Json
VARIABLE c
Init == c \in UNION { { [f |-> y.f, miss |-> s] : s \in (SUBSET y.needs) \ {{}} } : y \in Calls }
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
OneCallEach == \A a, b \in Calls : a.f = b.f => a = b
Lacking == c.miss \cap CallOf(c.f).needs # {}
Case == PrintT("CASE " \o ToJson(c))
=============================================================================
