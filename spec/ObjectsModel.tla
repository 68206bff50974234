---------------------------- MODULE ObjectsModel ----------------------------
(***************************************************************************)
(* Every history of objects up to a length, over a memory of blocks that   *)
(* are taken anew for every part of an object and used again once they are *)
(* released.  The guarantees: an object always shows what it was made      *)
(* from, no two share a part, and what nobody holds is not kept.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Held, Depth, Emits
VARIABLES at, mem, log

Kinds == { "F", "D", "C", "X" }
PartsOf(k) == CASE k \in {"F", "X", "x"} -> 1 [] k \in {"C", "N"} -> 2 [] OTHER -> 3
\* an object can be made of another
Derived(k) == CASE k = "F" -> {"d"} [] k = "C" -> {"x"} [] k \in {"D", "d"} -> {"N"} [] OTHER -> {}
None == [k |-> "none", parts |-> <<>>, of |-> 0]
Free(m, n) == LET F == (1..(Cardinality(DOMAIN m) + n)) \ DOMAIN m IN
  CHOOSE s \in [1..n -> F] : \A a, b \in 1..n : a < b => s[a] < s[b] /\ \A c \in F : c < s[b] => \E j \in 1..n : s[j] = c
Place == CHOOSE p \in Held : at[p] = None /\ \A q \in Held : q < p => at[q] # None
Room == \E p \in Held : at[p] = None
Holding == { p \in Held : at[p] # None }
\* the content of an object is what its parts say
Says(p) == mem[at[p].parts[1]]
Take(k, content) == LET b == Free(mem, PartsOf(k)) IN
  /\ mem' = [j \in { b[n] : n \in DOMAIN b } |-> content] @@ mem
  /\ at' = [at EXCEPT ![Place] = [k |-> k, parts |-> b, of |-> content]]
Make == Room /\ \E k \in Kinds : Take(k, Len(log) + 1) /\ log' = Append(log, [do |-> "make", k |-> k, at |-> Place])
Derive == Room /\ \E p \in Holding : \E k \in Derived(at[p].k) : Take(k, Says(p)) /\ log' = Append(log, [do |-> "make", k |-> k, at |-> Place, of |-> p])
\* telegrams and replies can be given other content
Refill == \E p \in Holding : at[p].k \in {"F", "C", "D", "d"} /\
  /\ mem' = [b \in DOMAIN mem |-> IF \E n \in DOMAIN at[p].parts : at[p].parts[n] = b THEN Len(log) + 1 ELSE mem[b]]
  /\ at' = [at EXCEPT ![p].of = Len(log) + 1]
  /\ log' = Append(log, [do |-> "make", k |-> CASE at[p].k = "F" -> "f" [] at[p].k = "C" -> "c" [] OTHER -> "e", at |-> p])
\* what is refused leaves everything as it was
Refuse == Room /\ \E k \in {"F", "D", "X"} : log' = Append(log, [do |-> "refuse", k |-> k, at |-> Place]) /\ UNCHANGED <<at, mem>>
Release == \E p \in Holding :
  /\ mem' = [b \in DOMAIN mem \ { at[p].parts[n] : n \in DOMAIN at[p].parts } |-> mem[b]]
  /\ at' = [at EXCEPT ![p] = None]
  /\ log' = Append(log, [do |-> "release", at |-> p])
Init == at = [p \in Held |-> None] /\ mem = <<>> /\ log = <<>>
Next == Len(log) < Depth /\ (Make \/ Derive \/ Refill \/ Refuse \/ Release)
Spec == Init /\ [][Next]_<<at, mem, log>>

Parts(p) == { at[p].parts[n] : n \in DOMAIN at[p].parts }
ShowsItsSource == \A p \in Holding : \A b \in Parts(p) : b \in DOMAIN mem /\ mem[b] = at[p].of
Apart == \A p, q \in Holding : p # q => Parts(p) \cap Parts(q) = {}
NothingKept == DOMAIN mem = UNION { Parts(p) : p \in Holding }
\* a step leaves what it is not about as it was
Untouched == [][\A p \in Holding : at'[p] = at[p] => \A b \in Parts(p) : b \in DOMAIN mem' /\ mem'[b] = mem[b]]_<<at, mem, log>>
Case == (Len(log) = Depth /\ Emits) => PrintT("CASE " \o ToJson([s |-> log]))
=============================================================================
