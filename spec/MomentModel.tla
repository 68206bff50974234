----------------------------- MODULE MomentModel -----------------------------
(* Every day is followed by the one that the civil calendar has next. *)
EXTENDS MBusMoments
CONSTANTS From, To, Stride          \* days are taken in runs of Stride, one run from each start
VARIABLE day
Starts == { From + Stride * k : k \in 0..((To - From) \div Stride) }
Init == day \in Starts
Next == day + 1 <= To /\ day + 1 \notin Starts /\ day' = day + 1
Spec == Init /\ [][Next]_day

\* stated from the names of the months, and not from their lengths in days
Has31(mo) == mo \in {1, 3, 5, 7, 8, 10, 12}
Ends(c) == CASE c[2] = 2 -> c[3] = 29 \/ (c[3] = 28 /\ (c[1] % 4 # 0 \/ c[1] \in { 100 * n : n \in { m \in 19..99 : m % 4 # 0 } }))
             [] Has31(c[2]) -> c[3] = 31
             [] OTHER -> c[3] = 30
Tomorrow(c) == IF ~Ends(c) THEN <<c[1], c[2], c[3] + 1>> ELSE IF c[2] = 12 THEN <<c[1] + 1, 1, 1>> ELSE <<c[1], c[2] + 1, 1>>
Begins == DateOf(0) = <<1970, 1, 1>>
Follows == DateOf(day + 1) = Tomorrow(DateOf(day))
\* seconds of the day and back
Clock == day % 50 = 0 => \A s \in {0, 1, 59, 60, 61, 3599, 3600, 43199, 43200, 86399} :
  /\ Len(Written(<<day, s>>, "T")) = 20
  /\ day < 24855 => MomentOf(day * 86400 + s) = <<day, s>>
=============================================================================
