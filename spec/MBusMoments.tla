----------------------------- MODULE MBusMoments -----------------------------
(***************************************************************************)
(* Moments and how they are written.  A moment is a pair of the days since *)
(* the beginning of 1970 and the seconds of that day, both counted in UTC; *)
(* Unknown is the moment of what was never received.                       *)
(***************************************************************************)
EXTENDS MBusValues

Unknown == <<>>
MomentOf(s) == << s \div 86400, s % 86400 >>          \* from seconds since 1970
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
DaysBefore(y) == 365 * (y - 1970) + LeapsBefore(y) - LeapsBefore(1970)
RECURSIVE InMonth(_, _, _)
InMonth(y, mo, d) == LET n == MonthDays(y)[mo] IN IF d >= n THEN InMonth(y, mo + 1, d - n) ELSE <<y, mo, d + 1>>
\* the calendar repeats itself every 400 years, which are 146097 days
DateOf(day) ==
  LET d == day % 146097
      g == 1970 + (d \div 366)                 \* that year, or the next
      y == IF d >= DaysBefore(g + 1) THEN g + 1 ELSE g
      c == InMonth(y, 1, d - DaysBefore(y))
  IN <<c[1] + 400 * (day \div 146097), c[2], c[3]>>
Written(at, between) ==
  LET c == DateOf(at[1]) t == at[2] IN
  ToString(c[1]) \o "-" \o Two(c[2]) \o "-" \o Two(c[3]) \o between \o Two(t \div 3600) \o ":" \o Two((t \div 60) % 60) \o ":" \o Two(t % 60) \o "Z"
=============================================================================
