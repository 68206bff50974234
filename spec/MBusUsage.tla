----------------------------- MODULE MBusUsage -----------------------------
(***************************************************************************)
(* What the words of a command line mean to each program: options in front *)
(* in the documented order (in any order for the multi reply readout), then*)
(* the device, or the host and its port, and what the program is to work   *)
(* on.  Words are sequences of character codes.  A command line with no    *)
(* meaning is wrong usage.  ("-d" may be the name of a device as well: a   *)
(* command line can have more than one meaning.)                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Flag(c) == <<45, c>>
DebugO   == [w |-> Flag(100), f |-> "debug",   takes |-> FALSE]       \* -d
BaudO    == [w |-> Flag(98),  f |-> "baud",    takes |-> TRUE]        \* -b BAUDRATE
RetriesO == [w |-> Flag(114), f |-> "retries", takes |-> TRUE]        \* -r RETRIES
FramesO  == [w |-> Flag(102), f |-> "max",     takes |-> TRUE]        \* -f FRAMES

Options(n, tr) ==
  LET speed == IF tr = "ser" THEN << BaudO >> ELSE <<>> IN
  CASE n = "scan" -> << DebugO >> \o speed \o << RetriesO >>
    [] n = "scan2" -> IF tr = "ser" THEN << DebugO, BaudO >> ELSE <<>>
    [] n \in {"set", "read"} -> << DebugO >> \o speed
    [] n = "readall" -> << DebugO >> \o speed \o << FramesO >>
    [] n \in {"select2", "baud"} -> speed
    [] n \in {"reset", "raw"} -> << DebugO >>
AnyOrder(n) == n = "readall"
Where(tr) == IF tr = "ser" THEN << "place" >> ELSE << "place", "port" >>
Needed(n) == CASE n \in {"scan", "scan2"} -> <<>>
               [] n = "set" -> << "addr", "new" >>
               [] n = "baud" -> << "addr", "rate" >>
               [] OTHER -> << "addr" >>
Also(n) == CASE n = "scan2" -> << "addr" >> [] n = "reset" -> << "sub" >> [] n = "raw" -> << "file" >> [] OTHER -> <<>>

\* all ways to take options off the words w: what they set, and the words that are left
RECURSIVE Ways(_, _, _, _)
Ways(os, any, w, got) ==
  { [got |-> got, w |-> w] } \cup
  UNION { LET o == os[j]  left == IF any THEN os ELSE SubSeq(os, j + 1, Len(os)) IN
          IF w = <<>> \/ w[1] # o.w THEN {}
          ELSE IF ~o.takes THEN Ways(left, any, Tail(w), (o.f :> << 49 >>) @@ got)
          ELSE IF Len(w) > 1 THEN Ways(left, any, SubSeq(w, 3, Len(w)), (o.f :> w[2]) @@ got) ELSE {} : j \in 1..Len(os) }
Meanings(n, tr, words) ==
  LET names == Where(tr) \o Needed(n)  all == names \o Also(n) IN
  { [f \in { all[k] : k \in 1..Len(y.w) } |-> y.w[CHOOSE k \in 1..Len(y.w) : all[k] = f]] @@ y.got :
      y \in { z \in Ways(Options(n, tr), AnyOrder(n), words, [none |-> <<>>]) : Len(z.w) \in Len(names)..Len(all) } }
=============================================================================
