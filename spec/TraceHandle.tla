----------------------------- MODULE TraceHandle -----------------------------
(***************************************************************************)
(* Recorded lives of handles: after every call the observation must be one *)
(* that MBusHandle allows.                                                 *)
(***************************************************************************)
EXTENDS MBusHandle, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv
VARIABLES hc, hl, hs          \* case, next call, state of the handle

Pick(evs, names) == SelectSeq(evs, LAMBDA e : e.e \in names)
Seen(k) == LET evs == k.evs
               fds == Pick(evs, {"open", "close", "openfail", "connfail", "badclose", "badsocket", "badconnect"})
               lines == Pick(evs, {"line"})
               okl == SelectSeq(lines, LAMBDA e : e.ok = 0)
               res == Pick(evs, {"resolve"})
               dev == Pick(evs, {"dev"})
               to == Pick(evs, {"to"})
               tm == Pick(evs, {"tmo"})
               tx == Pick(evs, {"tx"})
           IN [v |-> k.v, fds |-> fds,
               line |-> IF lines = <<>> THEN NoLine ELSE [f \in DOMAIN LineAt(2400) |-> lines[Len(lines)][f]], refused |-> okl # <<>>,
               res |-> [j \in 1..Len(res) |-> [h |-> res[j].h, p |-> res[j].p]],
               dev |-> [j \in 1..Len(dev) |-> dev[j].h], to |-> [j \in 1..Len(to) |-> to[j].n],
               tmo |-> { [w |-> tm[j].w, ms |-> tm[j].ms] : j \in 1..Len(tm) }, free |-> Len(Pick(evs, {"freeaddr"})),
               tx |-> [j \in 1..Len(tx) |-> tx[j].d], f |-> k.f]
TInit == LET all == Trace IN /\ hc \in { all[k].i @@ [id |-> all[k].id, end |-> all[k].end, calls |-> all[k].calls] : k \in 1..Len(all) }
                             /\ hl = 1 /\ hs = [NoHandle EXCEPT !.bus = hc.pre]
\* a call during which memory was refused may fail and change nothing
Allowed(k, st, c) == After(st, c) \cup IF k.oom = 1 /\ c.op \notin {"free", "tmo"} THEN Just(Fails, st) ELSE {}
TNext == hl <= Len(hc.script) /\ \E o \in Allowed(hc.calls[hl], hs, hc.script[hl]) :
  /\ Seen(hc.calls[hl]) = o.ob /\ hl' = hl + 1 /\ hs' = o.st /\ UNCHANGED hc
Spec == TInit /\ [][TNext]_<<hc, hl, hs>>
\* a handle that is gone or disconnected owns nothing
Sane == hs.open \subseteq 0..(hs.next - 1) /\ (hs.fd # None => hs.fd \in hs.open)
\* in the end exactly the descriptors the handle left open are open, and a freed handle left no memory behind
Clean == hc.end.fds = Cardinality(hs.open) /\ (~hs.h => hc.end.live = 0)
Accepted == (hl = Len(hc.script) + 1 /\ Len(hc.calls) = Len(hc.script) /\ Clean) => PrintT("ACCEPT " \o ToString(hc.id))
Where == Diag => PrintT("AT " \o ToString(hc.id) \o " " \o ToString(hl))
=============================================================================
