----------------------------- MODULE TracePure -----------------------------
(***************************************************************************)
(* Conformance of recorded calls of the library's functions of one         *)
(* argument-to-result kind: each line of the trace is one call, and the    *)
(* specification computes the observation it must have produced.           *)
(* Rejected lines are printed; the checker's verdict is taken from them.   *)
(***************************************************************************)
EXTENDS MBusXml, Json, IOUtils
Du == INSTANCE MBusDumps
Ab == INSTANCE MBusAbsent
Y == INSTANCE MBusReasons
Ob == INSTANCE MBusObjects

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 64
VARIABLE l

---------------------------------------------------------------------------
ExpParse(i) ==
  LET v == Decide(i.d) b == i.d IN
  IF v.r # 0 THEN [r |-> v.r]
  ELSE IF v.f.t = ACK THEN [r |-> 0, t |-> ACK, s1 |-> StartAck]
  ELSE IF v.f.t = SHORT THEN [r |-> 0, t |-> SHORT, s1 |-> b[1], c |-> b[2], a |-> b[3], ck |-> b[4], st |-> b[5]]
  ELSE [r |-> 0, t |-> v.f.t, s1 |-> b[1], l1 |-> b[2], l2 |-> b[3], s2 |-> b[4], c |-> v.f.c, a |-> v.f.a, ci |-> v.f.ci,
        d |-> v.f.d, n |-> Len(v.f.d), ck |-> b[Len(b)-1], st |-> b[Len(b)]]

FrameOf(i) == CASE i.t = SHORT -> [t |-> SHORT, c |-> i.c, a |-> i.a]
                [] i.t = CONTROL -> [t |-> CONTROL, c |-> i.c, a |-> i.a, ci |-> i.ci]
                [] i.t = LONG -> [t |-> LONG, c |-> i.c, a |-> i.a, ci |-> i.ci, d |-> i.d]
                [] OTHER -> [t |-> i.t]

ExpPack(i) ==
  LET e == Encode(FrameOf(i), i.n) IN
  IF e.r < 0 THEN [r |-> -1, clean |-> 1]
  ELSE LET p == Decide(e.w)
           ok == p.r = 0        \* the control code is a permitted one
       IN IF ok THEN [r |-> e.r, w |-> e.w, p |-> 0, f |-> Shown(p.f, 0), v |-> 0]
          ELSE [r |-> e.r, w |-> e.w, p |-> -1, v |-> 1]

ExpVerify(i, o) ==      \* the driver echoes the framing fields it used
  [s1 |-> o.s1, s2 |-> o.s2, l1 |-> o.l1, l2 |-> o.l2, ck |-> o.ck, st |-> o.st,
   v |-> IF VerifyOk(FrameOf(i), o.s1, o.s2, o.l1, o.l2, o.ck, o.st) THEN 0 ELSE 1]

---------------------------------------------------------------------------
(* Data of replies.  i: control, ci and data of the telegram, w: the parts *)
(* of a record that the case is about, norm: whether the meaning of the    *)
(* records was asked for, repack: whether they were encoded again.         *)
Reply(c, ci, d) == [t |-> IF d = <<>> THEN CONTROL ELSE LONG, c |-> c, a |-> 1, ci |-> ci, d |-> d]
Only(r, keys) == [k \in (DOMAIN r \cap keys) |-> r[k]]
Keys(s) == { s[k] : k \in 1..Len(s) }
Project(o, i) ==
  IF "recs" \notin DOMAIN o THEN o
  ELSE LET P(r) == LET q == Only(r, Keys(i.w)) IN IF "norm" \in DOMAIN q THEN [q EXCEPT !.norm = Only(@, Keys(i.w))] ELSE q
       IN [o EXCEPT !.recs = [k \in 1..Len(o.recs) |-> P(o.recs[k])]]
\* the data of a telegram without data bytes is that of no kind
DataHeld(i) == DataOf(Reply(i.c, i.ci, i.d))
\* a fixed or error telegram and variable data in full; data that fits is encoded again
Again(i, v) == IF i.repack = 0 THEN <<>> ELSE
  LET w == CASE v.k = "err" -> <<v.err>> [] v.k = "fix" -> v.d [] OTHER -> PackVariable(v)
  IN IF Len(w) > MaxData THEN [rp |-> -1] ELSE [rp |-> 0, rd |-> w]
ExpData(i, o) ==
  LET v == DataHeld(i)
      base == CASE v.k = "bad" -> [r |-> -1]
                [] v.k = "err" -> [r |-> 0, k |-> "err", err |-> v.err]
                [] v.k = "fix" -> [r |-> 0] @@ (IF i.norm = 0 THEN Fixed(v.d, o, FALSE) ELSE IF o.r # 0 \/ o.k # "fix" THEN [expected |-> "fixed data"] ELSE Fixed(v.d, o, TRUE))
                [] OTHER -> [r |-> 0, k |-> "var", hdr |-> v.hdr, nrec |-> Len(v.recs), more |-> v.more,
                             recs |-> LET seen == o.r = 0 /\ o.k = "var" IN
                                      LET same == seen /\ Len(o.recs) = Len(v.recs) IN
                                      [j \in 1..Len(v.recs) |-> Reported(v.recs[j], IF same THEN o.recs[j] ELSE <<>>, i.norm = 1 /\ same)]]
      again == IF v.k = "bad" THEN <<>> ELSE Again(i, v)
  IN [live |-> 0] @@ base @@ again

ExpXml(i, o) ==
  LET ds == [k \in 1..Len(i.ds) |-> DataOf(Reply(i.ds[k].c, i.ds[k].ci, i.ds[k].d)) @@ [at |-> i.ds[k].at]]
      Shows(doc, key) == IF key \notin DOMAIN o THEN FALSE ELSE DocOk(doc, o[key])
      one == ds[1].k # "bad"
  IN IF /\ o.live = 0
        /\ Shows(Chain(ds), "chain")
        /\ one => Shows(Single(ds[1]), "raw") /\ Shows(Normalized(ds[1]), "norm")
        /\ ~one => "raw" \notin DOMAIN o
     THEN o ELSE [live |-> 0, chain |-> Chain(ds), norm |-> IF one THEN Normalized(ds[1]) ELSE NoDoc]

---------------------------------------------------------------------------
(* Memory was refused during the call (i.oom): it may fail, or do without. *)
(* A record that cannot be normalized for it is shown as one that is not   *)
(* known.  Never is something else shown than without the refusal.         *)
Refused(i) == "oom" \in DOMAIN i /\ i.oom = 1
Absent(o, key) == key \in DOMAIN o /\ o[key] = [ok |-> 0]
DoWithout(e, o) ==
  LET e2 == [key \in DOMAIN e |-> IF key \in {"n1", "n2"} /\ Absent(o, key) THEN [ok |-> 0] ELSE e[key]] IN
  IF "recs" \in DOMAIN e2 /\ "recs" \in DOMAIN o /\ Len(o.recs) = Len(e2.recs)
  THEN [e2 EXCEPT !.recs = [j \in 1..Len(e2.recs) |-> IF Absent(o.recs[j], "norm") THEN [e2.recs[j] EXCEPT !.norm = [ok |-> 0]] ELSE e2.recs[j]]]
  ELSE e2
FailedData == [live |-> 0, r |-> -1]
ExpDataShort(i, o) == IF o = FailedData THEN FailedData ELSE DoWithout(ExpData(i, o), o)
BlankSeen(d, doc) == IF doc.has = 0 \/ d.k # "var" THEN {} ELSE
  { n \in 0..(Len(d.recs) - 1) : \E j \in 1..(Len(doc.lines) - 1) : doc.lines[j].s = RecordOpen(n, -1).s /\ doc.lines[j + 1].s = RecordClose[1].s }
ExpXmlShort(i, o) ==
  LET ds == [k \in 1..Len(i.ds) |-> DataOf(Reply(i.ds[k].c, i.ds[k].ci, i.ds[k].d)) @@ [at |-> i.ds[k].at]]
      one == ds[1].k # "bad"
      Without(key) == key \notin DOMAIN o \/ o[key].has = 0
  IN IF /\ o.live = 0
        /\ "chain" \in DOMAIN o /\ (Without("chain") \/ DocOk(Chain(ds), o.chain))
        /\ Without("raw") \/ DocOk(Single(ds[1]), o.raw)
        /\ Without("norm") \/ DocOk(NormalizedBut(ds[1], BlankSeen(ds[1], o.norm)), o.norm)
     THEN o ELSE [live |-> 0, chain |-> Chain(ds), norm |-> IF one THEN Normalized(ds[1]) ELSE NoDoc]

---------------------------------------------------------------------------
(* Addresses *)
Selection(b) == [t |-> LONG, c |-> 115, a |-> 253, ci |-> 82, d |-> b, ts |-> 0]
ExpAddr(i) == IF IsAddress(i.s) THEN [is |-> 1, r |-> 0, f |-> Selection(AddressBytes(i.s))] ELSE [is |-> 0, r |-> -1]
ExpGetAddr(i, o) ==
  LET v == DataOf(Reply(i.c, i.ci, i.d)) IN
  IF v.k # "var" \/ (Refused(i) /\ o.addr = "%NULL") THEN [addr |-> "%NULL", live |-> 0]
  ELSE [addr |-> AddressText(SubSeq(i.d, 1, 8)), r |-> 0, f |-> Selection(SubSeq(i.d, 1, 8)), live |-> 0]

(* Hexadecimal text into n bytes *)
ExpHex(i) == LET p == Pairs(i.d, 1, i.n) IN [r |-> Len(p), w |-> p \o [k \in 1..(i.n - Len(p)) |-> 0]]

(* Numbers in n bytes: i.s is 1 for negative numbers, i.m the digits *)
Value(i) == Dec(i.s, NatOfDigits(i.m), 0)
IntFits(i) == i.n <= 4 /\ Len(i.m) <= 10
              /\ LET half == MulPow(<<1>>, 2, <<13, 8192>>, 8 * i.n - 1) IN IF i.s = 1 THEN NatCmp(Value(i).n, half) <= 0 ELSE NatCmp(Value(i).n, half) < 0
BcdFits(i) == Len(i.m) <= IF i.s = 1 THEN 2 * i.n - 1 ELSE 2 * i.n
ExpNum(i, o) ==
  LET okI == IntFits(i) => o.ir = 0 /\ TwosComplement(o.ib) = Value(i) /\ o.iv = i.v
      okB == BcdFits(i) => o.br = 0 /\ Bcd(o.bb) = Value(i) /\ o.bd = IntText(Value(i))
  IN IF okI /\ okB THEN o ELSE [text |-> IntText(Value(i)), ifits |-> IntFits(i), bfits |-> BcdFits(i)]

Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
IsAlpha(c) == Upper(c) \in 65..90
ExpMan(i) == IF Len(i.s) >= 3 /\ (\A k \in 1..3 : IsAlpha(i.s[k]))
             THEN LET id == (Upper(i.s[1]) - 64) * 1024 + (Upper(i.s[2]) - 64) * 32 + Upper(i.s[3]) - 64 IN [man |-> id, e |-> <<id % 256, id \div 256>>]
             ELSE [man |-> 0]
ExpLookup(i) == [prod |-> ProductName(i.h), medium |-> MediumText(i.h[8]), err |-> ErrorText(i.err)]

(* What is shown for diagnosis *)
ExpDprint(i) == LET v == DataHeld(i) IN IF v.k = "bad" THEN [r |-> -1, live |-> 0] ELSE [r |-> 0, live |-> 0, lines |-> Du!DumpData(v)]
ExpFprint(i) == [live |-> 0] @@ Du!DumpChain([k \in 1..Len(i.fs) |-> FrameOf(i.fs[k])])
ExpHexDump(i) == [text |-> IF i.none = 1 THEN "" ELSE Du!HexDump(i.now, i.label, i.d)]

(* Calls that lack what they work on, and texts into buffers *)
ExpAbsent(i, o) == LET c == Ab!CallOf(i.f) IN IF Ab!FailsFor(c, { i.miss[k] : k \in 1..Len(i.miss) }, o) THEN o ELSE [r |-> CHOOSE v \in c.fails : TRUE, same |-> 1, quiet |-> 1, works |-> 1]
DigitCodes == << 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70 >>
HexPair(b) == << DigitCodes[b \div 16 + 1], DigitCodes[(b % 16) + 1] >>
\* (names of the characters that XML cannot have as they are; control characters become blanks)
XmlCodes(b) == IF b = 38 THEN <<38, 97, 109, 112, 59>> ELSE IF b = 60 THEN <<38, 108, 116, 59>> ELSE IF b = 62 THEN <<38, 103, 116, 59>> ELSE IF b = 34 THEN <<38, 113, 117, 111, 116, 59>>
              ELSE IF b < 32 \/ b = 127 THEN <<32>> ELSE <<b>>
ExpText(i, o) ==
  LET es == CASE i.f = "bin" -> [k \in 1..Len(i.d) |-> HexPair(i.d[Len(i.d) + 1 - k])]
              [] i.f = "raw" -> [k \in 1..Len(i.d) |-> HexPair(i.d[k])]
              [] i.f = "xml" -> [k \in 1..Len(i.d) |-> XmlCodes(i.d[k])]
  IN IF Ab!FitsAs(es, IF i.f = "xml" THEN <<>> ELSE <<32>>, i.n, IF i.f = "xml" THEN 6 ELSE 1, o.w) THEN o ELSE [as_many_as_fit |-> es]

(* The complaint a refusal leaves: one that is true of what was refused.   *)
Complains(o, reasons) == IF reasons = {} THEN IF o.r >= 0 THEN o ELSE [accepted |-> 1]
                             ELSE IF o.r < 0 /\ o.same = 0 /\ Y!True([what |-> o.what, vals |-> o.vals], reasons) THEN o ELSE [why |-> reasons]
ExpWhy(i, o) ==
  CASE i.f = "parse" -> Complains(o, Y!WhyNoTelegram(i.d))
    [] i.f = "verify" -> Complains(o, Y!WhyNotVerified(FrameOf(i), o.s1, o.s2, o.l1, o.l2, o.ck, o.st))
    [] i.f = "data" -> Complains(o, Y!WhyNoData([Reply(i.c, i.ci, i.d) EXCEPT !.t = IF i.ack = 1 THEN ACK ELSE LONG]))
    [] i.f = "getaddr" -> Complains(o, Y!WhyNoAddress([Reply(i.c, i.ci, i.d) EXCEPT !.t = LONG]))
    [] i.f = "addr" -> Complains(o, Y!WhyNotAnAddress(i.s))
    [] i.f = "recv" -> LET v == Y!TcpRecv(i.q, <<>>) IN IF o.r = v.r THEN Complains(o, Y!WhyNoReply(v)) ELSE [r |-> v.r]
    [] i.f = "connect" -> LET reasons == Y!WhyNotConnected(i.name = 1, i.reached = 1) IN
                          IF reasons # {} /\ o.what = "connect" /\ o.place = 0 THEN [names |-> "the gateway"] ELSE Complains(o, reasons)
    [] i.f = "set" -> IF Y!KeptAs(i.s, o.w) THEN o ELSE [w |-> i.s]
    [] i.f = "setnull" -> IF o.same = 1 THEN o ELSE [same |-> 1]
    [] i.f = "reset" -> IF o.same = 0 /\ o.what = "none" THEN o ELSE [what |-> "none"]

(* Objects held side by side: each step of a history yields what it must.  *)
DataKeys == << "dif", "dife", "vif", "vife", "cust", "d", "ts", "fn", "sto", "tar", "dev", "unit", "val", "norm", "ok", "num", "qty", "str" >>
ShownRight(x, o) ==
  CASE x.k = "nothing" -> o = <<>>
    [] x.k = "telegram" -> o = ExpParse(x)
    [] x.k = "data" -> LET i == [c |-> x.c, ci |-> x.ci, d |-> x.d, norm |-> 1, repack |-> 0, w |-> DataKeys] s == [live |-> 0] @@ o IN s = ExpData(i, s)
    [] x.k \in {"chain", "document"} -> ("chain" \in DOMAIN o /\ DocOk(Chain(Ob!RepliesOf(x.ds)), o.chain))
    [] x.k = "record" -> "norm" \in DOMAIN o /\ o.norm = Norm(x.r, o.norm)
StepRight(h, s, o) ==
  CASE s.do = "make" -> o = [r |-> IF Ob!Made(h, s) = Ob!Nothing THEN -1 ELSE 0]
    [] s.do = "show" -> ShownRight(h[s.at], o)
    [] OTHER -> o = <<>>
WrongSteps(i, o) == { n \in 1..Len(i.steps) : ~StepRight(Ob!HeldAfter(i.steps, n - 1), i.steps[n], o.steps[n]) }
ExpObjects(i, o) ==
  LET bad == WrongSteps(i, o) IN
  IF bad = {} /\ o.live = 0 THEN o
  ELSE IF bad = {} THEN [live |-> 0]
  ELSE LET n == CHOOSE n \in bad : \A j \in bad : n <= j IN [at_step |-> n, of |-> Ob!After(Ob!HeldAfter(i.steps, n - 1), i.steps[n])[i.steps[n].at], not |-> o.steps[n]]

Expected(x) ==
  CASE x.op = "vdata"   -> Project(IF Refused(x.i) THEN ExpDataShort(x.i, x.o) ELSE ExpData(x.i, x.o), x.i)
    [] x.op = "xml"     -> IF Refused(x.i) THEN ExpXmlShort(x.i, x.o) ELSE ExpXml(x.i, x.o)
    [] x.op = "addr"    -> ExpAddr(x.i)
    [] x.op = "getaddr" -> ExpGetAddr(x.i, x.o)
    [] x.op = "hex2bin" -> ExpHex(x.i)
    [] x.op = "num"     -> ExpNum(x.i, x.o)
    [] x.op = "man"     -> ExpMan(x.i)
    [] x.op = "manr"    -> [t |-> Manufacturer(x.i.a, x.i.b)]
    [] x.op = "lookup"  -> ExpLookup(x.i)
    [] x.op = "parse"  -> ExpParse(x.i)
    [] x.op = "pack"   -> ExpPack(x.i)
    [] x.op = "dprint"  -> ExpDprint(x.i)
    [] x.op = "fprint"  -> ExpFprint(x.i)
    [] x.op = "hexdump" -> ExpHexDump(x.i)
    [] x.op = "absent"  -> ExpAbsent(x.i, x.o)
    [] x.op = "text"    -> ExpText(x.i, x.o)
    [] x.op = "verify" -> ExpVerify(x.i, x.o)
    [] x.op = "why"     -> ExpWhy(x.i, x.o)
    [] x.op = "objects" -> ExpObjects(x.i, x.o)

---------------------------------------------------------------------------
Init == l \in 1..W /\ l <= Len(Trace)
Next == l + W <= Len(Trace) /\ l' = l + W
Spec == Init /\ [][Next]_l

Conforms == LET x == Trace[l] e == Expected(x) o == IF x.op = "vdata" THEN Project(x.o, x.i) ELSE x.o IN
            e = o \/ PrintT("REJECT " \o ToString(x.id) \o " expected " \o ToString(e))
=============================================================================
