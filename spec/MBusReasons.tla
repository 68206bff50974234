----------------------------- MODULE MBusReasons -----------------------------
(***************************************************************************)
(* Why something is refused: the defects a byte string, a telegram, the    *)
(* data of a reply, an address or a connection really has.  A complaint is *)
(* what is wrong and the numbers that say so; a refusal is explained when  *)
(* its complaint is one of the true ones.                                  *)
(***************************************************************************)
EXTENDS MBusLine, MBusRecords

Complaint(what) == [what |-> what, vals |-> <<>>]
About(what, vals) == [what |-> what, vals |-> vals]
When(cond, c) == IF cond THEN {c} ELSE {}

(* A byte string that is no telegram and cannot become one.                *)
WhyNoTelegram(b) ==
  IF b = <<>> THEN {Complaint("nothing")}
  ELSE CASE b[1] = StartAck -> {}
         [] b[1] = StartShort ->
              IF Len(b) < 5 THEN {} ELSE IF Len(b) > 5 THEN {Complaint("too much")}
              ELSE When(b[2] \notin ShortControls, About("control", <<b[2]>>))
                   \cup When(b[4] # CheckSum(<<b[2], b[3]>>), About("checksum", <<b[4], CheckSum(<<b[2], b[3]>>)>>))
                   \cup When(b[5] # Stop, Complaint("stop"))
         [] b[1] = StartLong ->
              IF Len(b) < 3 THEN {}
              ELSE IF b[2] # b[3] \/ b[2] < 3 THEN {Complaint("length")}
              ELSE IF Len(b) < b[2] + 6 THEN {}
              ELSE IF Len(b) > b[2] + 6 THEN {Complaint("too much")}
              ELSE LET s == CheckSum(SubSeq(b, 5, b[2] + 4)) IN
                   When(b[4] # StartLong, Complaint("start")) \cup When(b[5] \notin LongControls, About("control", <<b[5]>>))
                   \cup When(b[b[2] + 5] # s, About("checksum", <<b[b[2] + 5], s>>)) \cup When(b[b[2] + 6] # Stop, Complaint("stop"))
         [] OTHER -> {Complaint("start")}

(* A telegram with the framing fields given.                               *)
WhyNotVerified(f, s1, s2, l1, l2, ck, st) ==
  CASE f.t = ACK -> When(s1 # StartAck, Complaint("start"))
    [] f.t = SHORT -> When(s1 # StartShort, Complaint("start")) \cup When(f.c \notin ShortControls, About("control", <<f.c>>))
         \cup When(ck # CheckSum(Body(f)), About("checksum", <<ck, CheckSum(Body(f))>>)) \cup When(st # Stop, Complaint("stop"))
    [] f.t \in {CONTROL, LONG} -> When(s1 # StartLong \/ s2 # StartLong, Complaint("start")) \cup When(f.c \notin LongControls, About("control", <<f.c>>))
         \cup When(l1 # l2 \/ l1 # Len(Body(f)), Complaint("length"))
         \cup When(ck # CheckSum(Body(f)), About("checksum", <<ck, CheckSum(Body(f))>>)) \cup When(st # Stop, Complaint("stop"))
    [] OTHER -> {About("type", <<f.t>>)}

(* Variable data: the first record that cannot be read says why.           *)
\* k bytes from i on that all have the extension bit
AllExt(s, i, k) == i + k - 1 <= Len(s) /\ \A j \in i..(i + k - 1) : Ext(s[j])
EndsAt(part) == {Complaint("ends at " \o part)}
WhyNoRecord(s, i) ==
  LET nd == ChainLen(s, i)  v == i + nd IN
  IF nd = 0 \/ nd - 1 > MaxExt THEN When(AllExt(s, i, MaxExt + 1), Complaint("too many DIFE")) \cup (IF nd = 0 THEN EndsAt("DIF") ELSE {})
  ELSE IF v > Len(s) THEN EndsAt("DIF") \cup EndsAt("VIF")
  ELSE
  LET plain == s[v] % 128 = 124
      tl == IF plain /\ v < Len(s) THEN s[v + 1] ELSE 0
      e == IF plain THEN v + 2 + tl ELSE v + 1
      nv == IF Ext(s[v]) THEN ChainLen(s, e) ELSE 0
  IN
  IF plain /\ (v = Len(s) \/ tl > MaxUnitText \/ v + 1 + tl > Len(s))
  THEN When(tl > MaxUnitText, Complaint("unit too long")) \cup (IF v = Len(s) \/ v + 1 + tl > Len(s) THEN EndsAt("unit") ELSE {})
  ELSE IF Ext(s[v]) /\ (nv = 0 \/ nv > MaxExt)
  THEN When(AllExt(s, e, MaxExt), Complaint("too many VIFE")) \cup (IF nv = 0 THEN EndsAt("VIF") ELSE {})
  ELSE EndsAt("data")
RECURSIVE WhyNoRecords(_, _)
WhyNoRecords(s, i) ==
  IF i > Len(s) THEN {}
  ELSE IF s[i] = IdleFiller THEN WhyNoRecords(s, i + 1)
  ELSE LET r == RecordAt(s, i) IN IF r.ok THEN WhyNoRecords(s, r.next) ELSE WhyNoRecord(s, i)

(* A telegram whose data cannot be read.                                   *)
WhyNoData(f) ==
  IF f.t = ACK THEN {Complaint("acknowledgement")}
  ELSE LET away == When(FromMaster(f), Complaint("direction"))
           kind == CASE f.ci = CIError -> {}
                     [] f.ci = CIFixed -> When(f.d = <<>>, Complaint("empty")) \cup When(Len(f.d) # 16, Complaint("length"))
                     [] f.ci = CIVariable -> IF f.d = <<>> THEN {Complaint("empty"), Complaint("header")} ELSE IF Len(f.d) < HeaderLen THEN {Complaint("header")}
                                             ELSE WhyNoRecords(f.d, HeaderLen + 1)
                     [] OTHER -> {About("control information", <<f.ci>>)}
       IN away \cup kind

(* A telegram without the address of its sender; a text that is no address *)
WhyNoAddress(f) == WhyNoData(f) \cup When(f.ci # CIVariable, Complaint("not variable"))
WhyNotAnAddress(t) == When(~IsAddress(t), Complaint("address"))

(* A receive over a network connection that ends in r, with the bytes b.   *)
WhyNoReply(v) == CASE v.r = OK -> {} [] v.r = TIMEOUT -> {Complaint("timeout")} [] v.r = ERROR -> {Complaint("read")} [] v.r = RESET -> {Complaint("closed")}
                   [] OTHER -> {Complaint("parse")} \cup WhyNoTelegram(v.b)
(* Connecting to a gateway: its name is not known, or no address answers.  *)
WhyNotConnected(name, reached) == When(~name, Complaint("name")) \cup When(name /\ ~reached, Complaint("connect"))

(* A text set by the caller is kept as far as there is room for it.        *)
Room == 255             \* at least
KeptAs(t, w) == Len(w) <= Len(t) /\ w = SubSeq(t, 1, Len(w)) /\ (Len(w) = Len(t) \/ Len(w) >= Room)

\* a complaint made in words that are not known says at least something
True(c, reasons) == c.what = "other" \/ \E d \in reasons : d.what = c.what /\ c.vals \in {d.vals, <<>>}
=============================================================================
