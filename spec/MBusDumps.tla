------------------------------ MODULE MBusDumps ------------------------------
(***************************************************************************)
(* What is shown for diagnosis: the fields of a reply, the telegrams of a  *)
(* chain and traffic in hexadecimal.  The fields are pairs of a name and   *)
(* a text, in order; how they are aligned is not specified.                *)
(***************************************************************************)
EXTENDS MBusMoments, MBusProducts

YesNo(b) == IF b THEN "Yes" ELSE "No"
P(name, text) == << <<name, text>> >>
Hex0x(b) == "0x" \o HexByte(b)
Nth(name, j, field) == name \o "[" \o ToString(j - 1) \o "]" \o field

DumpHeader(h) ==
  P("ID", HexNumber(Reverse(SubSeq(h, 1, 4)))) \o P("Manufacturer", Hex0x(h[6]) \o HexByte(h[5])) \o P("Manufacturer", Manufacturer(h[5], h[6]))
  \o P("Version", Hex0x(h[7])) \o P("Medium", MediumText(h[8]) \o " (" \o Hex0x(h[8]) \o ")") \o P("Access #", Hex0x(h[9]))
  \o P("Status", Hex0x(h[10])) \o P("Signature", Hex0x(h[12]) \o HexByte(h[11]))

Numbered(s) == [j \in 1..Len(s) |-> [j |-> j, v |-> s[j]]]
DumpExtensions(r) == FoldLeft(LAMBDA acc, q : acc
    \o P(Nth("DIFE", q.j, ""), HexByte(q.v)) \o P(Nth("DIFE", q.j, ".Extension"), YesNo(Ext(q.v))) \o P(Nth("DIFE", q.j, ".Device"), ToString((q.v \div 64) % 2))
    \o P(Nth("DIFE", q.j, ".Tariff"), ToString((q.v \div 16) % 4)) \o P(Nth("DIFE", q.j, ".StorageNumber"), HexByte(q.v % 16)), <<>>, Numbered(r.dife))
DumpValueExtensions(r) == FoldLeft(LAMBDA acc, q : acc
    \o P(Nth("VIFE", q.j, ""), HexByte(q.v)) \o P(Nth("VIFE", q.j, ".Extension"), YesNo(Ext(q.v))) \o P(Nth("VIFE", q.j, ".Value"), HexByte(q.v % 128)), <<>>, Numbered(r.vife))
DumpRecord(r, n) ==
  P("Record ID", ToString(n)) \o P("DIF", HexByte(r.dif)) \o P("DIF.Extension", YesNo(Ext(r.dif))) \o P("DIF.StorageNumber", ToString((r.dif \div 64) % 2))
  \* the function of what is no value is not specified
  \o P("DIF.Function", IF Special(r) THEN "-" ELSE FunctionText(r)) \o P("DIF.Data", HexByte(r.dif % 16))
  \o IF Special(r)
     THEN P("VENDOR DATA [size=" \o ToString(Len(r.d)) \o "]", Dump(r.d)) \o IF r.dif = MoreRecordsFollow THEN P("More records follow in next telegram", "") ELSE <<>>
     ELSE P("DATA LENGTH", ToString(Len(r.d))) \o DumpExtensions(r)
          \o P("VIF", HexByte(r.vif)) \o P("VIF.Extension", YesNo(Ext(r.vif))) \o P("VIF.Value", HexByte(r.vif % 128)) \o DumpValueExtensions(r)

DumpCounter(status, v) == IF status < 128 THEN HexNumber(Reverse(v)) ELSE IntText(TwosComplement(v))
DumpFixed(d) ==
  P("ID", HexNumber(Reverse(SubSeq(d, 1, 4)))) \o P("Access #", Hex0x(d[5])) \o P("Status", Hex0x(d[6])) \o P("Function", FixedFunction(d[6]))
  \o P("Medium1", FixedMedium(d[7], d[8])) \o P("Unit1", FixedText(d[7] % 64)) \o P("Counter1", DumpCounter(d[6], SubSeq(d, 9, 12)))
  \o P("Medium2", FixedMedium(d[7], d[8])) \o P("Unit2", FixedText(d[8] % 64)) \o P("Counter2", DumpCounter(d[6], SubSeq(d, 13, 16)))

\* the fields of decoded data
DumpData(v) ==
  CASE v.k = "bad" -> <<>>
    [] v.k = "err" -> P("Error", ToString(v.err))
    [] v.k = "fix" -> DumpFixed(v.d)
    [] OTHER -> DumpHeader(v.hdr) \o FoldLeft(LAMBDA acc, q : acc \o DumpRecord(q.v, q.j - 1), <<>>, Numbered(v.recs))

(* The telegrams of a chain, one after another, up to the first that has   *)
(* no encoding.                                                            *)
RECURSIVE DumpChain(_)
DumpChain(fs) ==
  IF fs = <<>> THEN [r |-> 0, lines |-> <<>>]
  ELSE LET e == Encode(Head(fs), 1000) IN
       IF e.r < 0 THEN [r |-> -1, lines |-> <<>>]
       ELSE LET t == DumpChain(Tail(fs)) IN
            [r |-> t.r, lines |-> << [t |-> Head(fs).t, n |-> e.r, d |-> e.w] >> \o t.lines]

Three(n) == (IF n < 100 THEN "0" ELSE "") \o Two(n)
\* traffic: when, what, how much and the bytes
HexDump(now, label, b) ==
  "[" \o Written(MomentOf(now), " ") \o "] " \o label \o " (" \o Three(Len(b)) \o "):" \o FoldLeft(LAMBDA acc, c : acc \o " " \o HexByte(c), "", b) \o "%0A"
=============================================================================
