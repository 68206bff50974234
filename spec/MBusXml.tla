------------------------------- MODULE MBusXml -------------------------------
(***************************************************************************)
(* The documents generated for replies, as sequences of lines.  A line is  *)
(* [k |-> "l", s |-> text]; a normalized number is a line of kind "n" that *)
(* must be near the number it carries; "any" stands for a value element    *)
(* whose content is not specified.                                         *)
(***************************************************************************)
EXTENDS MBusMoments, MBusProducts

L(s) == [k |-> "l", s |-> s]
Element(name, text) == L("        <" \o name \o ">" \o text \o "</" \o name \o ">")
Opening == <<L("<?xml version=%221.0%22 encoding=%22ISO-8859-1%22?>"), L("<MBusData>"), L("")>>
Closing == <<L("</MBusData>")>>
\* a telegram that was received is shown with the moment it was, d.at
Stamp(at) == IF at = Unknown THEN "" ELSE Written(at, "T")
ValueLine(t) == IF t = AnyText THEN [k |-> "any", s |-> ""] ELSE Element("Value", Xml(t))

Header(h) ==
  <<L("    <SlaveInformation>"),
    Element("Id", HexNumber(Reverse(SubSeq(h, 1, 4)))),
    Element("Manufacturer", Manufacturer(h[5], h[6])),
    Element("Version", ToString(h[7])),
    Element("ProductName", XmlLit(ProductName(h))),
    Element("Medium", XmlLit(MediumText(h[8]))),
    Element("AccessNumber", ToString(h[9])),
    Element("Status", HexByte(h[10])),
    Element("Signature", HexByte(h[12]) \o HexByte(h[11])),
    L("    </SlaveInformation>"), L("")>>

\* n: number of the record; frame: number of the telegram, or -1
RecordOpen(n, frame) == L("    <DataRecord id=%22" \o ToString(n) \o (IF frame >= 0 THEN "%22 frame=%22" \o ToString(frame) ELSE "") \o "%22>")
RecordClose == <<L("    </DataRecord>"), L("")>>
Extensions(r) == IF r.dife = <<>> THEN <<>> ELSE <<Element("Tariff", ToString(Tariff(r))), Element("Device", ToString(Device(r)))>>
Record(r, n, frame, stamp) ==
  <<RecordOpen(n, frame), Element("Function", NormFunction(r))>>
  \o (IF Special(r) THEN <<>> ELSE <<Element("StorageNumber", StorageText(r))>> \o Extensions(r) \o <<Element("Unit", Xml(UnitText(r)))>>)
  \o <<ValueLine(ValueText(r))>>
  \o (IF stamp = "" THEN <<>> ELSE <<Element("Timestamp", stamp)>>)
  \o RecordClose

NormRecord(r, n) ==
  <<RecordOpen(n, -1)>>
  \o (IF ~HasNorm(r) THEN <<>>
      ELSE <<Element("Function", NormFunction(r)), Element("StorageNumber", StorageText(r))>> \o Extensions(r)
           \o <<Element("Unit", IF Special(r) THEN "" ELSE XmlLit(BaseUnit(r))), Element("Quantity", IF Special(r) THEN "" ELSE Xml(QuantityText(r)))>>
           \o <<IF ~Numeric(r) THEN ValueLine(NormText(r))
                ELSE IF Unspecified(r) \/ (IsReal(r) /\ IsInf(r.d)) THEN [k |-> "any", s |-> ""]
                ELSE [k |-> "n", s |-> "        <Value>", v |-> NormValue(r, Number2Dec(r)), b |-> NormBound(r, Number2Dec(r))]>>)
  \o RecordClose

FixedCounter(n, status, type, v) ==
  <<RecordOpen(n, -1), Element("Function", FixedFunction(status)), Element("Unit", FixedText(type % 64)),
    Element("Value", IF status < 128 THEN HexNumber(Reverse(v)) ELSE IntText(TwosComplement(v)))>> \o RecordClose
FixedDoc(d) ==
  Opening \o <<L("    <SlaveInformation>"), Element("Id", HexNumber(Reverse(SubSeq(d, 1, 4)))), Element("Medium", FixedMedium(d[7], d[8])),
               Element("AccessNumber", ToString(d[5])), Element("Status", HexByte(d[6])), L("    </SlaveInformation>"), L("")>>
  \o FixedCounter(0, d[6], d[7], SubSeq(d, 9, 12)) \o FixedCounter(1, d[6], d[8], SubSeq(d, 13, 16)) \o Closing
ErrorDoc(e) == Opening \o <<L("    <SlaveInformation>"), Element("Error", ErrorText(e)), L("    </SlaveInformation>"), L("")>> \o Closing

Indexed(seq) == [i \in 1..Len(seq) |-> i]
\* the records of one telegram, numbered from n
RecordLines(recs, n, frame, at) == LET stamp == Stamp(at) IN FoldLeft(LAMBDA acc, i : acc \o Record(recs[i], n + i - 1, frame, stamp), <<>>, Indexed(recs))

\* data of every telegram of a chain; the kinds are those of DataOf
NoDoc == [ok |-> FALSE]
Chain(ds) ==
  CASE ds[1].k = "bad" -> NoDoc
    [] ds[1].k = "err" -> [ok |-> TRUE, lines |-> ErrorDoc(ds[1].err)]
    [] ds[1].k = "fix" -> [ok |-> TRUE, lines |-> FixedDoc(ds[1].d)]
    [] OTHER ->
       IF \E i \in 1..Len(ds) : ds[i].k = "bad" THEN NoDoc
       ELSE LET recs(i) == IF ds[i].k = "var" THEN ds[i].recs ELSE <<>>
                all == FoldLeft(LAMBDA a, i : [lines |-> a.lines \o RecordLines(recs(i), a.n, IF Len(ds) = 1 THEN -1 ELSE i - 1, ds[i].at), n |-> a.n + Len(recs(i))],
                                [lines |-> <<>>, n |-> 0], Indexed(ds))
            IN [ok |-> TRUE, lines |-> Opening \o Header(ds[1].hdr) \o all.lines \o Closing]
\* the data of a single telegram, and its normalized form (which an error does not have)
Single(d) ==
  CASE d.k = "bad" -> NoDoc
    [] d.k = "err" -> [ok |-> TRUE, lines |-> ErrorDoc(d.err)]
    [] d.k = "fix" -> [ok |-> TRUE, lines |-> FixedDoc(d.d)]
    [] OTHER -> [ok |-> TRUE, lines |-> Opening \o Header(d.hdr) \o RecordLines(d.recs, 0, -1, d.at) \o Closing]
Blank(n) == <<RecordOpen(n, -1)>> \o RecordClose
\* blank: the (numbers of the) records that are shown without content
NormalizedBut(d, blank) ==
  CASE d.k \in {"bad", "err"} -> NoDoc
    [] d.k = "fix" -> [ok |-> TRUE, lines |-> FixedDoc(d.d)]
    [] OTHER -> [ok |-> TRUE, lines |-> Opening \o Header(d.hdr) \o FoldLeft(LAMBDA acc, i : acc \o (IF i - 1 \in blank THEN Blank(i - 1) ELSE NormRecord(d.recs[i], i - 1)), <<>>, Indexed(d.recs)) \o Closing]
Normalized(d) == NormalizedBut(d, {})

(* Observed lines: [s |-> text], and for a value element that is a number  *)
(* also its sign, digits and number of decimals.                           *)
HalfLast == Dec(0, <<6>>, -7)            \* numbers are shown with six decimals
LineOk(e, o) ==
  CASE e.k = "l" -> o.s = e.s
    [] e.k = "any" -> "v" \in DOMAIN o
    [] OTHER -> "n" \in DOMAIN o /\ Near(Dec(o.n.s, NatOfDigits(o.n.d), 0 - o.n.f), e.v, DecAdd(e.b, HalfLast))
DocOk(doc, o) == IF ~doc.ok THEN o.has = 0
                 ELSE o.has = 1 /\ Len(o.lines) = Len(doc.lines) /\ \A i \in 1..Len(o.lines) : LineOk(doc.lines[i], o.lines[i])

=============================================================================
