----------------------------- MODULE MBusRecords -----------------------------
(***************************************************************************)
(* The application layer (EN 13757-3): how the data of a reply is cut into *)
(* records, and what the pieces mean.  Everything here is a function of    *)
(* the bytes; no part of it follows the library's own decoding loop.       *)
(***************************************************************************)
EXTENDS MBusFrame

HeaderLen == 12
MaxExt == 10            \* extensions of an information field
MaxUnitText == 128      \* bytes of a plain-text unit

IdleFiller == 47   ManufacturerSpecific == 15   MoreRecordsFollow == 31
CIError == 112  CIFixed == 115  CIVariable == 114

Ext(b) == b >= 128
Lo(b) == b % 16
\* bytes i..j of s, empty when i > j
Cut(s, i, j) == IF i > j THEN <<>> ELSE SubSeq(s, i, j)

\* data bytes announced by the data field of a DIF; 13 is the variable length coding
FieldLen == <<0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8>>
\* data bytes announced by an LVAR byte
LVarLen(v) ==
  CASE v <= 191 -> v
    [] v \in 192..201 -> v - 192            \* C0-C9: positive BCD, two digits a byte
    [] v \in 208..217 -> v - 208            \* D0-D9: negative BCD
    [] v \in 224..239 -> v - 224            \* E0-EF: binary
    [] v \in 240..244 -> 4 * (v - 236)      \* F0-F4
    [] v = 245 -> 48
    [] v = 246 -> 64
    [] OTHER -> 0

\* number of bytes, starting at i, up to and including the first without extension bit; 0 when the string ends first
RECURSIVE ChainLen(_, _)
ChainLen(s, i) == IF i > Len(s) THEN 0
                  ELSE IF ~Ext(s[i]) THEN 1
                  ELSE LET r == ChainLen(s, i + 1) IN IF r = 0 THEN 0 ELSE r + 1

NoRecord == [ok |-> FALSE]
(* The record that starts at position i of s: its parts and the position after it. *)
RecordAt(s, i) ==
  IF s[i] \in {ManufacturerSpecific, MoreRecordsFollow}
  THEN [ok |-> TRUE, next |-> Len(s) + 1,
        rec |-> [dif |-> s[i], dife |-> <<>>, vif |-> 0, vife |-> <<>>, cust |-> <<>>, d |-> Cut(s, i + 1, Len(s))]]
  ELSE
  LET nd == ChainLen(s, i)                       \* DIF and its extensions
      v  == i + nd                               \* position of the VIF
  IN
  IF nd = 0 \/ nd - 1 > MaxExt \/ v > Len(s) THEN NoRecord
  ELSE
  LET plain == s[v] % 128 = 124                  \* a unit in plain text follows the VIF
      tl == IF plain /\ v < Len(s) THEN s[v + 1] ELSE 0
      e  == IF plain THEN v + 2 + tl ELSE v + 1  \* position of the first VIFE, if any
      nv == IF Ext(s[v]) THEN ChainLen(s, e) ELSE 0
      p  == e + nv                               \* position of the data
      var == Lo(s[i]) = 13
  IN
  IF \/ plain /\ (v = Len(s) \/ tl > MaxUnitText \/ v + 1 + tl > Len(s))
     \/ Ext(s[v]) /\ (nv = 0 \/ nv > MaxExt)
     \/ var /\ p > Len(s)
  THEN NoRecord
  ELSE
  LET n == IF var THEN 1 + LVarLen(s[p]) ELSE FieldLen[Lo(s[i]) + 1] IN
  IF p + n - 1 > Len(s) THEN NoRecord
  ELSE [ok |-> TRUE, next |-> p + n,
        rec |-> [dif |-> s[i], dife |-> Cut(s, i + 1, v - 1), vif |-> s[v], vife |-> Cut(s, e, p - 1),
                 cust |-> IF plain THEN Reverse(Cut(s, v + 2, v + 1 + tl)) ELSE <<>>,
                 d |-> Cut(s, p, p + n - 1)]]

RECURSIVE RecordsFrom(_, _)
RecordsFrom(s, i) ==
  IF i > Len(s) THEN [ok |-> TRUE, recs |-> <<>>]
  ELSE IF s[i] = IdleFiller THEN RecordsFrom(s, i + 1)
  ELSE LET r == RecordAt(s, i) IN
       IF ~r.ok THEN [ok |-> FALSE]
       ELSE LET t == RecordsFrom(s, r.next) IN
            IF t.ok THEN [ok |-> TRUE, recs |-> <<r.rec>> \o t.recs] ELSE t

\* Variable data: header and records, or failure.
Variable(s) ==
  IF Len(s) < HeaderLen THEN [ok |-> FALSE]
  ELSE LET r == RecordsFrom(s, HeaderLen + 1) IN
       IF ~r.ok THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, hdr |-> SubSeq(s, 1, HeaderLen), recs |-> r.recs,
             more |-> IF \E k \in 1..Len(r.recs) : r.recs[k].dif = MoreRecordsFollow THEN 1 ELSE 0]

\* What the data of a reply telegram (direction slave to master) is: k is the kind.
DataOf(f) ==
  IF f.t \notin {CONTROL, LONG} \/ FromMaster(f) THEN [k |-> "bad"]
  ELSE CASE f.ci = CIError -> [k |-> "err", err |-> IF f.d = <<>> THEN 0 ELSE f.d[1]]
         [] f.ci = CIFixed -> IF Len(f.d) = 16 THEN [k |-> "fix", d |-> f.d] ELSE [k |-> "bad"]
         [] f.ci = CIVariable -> LET v == Variable(f.d) IN
              IF v.ok THEN [k |-> "var", hdr |-> v.hdr, recs |-> v.recs, more |-> v.more] ELSE [k |-> "bad"]
         [] OTHER -> [k |-> "bad"]

\* the eight bytes that identify a slave, as they stand in its replies
SecondaryBytes(f) == SubSeq(f.d, 1, 8)
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
HexByte(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]
HexText(s) == FoldLeft(LAMBDA acc, b : acc \o HexByte(b), "", s)
\* address text: identification most significant byte first, then manufacturer, version, medium
AddressText(b) == HexText(<<b[4], b[3], b[2], b[1], b[5], b[6], b[7], b[8]>>)

\* the characters of a mask as text
MaskChar(c) == CASE c \in 48..57 -> HexDigit[c - 47] [] c \in 65..70 -> HexDigit[c - 54] [] c \in 97..102 -> <<"a","b","c","d","e","f">>[c - 96] [] OTHER -> "?"
MaskText(t) == FoldLeft(LAMBDA acc, c : acc \o MaskChar(c), "", t)
\* addresses are given as sequences of character codes
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsAddress(t) == Len(t) = 16 /\ \A k \in 1..16 : DigitVal(t[k]) >= 0
AddressBytes(t) ==
  LET B(k) == 16 * DigitVal(t[2*k - 1]) + DigitVal(t[2*k]) IN
  <<B(4), B(3), B(2), B(1), B(5), B(6), B(7), B(8)>>

=============================================================================
