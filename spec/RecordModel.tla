----------------------------- MODULE RecordModel -----------------------------
(* Every payload over one byte of every class (as data field, value field, *)
(* extension, length and content alike) up to N bytes after the header.    *)
EXTENDS MBusValues
CONSTANT N
VARIABLE s
\* 00 no data; 01, 02 some data; 0D variable length; 0F, 1F the rest; 2F filler; 7C, FC plain-text unit; 81 extended; C1, E2 lengths
Alphabet == {0, 1, 2, 13, 15, 31, 47, 124, 129, 193, 226, 252}
Init == s = <<>>
Next == Len(s) < N /\ \E b \in Alphabet : s' = Append(s, b)
Emit == PrintT("CASE " \o FoldLeft(LAMBDA acc, c : acc \o HexByteLo(c), "", s))

R == RecordsFrom(s, 1)
Packed(recs) == FoldLeft(LAMBDA acc, r : acc \o PackRecord(r), <<>>, recs)
\* without fillers, the records are the payload
Tiles == R.ok /\ (\A k \in 1..Len(s) : s[k] # IdleFiller) => Packed(R.recs) = s
\* encoding the records and decoding them again gives the same records
Again == R.ok => LET q == RecordsFrom(Packed(R.recs), 1) IN q.ok /\ q.recs = R.recs
\* where records end, a payload falls into two payloads
Splits == \A k \in 1..Len(s) - 1 :
            LET a == RecordsFrom(SubSeq(s, 1, k), 1) b == RecordsFrom(SubSeq(s, k + 1, Len(s)), 1)
                open == a.ok /\ \A j \in 1..Len(a.recs) : ~Special(a.recs[j])
            IN open => (R.ok = b.ok /\ (b.ok => R.recs = a.recs \o b.recs))
\* nothing follows a block that takes the rest
Rest == R.ok => \A j \in 1..Len(R.recs) - 1 : ~Special(R.recs[j])
\* a record has exactly the data its coding announces
Sized == R.ok => \A j \in 1..Len(R.recs) : LET r == R.recs[j] IN
           Special(r) \/ Len(r.d) = IF Coding(r) = 13 THEN 1 + LVarLen(r.d[1]) ELSE FieldLen[Coding(r) + 1]
=============================================================================
