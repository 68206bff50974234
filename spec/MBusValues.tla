----------------------------- MODULE MBusValues -----------------------------
(***************************************************************************)
(* The meaning of a data record: function, storage number, tariff, device  *)
(* unit, value and normalized value.                                       *)
(***************************************************************************)
EXTENDS MBusUnits

Special(r) == r.dif \in {ManufacturerSpecific, MoreRecordsFollow}
FunctionBits(r) == (r.dif \div 16) % 4
FunctionText(r) == <<"Instantaneous value", "Maximum value", "Minimum value", "Value during error state">>[FunctionBits(r) + 1]

\* storage number: one bit of the DIF, then four of every extension; as a decimal number
StorageText(r) == NatText(MulAdd(FoldLeft(LAMBDA n, e : MulAdd(n, 16, e % 16), <<>>, Reverse(r.dife)), 2, ((r.dif \div 64) % 2)))
\* tariff: two bits of every extension; device unit: one
Tariff(r) == IF r.dife = <<>> THEN -1 ELSE FoldLeft(LAMBDA n, e : 4 * n + ((e \div 16) % 4), 0, Reverse(r.dife))
Device(r) == IF r.dife = <<>> THEN -1 ELSE FoldLeft(LAMBDA n, e : 2 * n + ((e \div 64) % 2), 0, Reverse(r.dife))

Coding(r) == r.dif % 16
\* what the data is
IsDate(r) == Coding(r) = 2 /\ r.vif % 128 = 108
IsTime(r) == Coding(r) \in {4, 6} /\ (r.vif % 128 = 109 \/ (r.vif = 253 /\ (r.vife[1] % 128) \in {48, 112}))
IsInt(r) == Coding(r) \in {1, 2, 3, 4, 6, 7} /\ ~IsDate(r) /\ ~IsTime(r)
IsReal(r) == Coding(r) = 5
IsBcd(r) == Coding(r) \in {9, 10, 11, 12, 14}
IsText(r) == Coding(r) = 13 /\ r.d[1] <= 191
IsBinary(r) == Coding(r) = 13 /\ r.d[1] > 191
Numeric(r) == IsInt(r) \/ IsReal(r) \/ IsBcd(r)

Two(i) == IF i < 10 THEN "0" \o ToString(i) ELSE ToString(i)
Date(y, m, d) == ToString(y) \o "-" \o Two(m) \o "-" \o Two(d)
YearBits(lo, hi) == (lo \div 32) + 8 * (hi \div 16)
DateText(d) == Date(2000 + YearBits(d[1], d[2]), d[2] % 16, d[1] % 32)
At(h, m, s) == "T" \o Two(h) \o ":" \o Two(m) \o ":" \o Two(s)
Invalid == Date(1900, 1, 0) \o At(0, 0, 0)
TimeText(d) ==
  IF Len(d) = 6        \* type I
  THEN IF d[2] >= 128 THEN Invalid
       ELSE Date(2000 + YearBits(d[4], d[5]), d[5] % 16, d[4] % 32) \o At(d[3] % 32, d[2] % 64, d[1] % 64)
  ELSE IF d[1] >= 128 THEN Invalid        \* type F
       ELSE LET y == YearBits(d[3], d[4])
                h == (d[2] \div 32) % 4
                c == IF h = 0 /\ y <= 80 THEN 1 ELSE h        \* two digit years of old meters
            IN Date(1900 + 100 * c + y, d[4] % 16, d[3] % 32) \o At(d[2] % 32, d[1] % 64, 0)

\* digits of a BCD number, most significant first; F as the first one is the minus sign
BcdDigits(d) == LET n == Nibbles(Reverse(d)) IN IF n[1] = 15 THEN [s |-> 1, d |-> Tail(n)] ELSE [s |-> 0, d |-> n]
ValidBcd(d) == \A i \in 1..Len(BcdDigits(d).d) : BcdDigits(d).d[i] <= 9
Bcd(d) == LET b == BcdDigits(d) IN Dec(b.s, NatOfDigits(b.d), 0)

AnyText == [lit |-> "?", b |-> <<>>]        \* the specification does not say
UnknownDif(r) == T("Unknown DIF (0x" \o HexByteLo(r.dif) \o ")")
ValueText(r) ==
  CASE Coding(r) = 0 -> T("")
    [] IsDate(r) -> T(DateText(r.d))
    [] IsTime(r) -> T(TimeText(r.d))
    [] IsInt(r) -> T(IntText(TwosComplement(r.d)))
    [] IsReal(r) -> IF IsNan(r.d) THEN AnyText ELSE IF IsInf(r.d) THEN T(IF RealSign(r.d) = 1 THEN "-inf" ELSE "inf") ELSE T(RealText(r.d))
    [] IsBcd(r) -> IF FunctionBits(r) = 3 THEN T(HexNumber(Reverse(r.d))) ELSE IF ValidBcd(r.d) THEN T(IntText(Bcd(r.d))) ELSE AnyText
    [] IsText(r) -> TB("", Reverse(Tail(r.d)))
    [] IsBinary(r) -> T(Dump(Reverse(Tail(r.d))))
    [] Coding(r) = 15 -> T(Dump(r.d))
    [] OTHER -> UnknownDif(r)

---------------------------------------------------------------------------
(* The normalized record: none when value or unit are not known. *)
HasNorm(r) == Special(r) \/ (Coding(r) # 8 /\ Known(Entry(r)))
\* the function bits of 15 with extensions or other functions are those of a record, its data a special function
NormText(r) == LET t == ValueText(r) IN IF IsTime(r) THEN T(t.lit \o "Z") ELSE t
NormFunction(r) == IF r.dif = MoreRecordsFollow THEN "More records follow" ELSE IF r.dif = ManufacturerSpecific THEN "Manufacturer specific" ELSE FunctionText(r)
Unspecified(r) == (IsBcd(r) /\ ~ValidBcd(r.d)) \/ (IsReal(r) /\ IsNan(r.d))
Number2Dec(r) == IF IsInt(r) THEN TwosComplement(r.d) ELSE IF IsReal(r) THEN RealDec(r.d) ELSE Bcd(r.d)

\* an observed number: sign, 15 significant digits, exponent of the first
Seen(v) == Dec(v.s, NatOfDigits(v.m), v.x - 14)
NumberOk(r, v) ==
  IF Unspecified(r) THEN TRUE
  ELSE IF IsReal(r) /\ IsInf(r.d) THEN (IF Entry(r).m = 0 THEN TRUE ELSE v.k = IF RealSign(r.d) = 1 THEN "-inf" ELSE "inf")
  ELSE v.k = "num" /\ Near(Seen(v), NormValue(r, Number2Dec(r)), NormBound(r, Number2Dec(r)))

\* the normalized record as it must be reported, given what was observed
Norm(r, o) ==
  IF ~HasNorm(r) THEN [ok |-> 0]
  ELSE LET head == [ok |-> 1, num |-> IF Numeric(r) THEN 1 ELSE 0, fn |-> NormFunction(r),
                    unit |-> IF Special(r) THEN "%NULL" ELSE BaseUnit(r), qty |-> IF Special(r) THEN "%NULL" ELSE Plain(QuantityText(r)),
                    dev |-> Device(r), tar |-> ToString(Tariff(r)), sto |-> StorageText(r)]
       IN IF Numeric(r) THEN head @@ [val |-> IF "val" \in DOMAIN o /\ NumberOk(r, o.val) THEN o.val
                                              ELSE IF IsReal(r) /\ IsInf(r.d) THEN [is |-> "infinite"] ELSE [about |-> NormValue(r, Number2Dec(r))]]
          ELSE head @@ [str |-> Plain(NormText(r))]

ValueOf(r, o) == IF ValueText(r) = AnyText THEN o.val ELSE Plain(ValueText(r))

\* a record as reported
Reported(r, o, withNorm) ==
  LET head == [dif |-> r.dif, dife |-> r.dife, vif |-> r.vif, vife |-> r.vife, cust |-> BytesText(r.cust), d |-> r.d, ts |-> 1]
  IN IF withNorm THEN head @@ [fn |-> FunctionText(r), sto |-> StorageText(r), tar |-> ToString(Tariff(r)), dev |-> Device(r),
                               unit |-> Plain(UnitText(r)), val |-> ValueOf(r, o), norm |-> Norm(r, o.norm)]
     ELSE head

---------------------------------------------------------------------------
(* Fixed data *)
FixedValue(status, v) == IF status < 128 THEN Bcd(v) ELSE TwosComplement(v)
FixedFunction(status) == IF (status \div 64) % 2 = 1 THEN "Stored value" ELSE "Actual value"
FixedNorm(status, type, v, o) ==
  LET e == FixedUnit(type % 64)
      skip == status < 128 /\ ~ValidBcd(v)
      x == Times(FixedValue(status, v), e, 0)
      b == [Times(DecAbs(FixedValue(status, v)), e, 0) EXCEPT !.x = @ - 12]
      ok == skip \/ ("val" \in DOMAIN o /\ o.val.k = "num" /\ Near(Seen(o.val), x, b))
  IN [ok |-> 1, num |-> 1, fn |-> FixedFunction(status), unit |-> e.u, qty |-> e.q, dev |-> -1, tar |-> "-1", sto |-> "0",
      val |-> IF ok /\ "val" \in DOMAIN o THEN o.val ELSE [about |-> x]]
Fixed(d, o, withNorm) ==
  LET t1 == d[7] t2 == d[8] v1 == SubSeq(d, 9, 12) v2 == SubSeq(d, 13, 16)
      head == [k |-> "fix", idn |-> SubSeq(d, 1, 4), acc |-> d[5], sta |-> d[6], t1 |-> t1, t2 |-> t2, v1 |-> v1, v2 |-> v2]
  IN IF withNorm THEN head @@ [medium |-> FixedMedium(t1, t2), fn |-> FixedFunction(d[6]), u1 |-> FixedText(t1 % 64), u2 |-> FixedText(t2 % 64),
                               n1 |-> FixedNorm(d[6], t1, v1, o.n1), n2 |-> FixedNorm(d[6], t2, v2, o.n2)]
     ELSE head

---------------------------------------------------------------------------
(* Encoding what was decoded *)
PackRecord(r) ==
  IF Special(r) THEN <<r.dif>> \o r.d
  ELSE <<r.dif>> \o r.dife \o <<r.vif>> \o (IF PlainUnit(r) THEN <<Len(r.cust)>> \o Reverse(r.cust) ELSE <<>>) \o r.vife \o r.d
PackVariable(v) == FoldLeft(LAMBDA acc, r : acc \o PackRecord(r), v.hdr, v.recs)

=============================================================================
