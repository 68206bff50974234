------------------------------ MODULE MBusUnits ------------------------------
(***************************************************************************)
(* The value information tables of EN 13757-3: for every code the          *)
(* quantity, the base unit, and the factor (m * 10^x) from the transmitted *)
(* number to that unit; and the plain text by which the unit is shown.     *)
(* The text names the unit of the transmitted number, so factor and text   *)
(* are two statements of the same fact.                                    *)
(***************************************************************************)
EXTENDS MBusText

Deg == "%C2%B0C"     DegF == "%C2%B0F"
U(q, u, m, x) == [q |-> q, u |-> u, m |-> m, x |-> x]
NoUnit == [q |-> "", u |-> "", m |-> -1, x |-> 0]
Known(e) == e.m >= 0
Seconds(q, nn) == CASE nn = 0 -> U(q, "s", 1, 0) [] nn = 1 -> U(q, "s", 60, 0) [] nn = 2 -> U(q, "s", 3600, 0) [] OTHER -> U(q, "s", 86400, 0)

\* codes 0..127 of the primary VIF
Primary(c) ==
  LET n3 == c % 8 n2 == c % 4 IN
  CASE c \in 0..7     -> U("Energy", "Wh", 1, n3 - 3)
    [] c \in 8..15    -> U("Energy", "J", 1, n3)
    [] c \in 16..23   -> U("Volume", "m^3", 1, n3 - 6)
    [] c \in 24..31   -> U("Mass", "kg", 1, n3 - 3)
    [] c \in 32..35   -> Seconds("On time", n2)
    [] c \in 36..39   -> Seconds("Operating time", n2)
    [] c \in 40..47   -> U("Power", "W", 1, n3 - 3)
    [] c \in 48..55   -> U("Power", "J/h", 1, n3)
    [] c \in 56..63   -> U("Volume flow", "m^3/h", 1, n3 - 6)
    [] c \in 64..71   -> U("Volume flow", "m^3/min", 1, n3 - 7)
    [] c \in 72..79   -> U("Volume flow", "m^3/s", 1, n3 - 9)
    [] c \in 80..87   -> U("Mass flow", "kg/h", 1, n3 - 3)
    [] c \in 88..91   -> U("Flow temperature", Deg, 1, n2 - 3)
    [] c \in 92..95   -> U("Return temperature", Deg, 1, n2 - 3)
    [] c \in 96..99   -> U("Temperature difference", "K", 1, n2 - 3)
    [] c \in 100..103 -> U("External temperature", Deg, 1, n2 - 3)
    [] c \in 104..107 -> U("Pressure", "bar", 1, n2 - 3)
    [] c = 108        -> U("Time point (date)", "-", 1, 0)
    [] c = 109        -> U("Time point (date & time)", "-", 1, 0)
    [] c = 110        -> U("H.C.A.", "Units for H.C.A.", 1, 0)
    [] c = 111        -> U("Reserved", "Reserved", 0, 0)
    [] c \in 112..115 -> Seconds("Averaging Duration", n2)
    [] c \in 116..119 -> Seconds("Actuality Duration", n2)
    [] c = 120        -> U("Fabrication No", "", 1, 0)
    [] c = 121        -> U("(Enhanced) Identification", "", 1, 0)
    [] c = 122        -> U("Bus Address", "", 1, 0)
    [] c = 126        -> U("Any VIF", "", 1, 0)
    [] c = 127        -> U("Manufacturer specific", "", 1, 0)
    [] OTHER          -> NoUnit

Reserved == U("Reserved", "Reserved", 1, 0)
MonthOf(q) == U(q, "s", 262974383, -2)
YearOf(q) == U(q, "s", 31556926, 0)
Number(q) == U(q, "", 1, 0)
\* hours, days, months, years
Long(q, pp) == CASE pp = 0 -> U(q, "s", 3600, 0) [] pp = 1 -> U(q, "s", 86400, 0) [] pp = 2 -> MonthOf(q) [] OTHER -> YearOf(q)

\* codes 0..127 of the first extension of VIF FD
MainExt(c) ==
  LET n2 == c % 4 n4 == c % 16 IN
  CASE c \in 0..3   -> U("Credit", "Currency units", 1, n2 - 3)
    [] c \in 4..7   -> U("Debit", "Currency units", 1, n2 - 3)
    [] c = 8 -> Number("Access Number (transmission count)") [] c = 9 -> Number("Medium") [] c = 10 -> Number("Manufacturer")
    [] c = 11 -> Number("Parameter set identification") [] c = 12 -> Number("Model / Version") [] c = 13 -> Number("Hardware version")
    [] c = 14 -> Number("Firmware version") [] c = 15 -> Number("Software version")
    [] c = 16 -> Number("Customer location") [] c = 17 -> Number("Customer") [] c = 18 -> Number("Access Code User")
    [] c = 19 -> Number("Access Code Operator") [] c = 20 -> Number("Access Code System Operator") [] c = 21 -> Number("Access Code Developer")
    [] c = 22 -> Number("Password") [] c = 23 -> Number("Error flags") [] c = 24 -> Number("Error mask") [] c = 25 -> Reserved
    [] c = 26 -> Number("Digital Output") [] c = 27 -> Number("Digital Input") [] c = 28 -> U("Baudrate", "Baud", 1, 0)
    [] c = 29 -> U("Response delay time", "Bittimes", 1, 0) [] c = 30 -> Number("Retry") [] c = 31 -> Reserved
    [] c = 32 -> Number("First storage # for cyclic storage") [] c = 33 -> Number("Last storage # for cyclic storage")
    [] c = 34 -> Number("Size of storage block") [] c = 35 -> Reserved
    [] c \in 36..39 -> Seconds("Storage interval", n2) [] c = 40 -> MonthOf("Storage interval") [] c = 41 -> YearOf("Storage interval")
    [] c \in 42..43 -> Reserved
    [] c \in 44..47 -> Seconds("Duration since last readout", n2)
    [] c = 48 -> Number("Start (date/time) of tariff")
    [] c \in 49..51 -> Seconds("Duration of tariff", n2)
    [] c \in 52..55 -> Seconds("Period of tariff", n2) [] c = 56 -> MonthOf("Period of tariff") [] c = 57 -> YearOf("Period of tariff")
    [] c = 58 -> Number("Dimensionless") [] c \in 59..63 -> Reserved
    [] c \in 64..79 -> U("Voltage", "V", 1, n4 - 9)
    [] c \in 80..95 -> U("Current", "A", 1, n4 - 12)
    [] c = 96 -> Number("Reset counter") [] c = 97 -> Number("Cumulation counter") [] c = 98 -> Number("Control signal") [] c = 99 -> Number("Day of week")
    [] c = 100 -> Number("Week number") [] c = 101 -> Number("Time point of day change") [] c = 102 -> Number("State of parameter activation")
    [] c = 103 -> Number("Special supplier information")
    [] c \in 104..107 -> Long("Duration since last cumulation", n2)
    [] c \in 108..111 -> Long("Operating time battery", n2)
    [] c = 112 -> Number("Date and time of battery change")
    [] OTHER -> Reserved

\* codes 0..127 of the first extension of VIF FB
AltExt(c) ==
  LET n1 == c % 2 n2 == c % 4 n3 == c % 8 IN
  CASE c \in 0..1 -> U("Energy", "Wh", 1, n1 + 5)
    [] c \in 8..9 -> U("Energy", "J", 1, n1 + 8)
    [] c \in 16..17 -> U("Volume", "m^3", 1, n1 + 2)
    [] c \in 24..25 -> U("Mass", "kg", 1, n1 + 5)
    [] c = 33 -> U("Volume", "feet^3", 1, -1)
    [] c = 34 -> U("Volume", "American gallon", 1, -1)
    [] c = 35 -> U("Volume", "American gallon", 1, 0)
    [] c = 36 -> U("Volume flow", "American gallon/min", 1, -3)
    [] c = 37 -> U("Volume flow", "American gallon/min", 1, 0)
    [] c = 38 -> U("Volume flow", "American gallon/h", 1, 0)
    [] c \in 40..41 -> U("Power", "W", 1, n1 + 5)
    [] c \in 48..49 -> U("Power", "J/h", 1, n1 + 8)
    [] c \in 88..91 -> U("Flow temperature", DegF, 1, n2 - 3)
    [] c \in 92..95 -> U("Return temperature", DegF, 1, n2 - 3)
    [] c \in 96..99 -> U("Temperature difference", DegF, 1, n2 - 3)
    [] c \in 100..103 -> U("External temperature", DegF, 1, n2 - 3)
    [] c \in 112..115 -> U("Cold / Warm Temperature Limit", DegF, 1, n2 - 3)
    [] c \in 116..119 -> U("Cold / Warm Temperature Limit", Deg, 1, n2 - 3)
    [] c \in 120..127 -> U("Cumul count max power", "W", 1, n3 - 3)
    [] OTHER -> Reserved

---------------------------------------------------------------------------
Prefix(e) == CASE e = 0 -> "" [] e = -3 -> "m" [] e = -6 -> "my" [] e = 1 -> "10 " [] e = 2 -> "100 " [] e = 3 -> "k" [] e = 4 -> "10 k"
               [] e = 5 -> "100 k" [] e = 6 -> "M" [] e = 9 -> "G" [] OTHER -> "1e" \o ToString(e) \o " "
Dur(nn) == <<"second(s)", "minute(s)", "hour(s)", "day(s)">>[nn + 1]
DurLong(pp) == <<"hour(s)", "day(s)", "month(s)", "year(s)">>[pp + 1]
Timed(s, nn) == s \o <<"(seconds)", "(minutes)", "(hours)", "(days)">>[nn + 1]

PrimaryText(vif) ==
  LET c == vif % 128 n3 == vif % 8 n2 == vif % 4 IN
  CASE c \in 0..7     -> "Energy (" \o Prefix(n3 - 3) \o "Wh)"
    [] c \in 8..15    -> "Energy (" \o Prefix(n3) \o "J)"
    [] c \in 16..23   -> "Volume (" \o Prefix(n3 - 6) \o " m^3)"
    [] c \in 24..31   -> "Mass (" \o Prefix(n3 - 3) \o "kg)"
    [] c \in 32..35   -> Timed("On time ", n2)
    [] c \in 36..39   -> Timed("Operating time ", n2)
    [] c \in 40..47   -> "Power (" \o Prefix(n3 - 3) \o "W)"
    [] c \in 48..55   -> "Power (" \o Prefix(n3) \o "J/h)"
    [] c \in 56..63   -> "Volume flow (" \o Prefix(n3 - 6) \o " m^3/h)"
    [] c \in 64..71   -> "Volume flow (" \o Prefix(n3 - 7) \o " m^3/min)"
    [] c \in 72..79   -> "Volume flow (" \o Prefix(n3 - 9) \o " m^3/s)"
    [] c \in 80..87   -> "Mass flow (" \o Prefix(n3 - 3) \o " kg/h)"
    [] c \in 88..91   -> "Flow temperature (" \o Prefix(n2 - 3) \o "deg C)"
    [] c \in 92..95   -> "Return temperature (" \o Prefix(n2 - 3) \o "deg C)"
    [] c \in 96..99   -> "Temperature Difference (" \o Prefix(n2 - 3) \o " deg C)"
    [] c \in 100..103 -> "External temperature (" \o Prefix(n2 - 3) \o " deg C)"
    [] c \in 104..107 -> "Pressure (" \o Prefix(n2 - 3) \o " bar)"
    [] c = 108 -> "Time Point (date)" [] c = 109 -> "Time Point (time & date)"
    [] c = 110 -> "Units for H.C.A." [] c = 111 -> "Reserved"
    [] c \in 112..115 -> Timed("Averaging Duration ", n2)
    [] c \in 116..119 -> Timed("Actuality Duration ", n2)
    [] c = 120 -> "Fabrication number" [] c = 122 -> "Bus Address" [] c = 127 -> "Manufacturer specific"
    [] OTHER -> "Unknown (VIF=0x" \o HexByte(vif) \o ")"

MainText(vife) ==
  LET c == vife % 128 n2 == c % 4 n4 == c % 16 IN
  CASE c \in 0..3 -> "Credit of " \o Prefix(n2 - 3) \o " of the nominal local legal currency units"
    [] c \in 4..7 -> "Debit of " \o Prefix(n2 - 3) \o " of the nominal local legal currency units"
    [] c = 9 -> "Medium (as in fixed header)" [] c = 10 -> "Manufacturer (as in fixed header)"
    [] c = 26 -> "Digital output (binary)" [] c = 27 -> "Digital input (binary)"
    [] c = 29 -> "response delay time"
    [] c \in 36..39 -> "Storage interval " \o Dur(n2) [] c = 40 -> "Storage interval month(s)" [] c = 41 -> "Storage interval year(s)"
    [] c \in 44..47 -> "Duration since last readout " \o Dur(n2)
    [] c \in 49..51 -> "Duration of tariff " \o Dur(n2)
    [] c \in 52..55 -> "Period of tariff " \o Dur(n2) [] c = 56 -> "Period of tariff months(s)" [] c = 57 -> "Period of tariff year(s)"
    [] c = 58 -> "dimensionless / no VIF"
    [] c \in 64..79 -> Prefix(n4 - 9) \o " V"
    [] c \in 80..95 -> Prefix(n4 - 12) \o " A"
    [] c \in 104..107 -> "Duration since last cumulation " \o DurLong(n2)
    [] c \in 108..111 -> "Operating time battery " \o DurLong(n2)
    [] c \in 113..127 -> "Reserved VIF extension"
    [] OTHER -> MainExt(c).q             \* the name of the quantity

Tenth(n) == IF n = 0 THEN "0.1 " ELSE ""
AltText(vife) ==
  LET c == vife % 128 n1 == c % 2 n2 == c % 4 n3 == c % 8 IN
  CASE c \in 0..1 -> "Energy (" \o Tenth(n1) \o "MWh)"
    [] c \in 8..9 -> "Energy (" \o Tenth(n1) \o "GJ)"
    [] c \in 16..17 -> "Volume (" \o Prefix(n1 + 2) \o "m3)"
    [] c \in 24..25 -> "Mass (" \o Prefix(n1 + 2) \o "t)"
    [] c = 33 -> "Volume (0.1 feet^3)"
    [] c \in 34..35 -> "Volume (" \o Tenth(n1) \o "american gallon)"
    [] c = 36 -> "Volume flow (0.001 american gallon/min)"
    [] c = 37 -> "Volume flow (american gallon/min)"
    [] c = 38 -> "Volume flow (american gallon/h)"
    [] c \in 40..41 -> "Power (" \o Tenth(n1) \o "MW)"
    [] c \in 48..49 -> "Power (" \o Tenth(n1) \o "GJ/h)"
    [] c \in 80..81 -> "Unrecognized VIF 0xFB extension: 0x" \o HexByteLo(vife)
    [] c \in 88..91 -> "Flow Temperature (" \o Prefix(n2 - 3) \o " degree F)"
    [] c \in 92..95 -> "Return Temperature (" \o Prefix(n2 - 3) \o " degree F)"
    [] c \in 96..99 -> "Temperature Difference (" \o Prefix(n2 - 3) \o " degree F)"
    [] c \in 100..103 -> "External Temperature (" \o Prefix(n2 - 3) \o " degree F)"
    [] c \in 112..115 -> "Cold / Warm Temperature Limit (" \o Prefix(n2 - 3) \o " degree F)"
    [] c \in 116..119 -> "Cold / Warm Temperature Limit (" \o Prefix(n2 - 3) \o " degree C)"
    [] c \in 120..127 -> "cumul. count max power (" \o Prefix(n3 - 3) \o " W)"
    [] OTHER -> "Reserved (0x" \o HexByteLo(vife) \o ")"

---------------------------------------------------------------------------
(* Unit of a record *)
PlainUnit(r) == r.vif % 128 = 124
UnitText(r) ==
  CASE r.vif = 251 -> T(AltText(r.vife[1]))
    [] r.vif = 253 -> T(MainText(r.vife[1]))
    [] r.vif = 252 /\ (r.vife[1] % 128) \in 112..119 -> TB(Prefix((r.vife[1] % 8) - 6) \o " ", r.cust)
    [] PlainUnit(r) -> TB("", r.cust)
    [] OTHER -> T(PrimaryText(r.vif))

Entry(r) == CASE r.vif = 251 -> AltExt(r.vife[1] % 128)
              [] r.vif = 253 -> MainExt(r.vife[1] % 128)
              [] PlainUnit(r) -> U("", "-", 1, 0)
              [] OTHER -> Primary(r.vif % 128)
QuantityText(r) == IF PlainUnit(r) THEN TB("", r.cust) ELSE T(Entry(r).q)
BaseUnit(r) == Entry(r).u
\* corrections that the first extension of a primary code announces
Correctable(r) == r.vif >= 128 /\ r.vif \notin {251, 253}
Orthogonal(r) == IF Correctable(r) THEN r.vife[1] % 128 ELSE 0
HasOffset(r) == Orthogonal(r) \in 120..123                      \* added in the unit of the VIF
Offset(r) == Dec(0, <<1>>, (Orthogonal(r) % 4) - 3)
Factor(r) == CASE Orthogonal(r) \in 112..119 -> (Orthogonal(r) % 8) - 6 [] Orthogonal(r) = 125 -> 3 [] OTHER -> 0
\* the normalized value of the transmitted number d, and the precision in which it can be expected
Times(d, e, f) == IF e.m > 100000 THEN DecMul(DecAdd(DecMul(d, e.m \div 10000, 4), DecMul(d, e.m % 10000, 0)), 1, e.x + f) ELSE DecMul(d, e.m, e.x + f)
NormValue(r, d) == Times(IF HasOffset(r) THEN DecAdd(d, Offset(r)) ELSE d, Entry(r), Factor(r))
NormBound(r, d) == LET a == Times(IF HasOffset(r) THEN DecAdd(DecAbs(d), Offset(r)) ELSE DecAbs(d), Entry(r), Factor(r)) IN [a EXCEPT !.x = @ - 12]

---------------------------------------------------------------------------
(* Counters of fixed data *)
FixedUnit(c) ==
  CASE c = 0 -> U("Time", "h,m,s", 1, 0)
    [] c = 1 -> U("Time", "D,M,Y", 1, 0)
    [] c \in 2..10 -> U("Energy", "Wh", 1, c - 2)
    [] c \in 11..19 -> U("Energy", "J", 1, c - 8)
    [] c \in 20..28 -> U("Power", "W", 1, c - 20)
    [] c \in 29..37 -> U("Power", "J/h", 1, c - 26)
    [] c \in 38..46 -> U("Volume", "m^3", 1, c - 44)
    [] c \in 47..55 -> U("Volume flow", "m^3/h", 1, c - 53)
    [] c = 56 -> U("Temperature", Deg, 1, -3)
    [] c = 57 -> U("H.C.A.", "Units for H.C.A.", 1, 0)
    [] c \in 58..61 -> U("Reserved", "Reserved", 0, 0)
    [] c = 62 -> U("historic", "", 1, 0)
    [] OTHER -> U("No units", "", 1, 0)
\* 1, 10 and 100 of every unit of a row
Row(c, first, names) == <<"", "10 ", "100 ">>[((c - first) % 3) + 1] \o names[((c - first) \div 3) + 1]
FixedText(c) ==
  CASE c = 0 -> "h,m,s" [] c = 1 -> "D,M,Y"
    [] c \in 2..10 -> Row(c, 2, <<"Wh", "kWh", "MWh">>)
    [] c \in 11..19 -> Row(c, 11, <<"kJ", "MJ", "GJ">>)
    [] c \in 20..28 -> Row(c, 20, <<"W", "kW", "MW">>)
    [] c \in 29..37 -> Row(c, 29, <<"kJ/h", "MJ/h", "GJ/h">>)
    [] c \in 38..46 -> Row(c, 38, <<"ml", "l", "m^3">>)
    [] c \in 47..55 -> Row(c, 47, <<"ml/h", "l/h", "m^3/h">>)
    [] c = 56 -> "1e-3 " \o Deg [] c = 57 -> "units for HCA" [] c \in 58..61 -> "reserved"
    [] c = 62 -> "reserved but historic" [] OTHER -> "without units"
FixedMedium(t1, t2) ==
  <<"Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved", "Gas Mode 2", "Heat Mode 2",
    "Hot Water Mode 2", "Water Mode 2", "H.C.A. Mode 2", "Reserved">>[(t1 \div 64) + 4 * (t2 \div 64) + 1]

=============================================================================
