---------------------------- MODULE MBusProducts ----------------------------
(***************************************************************************)
(* Manufacturers, known products, media and errors, from the published     *)
(* lists.                                                                  *)
(***************************************************************************)
EXTENDS MBusText

Letter(n) == CharText(64 + (n % 32))
ManufacturerId(b1, b2) == b1 + 256 * b2
Manufacturer(b1, b2) == LET id == ManufacturerId(b1, b2) IN Letter(id \div 1024) \o Letter(id \div 32) \o Letter(id)

Row1(v, name) == [v |-> v, name |-> name]
\* products told apart by the version
ByVersion(m) ==
  CASE m = "ABB" -> {Row1({2}, "ABB Delta-Meter"), Row1({32}, "ABB B21 113-100")}
    [] m = "ACW" -> {Row1({9}, "Itron CF Echo 2"), Row1({10}, "Itron CF 51"), Row1({11}, "Itron CF 55"), Row1({14}, "Itron BM +m"),
                     Row1({15}, "Itron CF 800"), Row1({20}, "Itron CYBLE M-Bus 1.4")}
    [] m = "AMT" -> {Row1(192..255, "Aquametro CALEC ST"), Row1(128..191, "Aquametro CALEC MB"), Row1(64..127, "Aquametro SAPHIR"),
                     Row1(0..63, "Aquametro AMTRON")}
    [] m = "ELS" -> {Row1({2}, "Elster TMP-A"), Row1({10}, "Elster Falcon"), Row1({47}, "Elster F96 Plus")}
    [] m = "ELV" -> {Row1(20..29, "Elvaco CMa10"), Row1(50..59, "Elvaco CMa11")}
    [] m = "EMH" -> {Row1({0}, "EMH DIZ")}
    [] m = "GMC" -> {Row1({230}, "GMC-I A230 EMMOD 206")}
    [] m = "KAM" -> {Row1({1}, "Kamstrup 382 (6850-005)"), Row1({8}, "Kamstrup Multical 601")}
    [] m = "SLB" -> {Row1({2}, "Allmess Megacontrol CF-50"), Row1({6}, "CF Compact / Integral MK MaXX")}
    [] m = "HYD" -> {Row1({40}, "ABB F95 Typ US770"), Row1({47}, "Hydrometer Sharky 775")}
    [] m = "LUG" -> {Row1({2}, "Landis & Gyr Ultraheat 2WR5"), Row1({3}, "Landis & Gyr Ultraheat 2WR6"),
                     Row1({4}, "Landis & Gyr Ultraheat UH50"), Row1({7}, "Landis & Gyr Ultraheat T230")}
    [] m = "LSE" -> {Row1({153}, "Siemens WFH21")}
    [] m = "NZR" -> {Row1({1}, "NZR DHZ 5/63"), Row1({80}, "NZR IC-M2")}
    [] m = "RAM" -> {Row1({3}, "Rossweiner ETK/ETW Modularis")}
    [] m = "REL" -> {Row1({8}, "Relay PadPuls M1"), Row1({18}, "Relay PadPuls M4"), Row1({32}, "Relay Padin 4"), Row1({48}, "Relay AnDi 4"),
                     Row1({64}, "Relay PadPuls M2")}
    [] m = "RKE" -> {Row1({105}, "Ista sensonic II mbus")}
    [] m = "SEN" -> {Row1({8, 25}, "Sensus PolluCom E"), Row1({11}, "Sensus PolluTherm"), Row1({14}, "Sensus PolluStat E")}
    [] m = "SON" -> {Row1({13}, "Sontex Supercal 531")}
    [] m = "SPX" -> {Row1({49, 52}, "Sensus PolluTherm")}
    [] m = "SVM" -> {Row1({8}, "Elster F2 / Deltamess F2"), Row1({9}, "Elster F4 / Kamstrup SVM F22")}
    [] m = "TCH" -> {Row1({38}, "Techem m-bus S"), Row1({64}, "Techem ultra S3")}
    [] m = "WZG" -> {Row1({3}, "Modularis ETW-EAX")}
    [] m = "ZRM" -> {Row1({129}, "Minol Minocal C2"), Row1({130}, "Minol Minocal WR3")}
    [] m = "EFE" -> {Row1({1}, "Engelmann SensoStar 2C")}
    [] OTHER -> {}
\* products told apart by the version among those for one medium
ByMedium(m, med) ==
  CASE m = "BEC" /\ med = 2 -> {Row1({0}, "Berg DCMi"), Row1({7}, "Berg BLMi")}
    [] m = "BEC" /\ med = 15 -> {Row1({113}, "Berg BMB-10S0")}
    [] m = "EFE" -> {Row1({0}, IF med = 6 THEN "Engelmann WaterStar" ELSE "Engelmann / Elster SensoStar 2")}
    [] m = "EMU" /\ med = 2 -> {Row1({16}, "EMU Professional 3/75 M-Bus")}
    [] m = "GAV" /\ med = 2 -> {Row1(45..48, "Carlo Gavazzi EM24"), Row1({57, 58}, "Carlo Gavazzi EM21"), Row1({64}, "Carlo Gavazzi EM33")}
    [] m = "JAN" /\ med = 2 -> {Row1({9}, "Janitza UMG 96S")}
    [] OTHER -> {}
\* products told apart by the first two digits of the identification
ById(m) ==
  CASE m = "SBC" -> {Row1({16, 25}, "Saia-Burgess ALE3"), Row1({17}, "Saia-Burgess AWD3")}
    [] m \in {"SEO", "GTE"} -> {Row1({48}, "Sensoco PT100"), Row1({65}, "Sensoco 2-NTC"), Row1({69}, "Sensoco Laser Light"),
                                Row1({72}, "Sensoco ADIO"), Row1({81, 97}, "Sensoco THU"), Row1({128}, "Sensoco PulseCounter for E-Meter")}
    [] OTHER -> {}
\* the name of the product with this header of variable data; empty if it is not known
ProductName(h) ==
  LET m == Manufacturer(h[5], h[6])
      N == { r.name : r \in { q \in ByVersion(m) \cup ByMedium(m, h[8]) : h[7] \in q.v } \cup { q \in ById(m) : h[4] \in q.v } }
  IN IF h[6] >= 128 \/ N = {} THEN "" ELSE CHOOSE n \in N : TRUE

MediumText(m) ==
  CASE m \in 0..28 ->
       <<"Other", "Oil", "Electricity", "Gas", "Heat: Outlet", "Steam", "Warm water (30-90%C2%B0C)", "Water", "Heat Cost Allocator",
         "Compressed Air", "Cooling load meter: Outlet", "Cooling load meter: Inlet", "Heat: Inlet", "Heat / Cooling load meter",
         "Bus/System", "Unknown Medium", "Irrigation Water", "Water Logger", "Gas Logger", "Gas Converter", "Calorific value",
         "Hot water (>90%C2%B0C)", "Cold water", "Dual water", "Pressure", "A/D Converter", "Smoke Detector", "Ambient Sensor",
         "Gas Detector">>[m + 1]
    [] m = 32 -> "Breaker: Electricity" [] m = 33 -> "Valve: Gas or Water" [] m = 37 -> "Customer Unit: Display Device"
    [] m = 40 -> "Waste Water" [] m = 41 -> "Garbage" [] m = 48 -> "Service Unit"
    [] m = 54 -> "Radio Converter: System" [] m = 55 -> "Radio Converter: Meter"
    [] m \in (32..63 \ {53}) -> "Reserved"
    [] OTHER -> "Unknown medium (0x" \o HexByteLo(m) \o ")"

\* an int as printf's %.2X shows it: at least two digits; a negative one as its 32 bit two's complement
RECURSIVE HexLow(_, _)
HexLow(v, n) == IF n = 0 THEN "" ELSE HexLow(v \div 16, n - 1) \o HexDigit[(v % 16) + 1]
HexInt(v) == HexLow(v, IF v < 0 THEN 8 ELSE CHOOSE n \in 2..8 : (n = 8 \/ v < 16 ^ n) /\ \A j \in 2..(n - 1) : v >= 16 ^ j)
ErrorText(e) ==
  IF e \in 0..9
  THEN <<"Unspecified error", "Unimplemented CI-Field", "Buffer too long, truncated", "Too many records", "Premature end of record",
         "More than 10 DIFE%C2%B4s", "More than 10 VIFE%C2%B4s", "Reserved", "Application busy", "Too many readouts">>[e + 1]
  ELSE "Unknown error (0x" \o HexInt(e) \o ")"

=============================================================================
