---------------------------- MODULE MeaningModel ----------------------------
(* The tables of units: the text by which the unit of the transmitted      *)
(* number is shown, and the quantity, base unit and factor from which the  *)
(* normalized value follows, denote the same physical quantity.            *)
EXTENDS MBusValues
VARIABLES tab, c
Init == tab \in {"primary", "main", "alt", "fixed"} /\ c = 0
Next == tab' = tab /\ c < (IF tab = "fixed" THEN 63 ELSE 127) /\ c' = c + 1

E == CASE tab = "primary" -> Primary(c) [] tab = "main" -> MainExt(c) [] tab = "alt" -> AltExt(c) [] OTHER -> FixedUnit(c)
Text == CASE tab = "primary" -> PrimaryText(c) [] tab = "main" -> MainText(c) [] tab = "alt" -> AltText(c) [] OTHER -> FixedText(c)
\* how a power of ten of a unit may be written: a prefix of some spelling of the unit that stands for 10^k of it
Spellings(u) == CASE u = "Wh" -> {<<"Wh", 0>>, <<"kWh", 3>>, <<"MWh", 6>>} [] u = "J" -> {<<"J", 0>>, <<"kJ", 3>>, <<"MJ", 6>>, <<"GJ", 9>>}
                  [] u = "W" -> {<<"W", 0>>, <<" W", 0>>, <<"kW", 3>>, <<"MW", 6>>} [] u = "J/h" -> {<<"J/h", 0>>, <<"kJ/h", 3>>, <<"MJ/h", 6>>, <<"GJ/h", 9>>}
                  [] u = "kg" -> {<<"kg", 0>>, <<"t", 3>>} [] u = "kg/h" -> {<<" kg/h", 0>>}
                  [] u = "m^3" -> {<<" m^3", 0>>, <<"m^3", 0>>, <<"m3", 0>>, <<"l", -3>>, <<"ml", -6>>}
                  [] u = "m^3/h" -> {<<" m^3/h", 0>>, <<"m^3/h", 0>>, <<"l/h", -3>>, <<"ml/h", -6>>}
                  [] u = "m^3/min" -> {<<" m^3/min", 0>>} [] u = "m^3/s" -> {<<" m^3/s", 0>>}
                  [] u = Deg -> {<<"deg C", 0>>, <<" deg C", 0>>, <<" degree C", 0>>, <<Deg, 0>>} [] u = DegF -> {<<" degree F", 0>>}
                  [] u = "K" -> {<<" deg C", 0>>} [] u = "bar" -> {<<" bar", 0>>} [] u = "V" -> {<<" V", 0>>} [] u = "A" -> {<<" A", 0>>}
                  [] u = "feet^3" -> {<<"feet^3", 0>>} [] u = "American gallon" -> {<<"american gallon", 0>>}
                  [] u = "American gallon/min" -> {<<"american gallon/min", 0>>} [] u = "American gallon/h" -> {<<"american gallon/h", 0>>}
                  [] u = "Currency units" -> {<<" of the nominal local legal currency units", 0>>}
                  [] OTHER -> {}
Powers(x) == {Prefix(x)} \cup (IF x = -1 THEN {"0.1 "} ELSE IF x = -3 THEN {"0.001 ", "1e-3 "} ELSE {})
Exact == UNION { { p \o sp[1] : p \in Powers(E.x - sp[2]) } : sp \in Spellings(E.u) }
Named == CASE E.q = "Flow temperature" -> {"Flow temperature", "Flow Temperature"} [] E.q = "Return temperature" -> {"Return temperature", "Return Temperature"}
           [] E.q = "Temperature difference" -> {"Temperature Difference"} [] E.q = "External temperature" -> {"External temperature", "External Temperature"}
           [] E.q = "Cumul count max power" -> {"cumul. count max power"} [] OTHER -> {E.q}
Durations == CASE E.m = 1 -> {"second(s)", "(seconds)"} [] E.m = 60 -> {"minute(s)", "(minutes)"} [] E.m = 3600 -> {"hour(s)", "(hours)"} [] E.m = 86400 -> {"day(s)", "(days)"}
               [] E.m = 262974383 -> {"month(s)", "months(s)"} [] OTHER -> {"year(s)"}
\* the texts by which a quantity in powers of ten of its unit may be shown
Agrees == CASE E.u \in {"V", "A"} -> Text \in Exact
            [] E.u = "Currency units" -> Text \in { E.q \o " of " \o w : w \in Exact }
            [] E.u = "s" -> Text \in { E.q \o " " \o w : w \in Durations }
            [] tab = "fixed" -> Spellings(E.u) # {} => Text \in Exact
            [] Spellings(E.u) # {} -> Text \in { nm \o " (" \o w \o ")" : nm \in Named, w \in Exact }
            [] OTHER -> TRUE
\* a code without an entry is shown as unknown, and one with a factor is not
Unknown == /\ (tab = "primary" /\ ~Known(E)) => Text \in {"Unknown (VIF=0x" \o HexByte(c) \o ")"}
           /\ Known(E) => E.m >= 0
=============================================================================
