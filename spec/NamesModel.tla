----------------------------- MODULE NamesModel -----------------------------
(* Every manufacturer of the list (and some that are not on it), with every *)
(* version, medium of interest and leading identification digits.           *)
EXTENDS MBusProducts
VARIABLES man, ver, med, idh
Listed == {"ABB", "ACW", "AMT", "BEC", "EFE", "ELS", "ELV", "EMH", "EMU", "GAV", "GMC", "GTE", "HYD", "JAN", "KAM", "LSE", "LUG", "NZR", "RAM",
           "REL", "RKE", "SBC", "SEN", "SEO", "SLB", "SON", "SPX", "SVM", "TCH", "WZG", "ZRM"}
Known == Listed \cup {"AAA", "ZZZ", "ABC", "PAD"}
Id(a, b, c) == a * 1024 + b * 32 + c
Code == [m \in Known |-> LET t == CHOOSE t \in (1..26) \X (1..26) \X (1..26) : Letter(t[1]) \o Letter(t[2]) \o Letter(t[3]) = m IN Id(t[1], t[2], t[3])]
Hdr == <<0, 0, 0, idh, Code[man] % 256, Code[man] \div 256, ver, med>>
Init == man \in Known /\ ver = 0 /\ med \in {2, 6, 7, 15} /\ idh = 0
Next == \/ ver < 255 /\ idh = 0 /\ ver' = ver + 1 /\ UNCHANGED <<man, med, idh>>
        \/ ver = 0 /\ man \in {"SBC", "SEO", "GTE", "ABC"} /\ med = 2 /\ idh < 255 /\ idh' = idh + 1 /\ UNCHANGED <<man, ver, med>>
Names(h) == LET m == Manufacturer(h[5], h[6]) IN
            { r.name : r \in { q \in ByVersion(m) \cup ByMedium(m, h[8]) : h[7] \in q.v } \cup { q \in ById(m) : h[4] \in q.v } }
\* the code spells the manufacturer, and a device has at most one name, with a product only for listed manufacturers
Spelled == Manufacturer(Code[man] % 256, Code[man] \div 256) = man
OneName == Cardinality(Names(Hdr)) <= 1
OnlyListed == ProductName(Hdr) # "" => man \in Listed
EveryListed == (man \in Listed /\ ver = 0 /\ idh = 0) => \E v \in 0..255, h \in 0..255 : (man \in {"SBC", "SEO", "GTE"} \/ h = 0) /\ \E x \in {2, 6, 15} : ProductName(<<0, 0, 0, h, Code[man] % 256, Code[man] \div 256, v, x>>) # ""
\* media are told apart (reserved and unknown codes aside)
MediaDistinct == ver = 0 => \A a, b \in 0..28 : a # b => MediumText(a) # MediumText(b)
Emit == IF ProductName(Hdr) # "" THEN PrintT("CASE " \o ToString(Code[man]) \o " " \o ToString(ver) \o " " \o ToString(med) \o " " \o ToString(idh)) ELSE TRUE
=============================================================================
