------------------------------ MODULE MBusText ------------------------------
(***************************************************************************)
(* Texts.  The bytes of a text are shown with everything but printable     *)
(* ASCII (and the quote, the backslash and the percent sign) as %XX, which *)
(* is how the driver reports them.                                         *)
(***************************************************************************)
EXTENDS MBusRecords, MBusNumbers

Ascii == << " ", "!", "%22", "#", "$", "%25", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
            "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
            "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
            "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "%5C", "]", "^", "_",
            "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
            "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
CharText(c) == IF c \in 32..126 THEN Ascii[c - 31] ELSE "%" \o HexByte(c)
\* in XML, control characters become spaces and the characters with a meaning become entities
XmlChar(c) == CASE c < 32 \/ c = 127 -> " " [] c = 38 -> "&amp;" [] c = 60 -> "&lt;" [] c = 62 -> "&gt;" [] c = 34 -> "&quot;" [] OTHER -> CharText(c)
\* a text ends before its first zero byte
UpToZero(b) == LET Z == { i \in 1..Len(b) : b[i] = 0 } IN IF Z = {} THEN b ELSE SubSeq(b, 1, Min(Z) - 1)
BytesText(b) == FoldLeft(LAMBDA acc, c : acc \o CharText(c), "", UpToZero(b))
BytesXml(b) == FoldLeft(LAMBDA acc, c : acc \o XmlChar(c), "", UpToZero(b))

(* A text of the specification: a fixed part, followed by bytes of the data *)
T(s) == [lit |-> s, b |-> <<>>]
TB(s, b) == [lit |-> s, b |-> b]
\* the only fixed texts that contain characters with a meaning in XML
XmlLit(s) == CASE s = "Time point (date & time)" -> "Time point (date &amp; time)"
               [] s = "Time Point (time & date)" -> "Time Point (time &amp; date)"
               [] s = "Hot water (>90%C2%B0C)" -> "Hot water (&gt;90%C2%B0C)"
               [] s = "Landis & Gyr Ultraheat 2WR5" -> "Landis &amp; Gyr Ultraheat 2WR5"
               [] s = "Landis & Gyr Ultraheat 2WR6" -> "Landis &amp; Gyr Ultraheat 2WR6"
               [] s = "Landis & Gyr Ultraheat UH50" -> "Landis &amp; Gyr Ultraheat UH50"
               [] s = "Landis & Gyr Ultraheat T230" -> "Landis &amp; Gyr Ultraheat T230"
               [] OTHER -> s
Plain(t) == t.lit \o BytesText(t.b)
Xml(t) == XmlLit(t.lit) \o BytesXml(t.b)

HexLo == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByteLo(b) == HexLo[(b \div 16) + 1] \o HexLo[(b % 16) + 1]
\* bytes in hexadecimal, separated by spaces
Dump(b) == IF b = <<>> THEN "" ELSE FoldLeft(LAMBDA acc, c : acc \o " " \o HexByte(c), HexByte(b[1]), Tail(b))
\* digits of the number with these bytes (most significant first) without leading zeros
Nibbles(b) == [i \in 1..(2 * Len(b)) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16]
HexNumber(b) == LET d == Nibbles(b) N == { i \in 1..Len(d) : d[i] # 0 } IN
                IF N = {} THEN "0" ELSE FoldLeft(LAMBDA acc, c : acc \o HexDigit[c + 1], "", SubSeq(d, Min(N), Len(d)))

(* Hexadecimal text, of which s holds the characters from k on, into at most n bytes *)
White(c) == c \in ({32} \cup (9..13))
RECURSIVE Pairs(_, _, _)
Pairs(s, k, n) ==
  IF n = 0 \/ k >= Len(s) THEN <<>>
  ELSE IF White(s[k]) THEN Pairs(s, k + 1, n)
  ELSE IF DigitVal(s[k]) < 0 \/ DigitVal(s[k + 1]) < 0 THEN <<>>
  ELSE <<16 * DigitVal(s[k]) + DigitVal(s[k + 1])>> \o Pairs(s, k + 2, n - 1)

=============================================================================
