------------------------------ MODULE MBusFrame ------------------------------
(***************************************************************************)
(* Telegrams of the M-Bus link layer (EN 13757-2): which byte strings are  *)
(* telegrams, how a telegram is put on the wire, and what verification     *)
(* accepts.  A byte is a number 0..255, a byte string a sequence of bytes. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise

Byte == 0..255

ANY == 0  ACK == 1  SHORT == 2  CONTROL == 3  LONG == 4      \* telegram types

ShortControls == {64, 90, 122, 91, 123}          \* 40 5A 7A 5B 7B
LongControls  == {83, 115, 8, 24, 40, 56}        \* 53 73 08 18 28 38

StartAck == 229   StartShort == 16   StartLong == 104   Stop == 22
MaxData == 252

SumOf(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
CheckSum(s) == SumOf(s) % 256

---------------------------------------------------------------------------
(* The wire image of a telegram [t, c, a, ci, d].                          *)
Body(f) == IF f.t = SHORT THEN <<f.c, f.a>>
           ELSE IF f.t = CONTROL THEN <<f.c, f.a, f.ci>>
           ELSE <<f.c, f.a, f.ci>> \o f.d
Image(f) ==
  CASE f.t = ACK   -> <<StartAck>>
    [] f.t = SHORT -> <<StartShort>> \o Body(f) \o <<CheckSum(Body(f)), Stop>>
    [] OTHER       -> LET b == Body(f) IN
                      <<StartLong, Len(b), Len(b), StartLong>> \o b \o <<CheckSum(b), Stop>>

\* Encoding into a buffer of n bytes: the number of bytes written, or -1.
Encode(f, n) ==
  IF f.t \notin {ACK, SHORT, CONTROL, LONG} THEN [r |-> -1]
  ELSE IF f.t = LONG /\ Len(f.d) > MaxData THEN [r |-> -1]
  ELSE IF Len(Image(f)) > n THEN [r |-> -1]
  ELSE [r |-> Len(Image(f)), w |-> Image(f)]

---------------------------------------------------------------------------
(* The decision about a byte string: r = 0 a telegram, r > 0 that many     *)
(* more bytes are needed before the next decision, r = -1 never a telegram.*)
Bad == [r |-> -1]
Missing(k) == [r |-> k]
Decide(b) ==
  IF b = <<>> THEN Bad
  ELSE IF b[1] = StartAck THEN [r |-> 0, f |-> [t |-> ACK]]
  ELSE IF b[1] = StartShort THEN
       IF Len(b) < 5 THEN Missing(5 - Len(b))
       ELSE IF Len(b) > 5 THEN Bad
       ELSE IF /\ b[2] \in ShortControls
               /\ b[4] = CheckSum(<<b[2], b[3]>>)
               /\ b[5] = Stop
            THEN [r |-> 0, f |-> [t |-> SHORT, c |-> b[2], a |-> b[3]]]
            ELSE Bad
  ELSE IF b[1] = StartLong THEN
       IF Len(b) < 3 THEN Missing(3 - Len(b))
       ELSE IF b[2] # b[3] \/ b[2] < 3 THEN Bad
       ELSE IF Len(b) < b[2] + 6 THEN Missing(b[2] + 6 - Len(b))
       ELSE IF Len(b) > b[2] + 6 THEN Bad
       ELSE IF /\ b[4] = StartLong
               /\ b[5] \in LongControls
               /\ b[b[2] + 5] = CheckSum(SubSeq(b, 5, b[2] + 4))
               /\ b[b[2] + 6] = Stop
            THEN [r |-> 0, f |-> [t  |-> IF b[2] = 3 THEN CONTROL ELSE LONG, c |-> b[5], a |-> b[6],
                                  ci |-> b[7], d |-> SubSeq(b, 8, b[2] + 4)]]
            ELSE Bad
  ELSE Bad

\* Verification of a telegram whose framing fields are given explicitly.
VerifyOk(f, s1, s2, l1, l2, ck, st) ==
  CASE f.t = ACK   -> s1 = StartAck
    [] f.t = SHORT -> s1 = StartShort /\ f.c \in ShortControls /\ ck = CheckSum(Body(f)) /\ st = Stop
    [] f.t \in {CONTROL, LONG} ->
         /\ s1 = StartLong /\ s2 = StartLong /\ f.c \in LongControls
         /\ l1 = l2 /\ l1 = Len(Body(f))
         /\ ck = CheckSum(Body(f)) /\ st = Stop
    [] OTHER -> FALSE

\* A telegram as it is shown to an observer: the fields its type gives a meaning to, and its time stamp.
Shown(f, ts) ==
  CASE f.t = ACK -> [t |-> ACK, ts |-> ts]
    [] f.t = SHORT -> [t |-> SHORT, c |-> f.c, a |-> f.a, ts |-> ts]
    [] OTHER -> [t |-> f.t, c |-> f.c, a |-> f.a, ci |-> f.ci, d |-> f.d, ts |-> ts]

\* Direction of travel: acknowledgements come from a slave, all others say so in bit 6.
FromMaster(f) == f.t # ACK /\ (f.c & 64) # 0
=============================================================================
