----------------------------- MODULE MBusAbsent -----------------------------
(***************************************************************************)
(* Calls that lack what they work on.  Every call of the interface with the*)
(* things it cannot do without, and how it fails when one of them is not   *)
(* there (a number below or above zero, no object, an empty text, nothing).*)
(* Whatever is missing: nothing is sent or received, no callback is told,  *)
(* nothing that is there is changed, and the handle works on.              *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets

Call(f, needs, fails) == [f |-> f, needs |-> needs, fails |-> fails]
Failure == {"neg"}  AnyFailure == {"neg", "pos"}  NoObject == {"null"}  NoText == {"empty", "null"}  NothingDone == {"void"}  Zero == {"zero"}
Calls == {
  \* telegrams
  Call("parse", {"frame", "bytes"}, Failure), Call("pack", {"frame", "bytes"}, Failure), Call("verify", {"frame"}, Failure),
  Call("type", {"frame"}, Failure), Call("direction", {"frame"}, Failure), Call("data_parse", {"frame", "data"}, Failure),
  Call("fixed_parse", {"frame", "fixed"}, Failure), Call("variable_parse", {"frame", "variable"}, Failure), Call("internal_pack", {"frame", "data"}, Failure),
  Call("select_pack", {"frame", "text"}, Failure), Call("get_address", {"frame"}, NoObject), Call("is_secondary", {"text"}, Zero),
  Call("frame_free", {"frame"}, Failure), Call("data_free", {"data"}, NothingDone), Call("records_free", {"record"}, NothingDone),
  Call("record_append", {"variable", "record"}, NothingDone), Call("norm_free", {"norm"}, NothingDone),
  \* what they are shown as
  Call("frame_xml", {"frame"}, NoObject), Call("data_xml", {"data"}, NoObject), Call("data_xml_normalized", {"data"}, NoObject), Call("fixed_xml", {"fixed"}, NoObject),
  Call("variable_xml", {"variable"}, NoObject), Call("header_xml", {"header"}, NoText), Call("frame_print", {"frame"}, Failure), Call("data_print", {"data"}, Failure),
  Call("fixed_print", {"fixed"}, Failure), Call("variable_print", {"variable"}, Failure), Call("header_print", {"header"}, Failure), Call("hex_dump", {"text", "bytes"}, NothingDone),
  Call("product", {"header"}, NoText), Call("fixed_medium", {"fixed"}, NoText), Call("unit", {"vib"}, NoText), Call("record_function", {"record"}, NoText),
  Call("record_unit", {"record"}, NoText), Call("record_value", {"record"}, NoText), Call("storage", {"record"}, Failure), Call("tariff", {"record"}, Failure), Call("device", {"record"}, Failure),
  Call("normalize_record", {"record"}, NoObject), Call("xml_text", {"place"}, Failure), Call("xml_text_source", {"text"}, Failure),
  \* numbers, names
  Call("int_decode", {"bytes"}, Failure), Call("long_decode", {"bytes"}, Failure), Call("long_long_decode", {"bytes"}, Failure), Call("int_encode", {"bytes"}, Failure),
  Call("bcd_encode", {"bytes"}, Failure), Call("bcd_decode", {"bytes"}, Failure), Call("hex2bin", {"place", "bytes"}, Zero), Call("manufacturer_encode", {"place", "text"}, Failure),
  Call("bin_decode", {"place", "bytes"}, NothingDone), Call("raw_decode", {"place", "bytes"}, NothingDone), Call("str_decode", {"place", "bytes"}, NothingDone), Call("tm_decode", {"tm"}, NothingDone),
  Call("vif_normalize", {"out", "out2", "out3"}, Failure), Call("vib_normalize", {"vib", "out", "out2", "out3"}, Failure),
  Call("value_decode", {"record"}, Failure),
  \* handles
  Call("connect", {"handle"}, Failure), Call("disconnect", {"handle"}, Failure), Call("free", {"handle"}, NothingDone), Call("option", {"handle"}, Failure),
  Call("recv", {"handle", "frame"}, Failure), Call("purge", {"handle"}, Zero), Call("send", {"handle", "frame"}, Failure), Call("request", {"handle"}, AnyFailure),
  Call("read_primary", {"handle", "address"}, Failure), Call("read_secondary", {"handle", "address", "text"}, Failure), Call("scan", {"handle", "mask"}, Failure),
  Call("select", {"handle", "text"}, Failure), Call("probe", {"text", "place"}, Failure), Call("ping", {"handle"}, Failure), Call("ping_purge", {"handle"}, Failure), Call("req", {"handle"}, Failure),
  Call("user_data", {"handle", "bytes"}, AnyFailure), Call("reset", {"handle"}, AnyFailure), Call("baud", {"handle"}, AnyFailure), Call("set_address", {"handle"}, AnyFailure), Call("select_frame", {"handle", "text"}, Failure),
  Call("line_connect", {"handle"}, Failure), Call("line_disconnect", {"handle"}, Failure), Call("line_send", {"handle", "frame"}, Failure), Call("line_recv", {"handle", "frame"}, Failure),
  Call("set_speed", {"handle"}, Failure), Call("line_free", {"handle"}, NothingDone) }
CallOf(f) == CHOOSE c \in Calls : c.f = f
\* what is observed of a call that lacks the things of the set miss
FailsFor(c, miss, o) == miss \cap c.needs # {} /\ o.r \in c.fails /\ o.same = 1 /\ o.quiet = 1 /\ o.works = 1

(***************************************************************************)
(* Texts into a buffer of n places: the text of the elements es (each a    *)
(* sequence of characters, with sep between them), as many of them as the  *)
(* buffer holds with its end, at least those that leave `spare' places.    *)
(***************************************************************************)
RECURSIVE Joined(_, _, _)
Joined(es, sep, k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN es[1] ELSE Joined(es, sep, k - 1) \o sep \o es[k]
FitsAs(es, sep, n, spare, w) ==
  \E k \in 0..Len(es) : /\ w = Joined(es, sep, k)
                        /\ Len(w) + 1 <= n
                        /\ k < Len(es) => Len(Joined(es, sep, k + 1)) + 1 + spare > n
=============================================================================
