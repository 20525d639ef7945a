---------------------------------- MODULE Codec --------------------------------
(* Codecs (C22). Integers appear as four digits to the base 2^16, most significant    *)
(* first, sign bit flipped, so that their order is the lexicographic one.             *)
EXTENDS Util
NewState(cfg) == [cfg |-> cfg, lex |-> {}]   \* pairs of an integer and its lexicographic encoding
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
Less(a, b) == LexLess(a, b, 1)
Guards(st, e, l) ==
  CASE e.ev = "code" ->
         { <<{"C22"}, "a value cannot be encoded or decoded", e.err = 0 /\ e.err2 = 0>>,
           <<{"C22"}, "decoding gives another value than was encoded", e.got = e.v>>,
           <<{"C22"}, "encoding destroys what was in the buffer", e.kept = 1>>,
           <<{"C22"}, "the order of the encodings is not the order of the integers",
             e.codec = "lexo" => \A p \in st.lex : Less(p[1], e.v) = Less(p[2], e.enc) /\ Less(e.v, p[1]) = Less(e.enc, p[2])>> }
    [] e.ev = "lexobad" -> { <<{"C22"}, "input of a wrong length is accepted or a right one rejected", (e.err = 1) = (e.n # e.size)>> }
    [] e.ev = "jsonbad" -> { <<{"C22"}, "malformed JSON is accepted", e.err = 1>> }
    [] e.ev = "jsonrec" -> { <<{"C22"}, "an item in a record is another one when it is decoded", e.err = 0 /\ e.v = e.got /\ e.type = 1 /\ e.key = 1>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "code" /\ e.codec = "lexo" -> [st EXCEPT !.lex = @ \cup {<<e.v, e.enc>>}]
    [] OTHER -> st
================================================================================
