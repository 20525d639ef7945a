--------------------------------- MODULE Funcs ---------------------------------
(* The small functions of package sak (C27): minimum, maximum, absolute value, copies.                  *)
EXTENDS Util
NewState(cfg) == [cfg |-> cfg]
Least(s) == IF s = <<>> THEN 0 ELSE MinS(Rng(s))
Most(s) == IF s = <<>> THEN 0 ELSE MaxS(Rng(s))
Bag(s) == [x \in Rng(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
\* the last value wins
Keys(s) == {x[1] : x \in Rng(s)}
Val(s, k) == s[MaxS({i \in DOMAIN s : s[i][1] = k})][2]
Pairs(s) == {<<k, Val(s, k)>> : k \in Keys(s)}
RECURSIVE SeqOf(_, _)
SeqOf(S, s) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<Val(s, k)>> \o SeqOf(S \ {k}, s)
Guards(st, e, l) ==
  CASE e.ev = "nums" ->
         { <<{"C27"}, "the minimum or maximum of some numbers is another one", \A r \in Rng(e.minn) : r = Least(e.in)>>,
           <<{"C27"}, "the minimum or maximum of some numbers is another one", \A r \in Rng(e.maxn) : r = Most(e.in)>>,
           <<{"C27"}, "the minimum or maximum of two numbers is another one",
             Len(e.in) >= 2 => /\ \A r \in Rng(e.min) : r = Least(<<e.in[1], e.in[2]>>)
                               /\ \A r \in Rng(e.max) : r = Most(<<e.in[1], e.in[2]>>)>>,
           <<{"C27"}, "the absolute value of a number is another one",
             Len(e.in) >= 1 => \A r \in Rng(e.abs) : r = (IF e.in[1] < 0 THEN -e.in[1] ELSE e.in[1])>> }
    [] e.ev = "slice" ->
         { <<{"C27"}, "a copied slice has other content", e.out = e.in /\ e.back = e.in>>,
           <<{"C27"}, "a copied slice shares memory with the original", e.kept = 1>> }
    [] e.ev = "map" ->
         { <<{"C27"}, "a copied map has other content", Rng(e.copy) = Pairs(e.in) /\ Len(e.copy) = Cardinality(Keys(e.in))>>,
           <<{"C27"}, "a copied map is not independent of the original", e.kept = 1>>,
           <<{"C27"}, "the keys of a map are others", Rng(e.keys) = Keys(e.in) /\ Len(e.keys) = Cardinality(Keys(e.in))>>,
           <<{"C27"}, "the values of a map are others", Bag(e.vals) = Bag(SeqOf(Keys(e.in), e.in))>> }
    [] e.ev = "must" -> { <<{"C27"}, "an error is ignored or a value changed", e.got = (IF e.err = 1 THEN -1 ELSE e.v)>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) == st
================================================================================
