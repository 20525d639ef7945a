--------------------------------- MODULE DList ---------------------------------
(* Two linked lists (C27): each is the sequence of the elements in it.               *)
EXTENDS Util
NewState(cfg) == [cfg |-> cfg, ls |-> <<(<<>>), (<<>>)>>, val |-> None]   \* element -> value
Has(s, x) == \E i \in DOMAIN s : s[i] = x
Ix(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))   \* x becomes the i-th
InsBef(s, m, x) == InsAt(s, Ix(s, m), x)
InsAft(s, m, x) == InsAt(s, Ix(s, m) + 1, x)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Vals(st, s) == [i \in DOMAIN s |-> st.val[s[i]]]
Fwd(e, k) == LET f == IF k = 1 THEN e.f0 ELSE e.f1 IN [i \in DOMAIN f |-> f[i][1]]
FVals(e, k) == LET f == IF k = 1 THEN e.f0 ELSE e.f1 IN [i \in DOMAIN f |-> f[i][2]]
Bwd(e, k) == IF k = 1 THEN e.b0 ELSE e.b1
N(e, k) == IF k = 1 THEN e.n0 ELSE e.n1
\* the new elements of PushBackList, PushFrontList are not returned: they are where they have to be
NewLists(st, e) ==
  LET k == e.l + 1  s == st.ls[k]
      mine == e.e # -1 /\ Has(s, e.e)
      both == mine /\ e.m # -1 /\ Has(s, e.m) /\ e.e # e.m
      r == CASE e.ev = "pushf" -> <<e.r>> \o s
             [] e.ev = "pushb" -> Append(s, e.r)
             [] e.ev = "insb" -> IF mine THEN InsBef(s, e.e, e.r) ELSE s
             [] e.ev = "insa" -> IF mine THEN InsAft(s, e.e, e.r) ELSE s
             [] e.ev = "remove" -> Without(s, e.e)
             [] e.ev = "movef" -> IF mine THEN <<e.e>> \o Without(s, e.e) ELSE s
             [] e.ev = "moveb" -> IF mine THEN Append(Without(s, e.e), e.e) ELSE s
             [] e.ev = "movebef" -> IF both THEN InsBef(Without(s, e.e), e.m, e.e) ELSE s
             [] e.ev = "moveaft" -> IF both THEN InsAft(Without(s, e.e), e.m, e.e) ELSE s
             [] e.ev = "pushbl" -> LET f == Fwd(e, k) n == Len(st.ls[e.e + 1]) IN
                                   IF Len(f) >= n THEN s \o SubSeq(f, Len(f) - n + 1, Len(f)) ELSE s
             [] e.ev = "pushfl" -> LET f == Fwd(e, k) n == Len(st.ls[e.e + 1]) IN
                                   IF Len(f) >= n THEN SubSeq(f, 1, n) \o s ELSE s
             [] OTHER -> s
  IN [st.ls EXCEPT ![k] = r]
NewVals(st, e) ==
  CASE e.ev \in {"pushf", "pushb", "insb", "insa"} -> IF e.r = -1 THEN st.val ELSE Put(st.val, e.r, e.v)
    [] e.ev \in {"pushbl", "pushfl"} ->
         LET o == st.ls[e.e + 1]  nl == NewLists(st, e)[e.l + 1]  n == Len(o)
             at == IF e.ev = "pushbl" THEN Len(nl) - n ELSE 0
         IN [x \in {nl[at + i] : i \in 1 .. n} |-> st.val[o[CHOOSE i \in 1 .. n : nl[at + i] = x]]] @@ st.val
    [] OTHER -> st.val
Ops == {"pushf", "pushb", "insb", "insa", "remove", "movef", "moveb", "movebef", "moveaft", "pushbl", "pushfl"}
Fresh(st, e) == \* new elements are new
  CASE e.ev \in {"pushf", "pushb"} -> e.r \notin DOMAIN st.val
    [] e.ev \in {"insb", "insa"} -> IF e.e # -1 /\ Has(st.ls[e.l + 1], e.e) THEN e.r \notin DOMAIN st.val ELSE e.r = -1
    [] e.ev \in {"pushbl", "pushfl"} ->
         LET n == Len(st.ls[e.e + 1]) nl == NewLists(st, e)[e.l + 1]
             at == IF e.ev = "pushbl" THEN Len(nl) - n ELSE 0
         IN /\ Len(nl) = Len(st.ls[e.l + 1]) + n
            /\ \A i \in 1 .. n : nl[at + i] \notin DOMAIN st.val
    [] OTHER -> TRUE
Guards(st, e, l) ==
  CASE e.ev \in Ops ->
    IF ~Fresh(st, e) THEN { <<{"C27"}, "an operation of the list adds no new element", FALSE>> } ELSE
    LET ls == NewLists(st, e)
        val == NewVals(st, e)
    IN { <<{"C27"}, "the list does not hold its elements in order", \A k \in 1 .. 2 : Fwd(e, k) = ls[k] /\ Bwd(e, k) = Rev(ls[k])>>,
         <<{"C27"}, "the list has another length", \A k \in 1 .. 2 : N(e, k) = Len(ls[k])>>,
         <<{"C27"}, "an element of the list has another value",
           \A k \in 1 .. 2 : Fwd(e, k) = ls[k] => FVals(e, k) = [i \in DOMAIN ls[k] |-> val[ls[k][i]]]>>,
         <<{"C27"}, "Remove returns another value", e.ev = "remove" => e.rv = st.val[e.e]>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "new" -> NewState(st.cfg)
    [] e.ev \in Ops -> IF Fresh(st, e) THEN [st EXCEPT !.ls = NewLists(st, e), !.val = NewVals(st, e)] ELSE st
    [] OTHER -> st
================================================================================
