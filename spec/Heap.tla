---------------------------------- MODULE Heap ---------------------------------
(* A double-ended priority queue (C21): the items in it with their priorities.       *)
EXTENDS Util
NewState(cfg) == [cfg |-> cfg, its |-> None]     \* item -> priority
Lo(st) == MinS(Rng(st.its))
Hi(st) == MaxS(Rng(st.its))
End(st, e, want(_)) == IF DOMAIN st.its = {} THEN e.id = -1 ELSE e.id \in DOMAIN st.its /\ st.its[e.id] = want(st)
Guards(st, e, l) ==
  CASE e.ev \in {"min", "popmin"} -> { <<{"C21"}, "the minimum is not a smallest item of the heap", End(st, e, Lo)>> }
    [] e.ev \in {"max", "popmax"} -> { <<{"C21"}, "the maximum is not a largest item of the heap", End(st, e, Hi)>> }
    [] e.ev = "len" -> { <<{"C21"}, "the heap has another number of items", e.n = Cardinality(DOMAIN st.its)>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "new" -> [st EXCEPT !.its = [i \in {j - 1 : j \in DOMAIN e.prs} |-> e.prs[i + 1]]]
    [] e.ev \in {"push", "update"} -> [st EXCEPT !.its = Put(@, e.id, e.pr)]
    [] e.ev \in {"popmin", "popmax", "remove"} -> [st EXCEPT !.its = Del(@, e.id)]
    [] OTHER -> st
================================================================================
