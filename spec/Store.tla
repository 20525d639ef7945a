---------------------------------- MODULE Store --------------------------------
(* Maps with a change log, a sharded map and ordered sets (C20).                      *)
EXTENDS Util
Keys == 0 .. 7
Empty == [k \in Keys |-> -1]
NewState(cfg) == [cfg |-> cfg, m |-> <<Empty, Empty>>, lg |-> <<Empty, Empty>>, tm |-> None, tree |-> None, h |-> None, set |-> <<({}), ({})>>]
   \* m: what the stores contain; lg: what the replay of their logs contains
Row(f) == [i \in 1 .. 8 |-> f[i - 1]]
SS == {"put", "tocle", "del", "replay", "recv"}
After(st, e) ==
  CASE e.ev = "put" -> [st EXCEPT !.m[e.s + 1][e.k] = e.v, !.lg[e.s + 1][e.k] = e.v]
    [] e.ev = "del" -> IF e.ok = 1 THEN [st EXCEPT !.m[e.s + 1][e.k] = -1, !.lg[e.s + 1][e.k] = -1] ELSE st
    [] e.ev = "replay" -> [st EXCEPT !.m[e.to + 1] = st.lg[e.from + 1], !.lg[e.to + 1] = st.lg[e.from + 1]]
    [] e.ev = "recv" -> CASE e.w = "put" -> [st EXCEPT !.m[e.s + 1][e.k] = e.v, !.lg[e.s + 1][e.k] = e.v]
                          [] e.w = "del" -> [st EXCEPT !.m[e.s + 1][e.k] = -1, !.lg[e.s + 1][e.k] = -1]
                          [] OTHER -> st
    [] e.ev = "tput" -> [st EXCEPT !.tm = Put(@, e.k, e.v), !.tree = Put(@, e.k, e.tree), !.h = Put(@, e.k, e.h)]
    [] e.ev = "tdel" -> [st EXCEPT !.tm = Del(@, e.k), !.tree = Put(@, e.k, e.tree), !.h = Put(@, e.k, e.h)]
    [] e.ev = "tget" -> [st EXCEPT !.tree = Put(@, e.k, e.tree), !.h = Put(@, e.k, e.h)]
    [] e.ev = "sins" -> [st EXCEPT !.set[e.s + 1] = @ \cup {e.x}]
    [] e.ev = "srem" -> [st EXCEPT !.set[e.s + 1] = @ \ {e.x}]
    [] e.ev = "snew" -> [st EXCEPT !.set[e.s + 1] = {}]
    [] OTHER -> st
Ordered(q, lt(_, _)) == \A i \in 1 .. Len(q) - 1 : lt(q[i], q[i + 1])
TpLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Guards(st, e, l) ==
  CASE e.ev \in SS ->
         LET t == After(st, e) IN
         { <<{"C20"}, "the store does not contain what was put and not deleted", e.c0 = Row(t.m[1]) /\ e.c1 = Row(t.m[2])>>,
           <<{"C20"}, "a change log entry has another key", e.ev \in {"put", "tocle", "del"} => e.ek = 1>>,
           <<{"C20"}, "a change log entry of an item is a deletion", e.ev \in {"put", "tocle"} => e.del = 0>>,
           <<{"C20"}, "the change log entry of a deletion has a value", e.ev = "del" => e.del = 1>>,
           <<{"C20"}, "Delete misreports whether the key was there", e.ev = "del" => (e.ok = 1) = (st.m[e.s + 1][e.k] # -1)>>,
           <<{"C20"}, "the store cannot read its own change log", e.ev = "replay" => e.bad = 0>>,
           <<{"C20"}, "the store misreports a change it cannot decode", e.ev = "recv" => (e.err = 1) = (e.w = "bad")>> }
    [] e.ev \in {"tput", "tdel", "tget"} ->
         LET t == After(st, e) IN
         { <<{"C20"}, "the tree has another item for the key", (IF e.ev = "tget" THEN e.v ELSE e.old) = Get(st.tm, e.k, -1)>>,
           <<{"C20"}, "the number of items is wrong", e.len = Cardinality(DOMAIN t.tm)>>,
           <<{"C20"}, "a key is looked for in another shard", \A k \in DOMAIN t.tree : (t.tree[k] = e.tree) = (t.h[k] = e.h)>>,
           <<{"C20"}, "a shard is not the ordered map of its keys",
             e.ev = "tget" => /\ Ordered(e.all, LAMBDA a, b : a[1] < b[1])
                              /\ Rng(e.all) = {<<k, st.tm[k]>> : k \in {x \in DOMAIN st.tm : t.h[x] = e.h}}>> }
    [] e.ev = "hash" -> { <<{"C20"}, "a key is hashed in two ways", e.same = 1>>,
                          <<{"C20"}, "keys are ordered wrongly", e.lt = e.want /\ (e.nl = 1) = (e.x < e.y)>> }
    [] e.ev \in {"sins", "srem", "shas", "sitems"} ->
         LET t == After(st, e) s == t.set[e.s + 1] IN
         { <<{"C20"}, "the set does not have its members in order", Rng(e.items) = s /\ Ordered(e.items, TpLess) /\ e.len = Cardinality(s)>>,
           <<{"C20"}, "the set misreports a member",
             e.ev # "sitems" => (e.ok = 1) = (IF e.ev = "sins" THEN e.x \notin st.set[e.s + 1] ELSE e.x \in st.set[e.s + 1])>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) == After(st, e)
================================================================================
