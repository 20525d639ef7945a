---------------------------------- MODULE Pool ---------------------------------
(* A free list of reusable items (C27).                                              *)
EXTENDS Util
NewState(cfg) == [cfg |-> cfg, out |-> {}, av |-> {}, rel |-> 0, to |-> 0]
   \* out: in use; av: may be in the pool; rel, to: the item being released and what the resetter made of it (0: nothing yet)
Single(st) == st.cfg.single = 1
Guards(st, e, l) ==
  CASE e.ev = "borrow" ->
         { <<{"C27"}, "the pool hands out an item which is in use", e.id \notin st.out>>,
           <<{"C27"}, "the pool hands out an item which was not reset", st.cfg.reset # 0 => e.dirty = 0>>,
           <<{"C27"}, "the pool hands out an item it never had", e.id \in st.out \cup st.av>> }
    [] e.ev = "made" -> { <<{"C27"}, "an item is made although one is available", Single(st) => st.av = {}>> }
    [] e.ev = "released" ->
         { <<{"C27"}, "an item is dropped although there is room, or kept although there is none",
             Single(st) => (e.ok = 1) = (Cardinality(st.av \ {st.to}) < st.cfg.n)>>,
           <<{"C27"}, "an item is returned without being reset", Single(st) => st.to # 0>> }
    [] e.ev = "burst" ->
         { <<{"C27"}, "the pool hands out an item it never had", e.none = 0>>,
           <<{"C27"}, "the pool hands out an item which is in use", e.twice = 0>>,
           <<{"C27"}, "the pool hands out an item which was not reset", e.dirty = 0>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "made" -> [st EXCEPT !.av = @ \cup {e.id}]
    [] e.ev = "borrow" -> [st EXCEPT !.out = @ \cup {e.id}, !.av = @ \ {e.id}]
    [] e.ev = "release" -> IF st.cfg.reset = 0 THEN [st EXCEPT !.out = @ \ {e.id}, !.rel = e.id, !.to = e.id, !.av = @ \cup {e.id}]
                           ELSE [st EXCEPT !.out = @ \ {e.id}, !.rel = e.id, !.to = 0]
    [] e.ev = "reset" -> [st EXCEPT !.to = e.to, !.av = @ \cup {e.to}]
    [] e.ev = "released" -> IF Single(st) /\ e.ok = 0 THEN [st EXCEPT !.av = @ \ {st.to}] ELSE st
    [] OTHER -> st
================================================================================
