-------------------------------- MODULE Batcher --------------------------------
(* What can be observed of an AsyncBatcher, and what it guarantees (C10).          *)
EXTENDS Util

NewState(cfg) ==
  [cfg |-> cfg,
   bs |-> None,        \* batch -> [k, n, single, s, bef, ret]   s: called, handed, cb, end
   its |-> None,       \* <<batch, item>> -> [k, s, bef, t]    s: added, exec, done
   ex |-> None,        \* executions that run: x -> set of items
   kt |-> None,        \* key -> when the last execution with it ended
   ft |-> 0]           \* when the last execution ended that had been one too many

KeysOf(st, x) == {st.its[i].k : i \in st.ex[x]}
Items(e) == [j \in DOMAIN e.items |-> <<e.items[j][1], e.items[j][2]>>]
Avail(st, it) == Max2(it.t, Max2(Get(st.kt, it.k, 0), st.ft))

Guards(st, e, l) ==
  CASE e.ev = "exec" ->
         LET q == Items(e)
             I == Rng(q)
             new == \A i \in I : i \in DOMAIN st.its /\ st.its[i].s = "added"
         IN
         { <<{"C10"}, "something is executed that was not added, or twice", Len(q) > 0 /\ new /\ Cardinality(I) = Len(q)>>,
           <<{"C10"}, "an item is executed with another key", \A j \in DOMAIN q : q[j] \in DOMAIN st.its => st.its[q[j]].k = e.items[j][3]>>,
           <<{"C10"}, "an execution has more items than maxBatchSize", Len(q) <= st.cfg.max>>,
           <<{"C10"}, "more executions run at once than maxConcurrentBatches", Cardinality(DOMAIN st.ex) < st.cfg.conc>>,
           <<{"C10"}, "two executions with the same key run at the same time",
             \A x \in DOMAIN st.ex : KeysOf(st, x) \cap {e.items[j][3] : j \in DOMAIN e.items} = {}>>,
           <<{"C10"}, "items of one key are executed in another order than they were added",
             new => \A j \in DOMAIN q : \A b \in st.its[q[j]].bef : st.its[b].s = "done" \/ \E i \in 1 .. j - 1 : q[i] = b>>,
           <<{"C10"}, "an item waits longer than the delay although there is room",
             new => \A i \in I : e.t - Avail(st, st.its[i]) <= st.cfg.delay>> }
    [] e.ev = "handed" ->
         { <<{"C10"}, "a batch is completed twice, or one that was not added", e.id \in DOMAIN st.bs /\ st.bs[e.id].s = "called">>,
           <<{"C10"}, "a batch is completed before all its items were executed",
             \A i \in DOMAIN st.its : i[1] = e.id => st.its[i].s = "done">>,
           <<{"C10"}, "batches of one key are completed in another order than they were added",
             e.id \in DOMAIN st.bs => \A b \in st.bs[e.id].bef : st.bs[b].s # "called">> }
    [] e.ev = "cb" ->
         { <<{"C10"}, "a callback runs twice or before its batch is complete", e.id \in DOMAIN st.bs /\ st.bs[e.id].s = "handed">>,
           <<{"C10"}, "the callback gets another event, batch, items or results",
             e.ok = 1 /\ (e.id \in DOMAIN st.bs => e.items = [j \in 1 .. st.bs[e.id].n |-> j - 1])>> }
    [] e.ev = "state" ->
         { <<{"C10"}, "a callback is missing", e.id \in DOMAIN st.bs /\ st.bs[e.id].s = (IF st.cfg.nocb = 1 THEN "handed" ELSE "cb")>>,
           <<{"C10"}, "the event is not complete", e.done = 1>> }
    [] e.ev = "addret" -> { <<{"C10"}, "Add reports Complete", e.done = 0>> }
    [] e.ev = "quiet" ->
         { <<{"C10"}, "an item was never executed", \A i \in DOMAIN st.its : st.its[i].s = "done">>,
           <<{"C10"}, "a batch was never completed", \A b \in DOMAIN st.bs : st.bs[b].s = "end">>,
           <<{"C10"}, "a caller of Add is blocked forever", \A b \in DOMAIN st.bs : st.bs[b].ret>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}

Apply(st, e, l) ==
  CASE e.ev = "add" ->
         LET n == Len(e.items)
             single == \A j \in 1 .. n : e.items[j][2] = e.k
             old(k) == {i \in DOMAIN st.its : st.its[i].k = k /\ st.bs[i[1]].ret}
             its == [i \in {<<e.id, e.items[j][1]>> : j \in 1 .. n} |->
                       LET k == e.items[i[2] + 1][2] IN
                       [k |-> k, s |-> "added", t |-> e.t,
                        bef |-> {o \in old(k) : TRUE} \cup {<<e.id, e.items[j][1]>> : j \in {h \in 1 .. i[2] : e.items[h][2] = k}}]]
         IN [st EXCEPT !.its = its @@ @,
                       !.bs = Put(@, e.id, [k |-> e.k, n |-> n, single |-> single, s |-> "called", ret |-> FALSE,
                          bef |-> IF single THEN {b \in DOMAIN st.bs : st.bs[b].ret /\ st.bs[b].single /\ st.bs[b].k = e.k} ELSE {}])]
    [] e.ev = "addret" -> [st EXCEPT !.bs[e.id].ret = TRUE]
    [] e.ev = "exec" ->
         LET I == Rng(Items(e)) IN
         [st EXCEPT !.its = [i \in DOMAIN @ |-> IF i \in I THEN [@[i] EXCEPT !.s = "exec"] ELSE @[i]],
                    !.ex = Put(@, e.x, I)]
    [] e.ev = "execd" ->
         LET I == st.ex[e.x]
             full == Cardinality(DOMAIN st.ex) = st.cfg.conc
         IN [st EXCEPT !.its = [i \in DOMAIN @ |-> IF i \in I THEN [@[i] EXCEPT !.s = "done"] ELSE @[i]],
                       !.ex = Del(@, e.x),
                       !.kt = [k \in DOMAIN @ \cup KeysOf(st, e.x) |-> IF k \in KeysOf(st, e.x) THEN e.t ELSE @[k]],
                       !.ft = IF full THEN e.t ELSE @]
    [] e.ev = "handed" ->   \* an empty batch takes up its key until it is completed
         [st EXCEPT !.bs[e.id].s = "handed", !.kt = IF st.bs[e.id].n = 0 THEN Put(@, st.bs[e.id].k, e.t) ELSE @]
    [] e.ev = "cb" -> [st EXCEPT !.bs[e.id].s = "cb"]
    [] e.ev = "state" -> [st EXCEPT !.bs[e.id].s = "end"]
    [] OTHER -> st
================================================================================
