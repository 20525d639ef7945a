-------------------------------- MODULE Balance --------------------------------
(* The incremental rebalancer: plans and instructions (C12), convergence (C13).         *)
EXTENDS Util
\* mem: what each member has: st 0 active, 1 leaving; own, prep, ready: sets of partitions; pend: told to prepare; drop: told to forget;
\*      free: has been given no partitions while leaving
\* in: the group as the balancer was told; plan: its plan
NewState(cfg) == [cfg |-> cfg, mem |-> None, in |-> None, plan |-> None, arb |-> 0]
NewMem == [st |-> 0, own |-> {}, prep |-> {}, ready |-> {}, pend |-> {}, drop |-> {}, free |-> FALSE]
Parts(st) == 0..(st.cfg.n - 1)
ToMap(s) == [m \in {s[i].m : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].m = m IN s[i]]
SumLen(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + Len(s[i].ps) IN f[Len(s)]
---------------------------------------------------------------------------------
\* about a plan pl for the group g with partitions P
Active(g) == {m \in DOMAIN g : g[m].st = 0}
Owners(g, p) == {m \in DOMAIN g : p \in Rng(g[m].own)}
Getters(pl, p) == {m \in DOMAIN pl : p \in Rng(pl[m].ps)}
Moving(g) == UNION {Rng(g[m].prep) \cup Rng(g[m].ready) : m \in Active(g)}
Sched(g, p) == {m \in Active(g) : p \in Rng(g[m].prep) \cup Rng(g[m].ready)}
NewPrep(pl) == UNION {Rng(pl[m].prepare) : m \in DOMAIN pl}
Taken(g, pl, P) == {p \in P : Owners(g, p) # {} /\ \A m \in Owners(g, p) : p \notin Rng(pl[m].ps)}
PlanGuards(g, seq, P, arb) ==
  LET pl == ToMap(seq) IN
  IF DOMAIN pl # DOMAIN g \/ Len(seq) # Cardinality(DOMAIN pl) THEN {<<{"C12"}, "a plan is not for the members of the group", FALSE>>}
  ELSE
  { <<{"C12"}, "a plan names a partition which does not exist", \A m \in DOMAIN pl : Rng(pl[m].ps) \subseteq P>>,
    <<{"C12"}, "a plan gives a partition to two members", \A p \in P : Cardinality(Getters(pl, p)) <= 1>>,
    <<{"C12"}, "a plan gives a partition twice", \A m \in DOMAIN pl : Cardinality(Rng(pl[m].ps)) = Len(pl[m].ps)>>,
    <<{"C12"}, "a plan moves an owned partition before its owner gives it up",
      \A p \in P : Owners(g, p) # {} => Getters(pl, p) \subseteq Owners(g, p)>>,
    <<{"C12", "C13"}, "a plan gives a partition to a member which leaves",
      \A m \in DOMAIN g \ Active(g) : Rng(pl[m].ps) \subseteq Rng(g[m].own)>>,
    <<{"C12"}, "an instruction to forget reaches the wrong member or partition",
      \A m \in DOMAIN g : Rng(pl[m].forget) = IF g[m].st = 0 THEN {} ELSE Rng(g[m].prep) \cup Rng(g[m].ready)>> }
  \cup (IF Active(g) = {} THEN {} ELSE
  { <<{"C12", "C13"}, "an unowned partition is left out", \A p \in P : Owners(g, p) = {} => Getters(pl, p) # {}>>,
    <<{"C12"}, "an unowned partition passes by the member which prepared it",
      \A p \in P : Owners(g, p) = {} /\ Sched(g, p) # {} => Getters(pl, p) \subseteq Sched(g, p)>>,
    <<{"C12"}, "a partition is taken away and nobody is ready for it",
      \A p \in Taken(g, pl, P) : Cardinality(Owners(g, p)) > 1 \/ \E m \in Active(g) : p \in Rng(g[m].ready) /\ m \notin Owners(g, p)>>,
    <<{"C12"}, "a partition is to be prepared by a member which leaves", \A m \in DOMAIN pl : m \in Active(g) \/ pl[m].prepare = <<>>>>,
    <<{"C12"}, "a partition is to be prepared which is not to be moved",
      \A m \in DOMAIN pl : \A p \in Rng(pl[m].prepare) : Owners(g, p) \ {m} # {} /\ p \notin Taken(g, pl, P)>>,
    <<{"C12"}, "more than one partition is to be prepared",
      Cardinality(NewPrep(pl)) <= 1 /\ \A m \in DOMAIN pl : Len(pl[m].prepare) <= 1>>,
    <<{"C12"}, "a partition is to be prepared while another one is being moved", Moving(g) # {} => NewPrep(pl) = {}>>,
    <<{"C12", "C13"}, "more than one partition is being moved", arb = 1 \/ Cardinality(Moving(g) \cup NewPrep(pl)) <= 1>> })
---------------------------------------------------------------------------------
\* what a member says about itself
Says(x, d) == d.st = x.st /\ Rng(d.own) = x.own /\ Rng(d.prep) = x.prep /\ Rng(d.ready) = x.ready /\ Len(d.own) = Cardinality(x.own)
Ready4(st, m) == m \in DOMAIN st.mem
Balanced(st) ==
  LET A == {m \in DOMAIN st.mem : st.mem[m].st = 0} N(m) == Cardinality(st.mem[m].own) IN \A a, b \in A : N(a) - N(b) <= 1
Guards(st, e, l) ==
  CASE e.ev = "reb" /\ e.arb = 0 ->
         LET g == ToMap(e.members) IN
         { <<{"C12"}, "a member misreports its partitions", DOMAIN g = DOMAIN st.mem /\ \A m \in DOMAIN g : Says(st.mem[m], g[m])>>,
           <<{"C12"}, "an instruction does not reach a member", \A m \in DOMAIN st.mem : st.mem[m].pend = {} /\ st.mem[m].drop = {}>>,
           <<{"C13"}, "a member without partitions is not told that it may leave", \A m \in DOMAIN st.mem : ~st.mem[m].free>> }
    [] e.ev = "plan" -> PlanGuards(st.in, e.plan, Parts(st), e.arb)
    [] e.ev \in {"badplan", "badmeta"} -> { <<{"C12"}, "a plan fails", FALSE>> }
    [] e.ev = "sync" ->
         LET o == UNION {st.mem[m].own : m \in DOMAIN st.mem \ {e.m}} IN
         { <<{"C12"}, "a member gets other partitions than the plan says", e.bad = 0 /\ Rng(e.ps) = Rng(st.plan[e.m].ps)>>,
           <<{"C12", "C13"}, "a partition has two owners", Rng(e.ps) \cap o = {}>> }
    [] e.ev = "prepare" -> { <<{"C12"}, "a member prepares a partition it was not told to", Ready4(st, e.m) => e.p \in st.mem[e.m].pend>> }
    [] e.ev = "forget" -> { <<{"C12"}, "a member forgets a partition it was not told to", Ready4(st, e.m) => e.p \in st.mem[e.m].drop>> }
    [] e.ev = "mayleave" -> { <<{"C13"}, "a member may leave while it has partitions", st.mem[e.m].free /\ st.mem[e.m].own = {}>> }
    [] e.ev = "settled" ->
         { <<{"C13"}, "the rebalances never end", e.rest > 0>>,
           <<{"C13"}, "a member can never leave", (\E m \in DOMAIN st.mem : st.mem[m].st = 0) => \A m \in DOMAIN st.mem : st.mem[m].st = 0>>,
           <<{"C13"}, "a partition has no active owner",
             (\E m \in DOMAIN st.mem : st.mem[m].st = 0) => Parts(st) = UNION {st.mem[m].own : m \in {x \in DOMAIN st.mem : st.mem[x].st = 0}}>>,
           <<{"C13"}, "the group is not balanced in the end", Balanced(st)>> }
    [] e.ev = "quiet" -> { <<{"C12"}, "an instruction does not reach a member", \A m \in DOMAIN st.mem : st.mem[m].pend = {} /\ st.mem[m].drop = {}>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "join" -> [st EXCEPT !.mem = Put(@, e.m, NewMem)]
    [] e.ev \in {"gone", "mayleave"} -> [st EXCEPT !.mem = Del(@, e.m)]
    [] e.ev = "leave" -> [st EXCEPT !.mem[e.m].st = 1]
    [] e.ev = "reb" -> [st EXCEPT !.in = ToMap(e.members), !.arb = e.arb]
    [] e.ev = "plan" -> [st EXCEPT !.plan = ToMap(e.plan)]
    [] e.ev = "syncing" ->
         LET x == st.mem[e.m] ins == st.plan[e.m]
             free == x.st = 1 /\ ins.ps = <<>>
             dp == IF free THEN {} ELSE Rng(ins.prepare) df == IF free THEN {} ELSE Rng(ins.forget) IN
         [st EXCEPT !.mem[e.m] = [x EXCEPT !.free = free, !.pend = dp \ x.prep, !.drop = df \cap (x.prep \cup x.ready),
                                           !.prep = (@ \cup dp) \ df, !.ready = @ \ df]]
    [] e.ev = "sync" ->
         LET x == st.mem[e.m] ps == Rng(e.ps) new == ps \ x.own IN
         [st EXCEPT !.mem[e.m] = [x EXCEPT !.own = ps, !.prep = @ \ new, !.ready = @ \ new]]
    [] e.ev = "prepare" -> IF Ready4(st, e.m) THEN [st EXCEPT !.mem[e.m].pend = @ \ {e.p}] ELSE st
    [] e.ev = "forget" -> IF Ready4(st, e.m) THEN [st EXCEPT !.mem[e.m].drop = @ \ {e.p}] ELSE st
    [] e.ev = "prepared" -> [st EXCEPT !.mem[e.m].prep = @ \ {e.p}, !.mem[e.m].ready = @ \cup {e.p}]
    [] e.ev = "failed" -> [st EXCEPT !.mem[e.m].prep = @ \ {e.p}, !.mem[e.m].ready = @ \ {e.p}]
    [] OTHER -> st
================================================================================
