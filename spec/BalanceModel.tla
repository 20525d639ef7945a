------------------------------- MODULE BalanceModel -------------------------------
(***************************************************************************)
(* A model of the incremental rebalancer and of the protocol it is part of: *)
(* members join, leave gracefully and crash; a rebalance collects what the  *)
(* members say, plans (unassigned partitions first, then moves whose        *)
(* receiver is ready, then one new move at most), takes out what another    *)
(* member still owns, and every member gets its part in its own time;       *)
(* members prepare, forget, and ask for the next rebalance.                 *)
(* It is explored exhaustively; what an observer would see has to pass the  *)
(* guards of Balance, and once nobody joins, leaves or crashes any more     *)
(* the rebalances come to an end.                                           *)
(***************************************************************************)
EXTENDS Balance

CONSTANTS M,        \* members are 1 .. M
          P,        \* partitions
          Start,    \* how many members there are in the beginning
          Joins, Leaves, Crashes, Fails,   \* how often this may happen
          Bug       \* "none", or a defect which the model has to show

VARIABLES st, bad, mm, ord, need, sync, plan, budget, over
vars == <<st, bad, mm, ord, need, sync, plan, budget, over>>

Cfg == [ev |-> "cfg", n |-> P]
RECURSIVE Fold(_, _)
Fold(sb, evs) ==
  IF evs = <<>> THEN sb
  ELSE LET e == Head(evs)
           B == {g[2] : g \in {x \in Guards(sb[1], e, 1) : ~x[3]}}
       IN Fold(<<Apply(sb[1], e, 1), sb[2] \cup B>>, Tail(evs))
Emit(evs) == LET r == Fold(<<st, bad>>, evs) IN st' = r[1] /\ bad' = r[2]
RECURSIVE Seq2(_)
Seq2(S) == IF S = {} THEN <<>> ELSE <<MinS(S)>> \o Seq2(S \ {MinS(S)})
Map(S, F(_)) == LET q == Seq2(S) IN [i \in 1 .. Len(q) |-> F(q[i])]

Ps == 0 .. P - 1
Gone == [s |-> "gone", own |-> {}, prep |-> {}, ready |-> {}]
New == [s |-> "active", own |-> {}, prep |-> {}, ready |-> {}]
There == {m \in DOMAIN mm : mm[m].s # "gone"}

Init ==
  LET r == Fold(<<NewState(Cfg), {}>>, Map(1 .. Start, LAMBDA m : [ev |-> "join", m |-> m])) IN
  /\ st = r[1] /\ bad = r[2]
  /\ mm = [m \in 1 .. M |-> IF m <= Start THEN New ELSE Gone]
  /\ ord = <<>>            \* leaving members, in the order in which they began to leave
  /\ need = TRUE /\ sync = {} /\ plan = None
  /\ budget = [j |-> Joins, l |-> Leaves, c |-> Crashes, f |-> Fails]
  /\ over = FALSE

---------------------------------------------------------------------------
(* The plan. G: the group as the planner sees it; the order in which unassigned partitions are handed out is arbitrary *)
Act == {m \in There : mm[m].s = "active"}
G0 ==
  LET rec == UNION {mm[m].prep \cup mm[m].ready : m \in Act}
  IN [own |-> [m \in There |-> mm[m].own],
      don |-> [m \in There |-> mm[m].own \ rec],
      ding |-> [m \in There |-> mm[m].own \cap rec],
      prep |-> [m \in There |-> mm[m].prep], ready |-> [m \in There |-> mm[m].ready],
      ins |-> [m \in There |-> {}], rec |-> rec, tr |-> {}]
Load(G, m) == Cardinality(G.don[m]) + Cardinality(G.ding[m]) + Cardinality(G.prep[m]) + Cardinality(G.ready[m])
Owned(G, m) == Cardinality(G.don[m]) + Cardinality(G.ding[m])
Less(G, a, b) == \/ Load(G, a) < Load(G, b)
                 \/ Load(G, a) = Load(G, b) /\ (Owned(G, a) < Owned(G, b) \/ (Owned(G, a) = Owned(G, b) /\ a <= b))
Least(G) == CHOOSE m \in Act : \A n \in Act : Less(G, m, n)
Most(G) == CHOOSE m \in Act : \A n \in Act : Less(G, n, m)

Give(G, p, m, sched) ==
  [G EXCEPT !.own[m] = @ \cup {p}, !.don[m] = @ \cup {p}, !.prep[m] = @ \ {p}, !.ready[m] = @ \ {p},
            !.rec = IF sched THEN @ \cup {p} ELSE @ \ {p}, !.tr = IF sched THEN @ \cup {p} ELSE @ \ {p}]
RECURSIVE Unassigned(_, _)
Unassigned(G, U) ==
  IF U = {} THEN {G}
  ELSE UNION {LET S == {m \in Act : p \in G.prep[m] \cup G.ready[m]}
                  m == IF S = {} \/ Bug = "passby" THEN Least(G) ELSE CHOOSE x \in S : TRUE
              IN Unassigned(IF Bug = "budget" THEN Give(G, p, m, TRUE) ELSE Give(G, p, m, S # {}), U \ {p}) : p \in U}
\* moves whose receiver is ready
RECURSIVE Deliver(_, _)
Deliver(G, R) ==
  IF R = {} THEN G
  ELSE LET r == CHOOSE x \in R : TRUE
           d == CHOOSE m \in There : r[2] \in mm[m].own
           G1 == [G EXCEPT !.own[d] = @ \ {r[2]}, !.don[d] = @ \ {r[2]}, !.ding[d] = @ \cup {r[2]}]
       IN Deliver(Give(G1, r[2], r[1], TRUE), R \ {r})
ReadyFor(G) == {<<m, p>> \in Act \X Ps : (p \in G.ready[m] \/ (Bug = "unready" /\ p \in G.prep[m])) /\ \E d \in There : p \in mm[d].own}
\* one new move, if none is under way
Prepare(G, d) ==
  {[G EXCEPT !.ins[Least(G)] = {p}] : p \in G.don[d]}
Schedule(G) ==
  LET leaving == SelectSeq(ord, LAMBDA m : m \in There /\ G.don[m] # {})
      target == P \div Cardinality(Act)
      d == Most(G)
  IN IF Cardinality(G.rec) + Cardinality(G.tr) > 0 /\ Bug # "many" THEN {G}
     ELSE IF leaving # <<>> THEN Prepare(G, Head(leaving))
     ELSE IF Cardinality(Act) >= 2 /\ Cardinality(G.don[d]) > 1 /\
             (Load(G, Least(G)) < target \/ (Load(G, d) > target + 1 /\ Bug # "rest"))
     THEN Prepare(G, d)
     ELSE {G}
Plans ==
  IF Act = {} THEN {[m \in There |-> [ps |-> {}, prepare |-> {}, forget |-> mm[m].prep \cup mm[m].ready]]}
  ELSE LET U == Ps \ UNION {mm[m].own : m \in There}
           S == UNION {Schedule(Deliver(G, ReadyFor(G))) : G \in Unassigned(G0, U)}
           \* a partition which another member owns is given away in the next round
           coop(G, m) == IF Bug = "eager" THEN G.own[m] ELSE {p \in G.own[m] : p \in mm[m].own \/ \A n \in There : p \notin mm[n].own}
       IN {[m \in There |-> [ps |-> coop(G, m), prepare |-> G.ins[m],
                             forget |-> IF m \in Act \/ Bug = "noforget" THEN {} ELSE mm[m].prep \cup mm[m].ready]] : G \in S}

---------------------------------------------------------------------------
Rebalance ==
  /\ need /\ sync = {} /\ There # {} /\ \A m \in There : mm[m].s # "free"
  /\ need' = FALSE
  /\ \E pl \in Plans :
       /\ plan' = pl
       /\ Emit(<<[ev |-> "reb", arb |-> 0,
                  members |-> Map(There, LAMBDA m : [m |-> m, st |-> IF mm[m].s = "active" THEN 0 ELSE 1, own |-> Seq2(mm[m].own),
                                                     prep |-> Seq2(mm[m].prep), ready |-> Seq2(mm[m].ready)])],
                 [ev |-> "plan", arb |-> 0,
                  plan |-> Map(There, LAMBDA m : [m |-> m, ps |-> Seq2(pl[m].ps), prepare |-> Seq2(pl[m].prepare), forget |-> Seq2(pl[m].forget)])]>>)
  /\ sync' = There
  /\ UNCHANGED <<mm, ord, budget, over>>

Sync(m) ==
  LET x == mm[m]
      i == plan[m]
      free == x.s = "leaving" /\ i.ps = {}
      new == IF free THEN {} ELSE i.prepare \ x.prep
      del == IF free THEN {} ELSE i.forget \cap (x.prep \cup x.ready)
      got == i.ps \ x.own
      prep == ((x.prep \cup new) \ del)
      ready == x.ready \ del
  IN /\ m \in sync
     /\ sync' = sync \ {m}
     /\ Emit(<<[ev |-> "syncing", m |-> m]>> \o Map(new, LAMBDA p : [ev |-> "prepare", m |-> m, p |-> p])
             \o Map(del, LAMBDA p : [ev |-> "forget", m |-> m, p |-> p]) \o <<[ev |-> "sync", m |-> m, ps |-> Seq2(i.ps), bad |-> 0]>>)
     /\ mm' = [mm EXCEPT ![m] = [s |-> IF free THEN "free" ELSE x.s, own |-> i.ps, prep |-> prep \ got, ready |-> ready \ got]]
     /\ need' = (need \/ (x.own \ i.ps # {} /\ Bug # "second") \/ got \cap (prep \cup ready) # {} \/ del # {})
     /\ UNCHANGED <<ord, plan, budget, over>>
MayLeave(m) ==
  /\ mm[m].s = "free"
  /\ Emit(<<[ev |-> "mayleave", m |-> m]>>)
  /\ mm' = [mm EXCEPT ![m] = Gone]
  /\ need' = TRUE
  /\ UNCHANGED <<ord, sync, plan, budget, over>>
Prepared(m, p) ==
  /\ p \in mm[m].prep
  /\ Emit(<<[ev |-> "prepared", m |-> m, p |-> p]>>)
  /\ mm' = [mm EXCEPT ![m].prep = @ \ {p}, ![m].ready = @ \cup {p}]
  /\ need' = (need \/ Bug # "silent")
  /\ UNCHANGED <<ord, sync, plan, budget, over>>
Failed(m, p) ==
  /\ budget.f > 0 /\ p \in mm[m].prep
  /\ Emit(<<[ev |-> "failed", m |-> m, p |-> p]>>)
  /\ mm' = [mm EXCEPT ![m].prep = @ \ {p}]
  /\ need' = TRUE
  /\ budget' = [budget EXCEPT !.f = @ - 1]
  /\ UNCHANGED <<ord, sync, plan, over>>

\* who joins, leaves or crashes in the middle of a rebalance does so before or after it
Join(m) ==
  /\ budget.j > 0 /\ mm[m].s = "gone" /\ sync = {} /\ m > Start /\ m \notin Rng(ord)
  /\ Emit(<<[ev |-> "join", m |-> m]>>)
  /\ mm' = [mm EXCEPT ![m] = New]
  /\ need' = TRUE
  /\ budget' = [budget EXCEPT !.j = @ - 1]
  /\ UNCHANGED <<ord, sync, plan, over>>
Leave(m) ==
  /\ budget.l > 0 /\ mm[m].s = "active"
  /\ Emit(<<[ev |-> "leave", m |-> m]>>)
  /\ mm' = [mm EXCEPT ![m].s = "leaving"]
  /\ ord' = Append(ord, m)
  /\ need' = TRUE
  /\ budget' = [budget EXCEPT !.l = @ - 1]
  /\ UNCHANGED <<sync, plan, over>>
Crash(m) ==
  /\ budget.c > 0 /\ mm[m].s \in {"active", "leaving"}
  /\ Emit(<<[ev |-> "gone", m |-> m]>>)
  /\ mm' = [mm EXCEPT ![m] = Gone]
  /\ sync' = sync \ {m}
  /\ need' = TRUE
  /\ budget' = [budget EXCEPT !.c = @ - 1]
  /\ UNCHANGED <<ord, plan, over>>

Rests == ~need /\ sync = {} /\ \A m \in There : mm[m].prep = {} /\ mm[m].s # "free"
Settled ==
  /\ Rests \/ There = {}
  /\ ~over /\ over' = TRUE
  /\ IF There = {} THEN UNCHANGED <<st, bad>> ELSE Emit(<<[ev |-> "settled", rest |-> 1]>>)
  /\ budget' = [j |-> 0, l |-> 0, c |-> 0, f |-> 0]
  /\ UNCHANGED <<mm, ord, need, sync, plan>>
Over == over /\ UNCHANGED vars

Next == IF over THEN Over ELSE
  \/ Rebalance \/ Settled
  \/ \E m \in 1 .. M : Sync(m) \/ MayLeave(m) \/ Join(m) \/ Leave(m) \/ Crash(m) \/ \E p \in Ps : Prepared(m, p) \/ Failed(m, p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoGuardBroken == bad = {}
Ends == <>over
=============================================================================
