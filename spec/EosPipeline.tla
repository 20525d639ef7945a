------------------------------- MODULE EosPipeline -------------------------------
(***************************************************************************)
(* A model of the mechanism with which an EventSource keeps the guarantees  *)
(* of Eos: the pool of transactional producers with one of them on deck,    *)
(* the commit queue, the ownership of source partitions by producers, the   *)
(* progress records in the same transaction, the hand-over of a partition,  *)
(* and the crash or failure of a member with the fate of its transactions.  *)
(* It is explored exhaustively; every step emits the events an observer     *)
(* would see, which have to pass the guards of Eos, and the only states     *)
(* without a successor are those in which everything is processed.          *)
(***************************************************************************)
EXTENDS Eos

CONSTANTS P,        \* source partitions
          N,        \* records per source partition
          K,        \* producers in the pool
          Q,        \* pending transactions
          Max,      \* MaxBatchSize
          Async,    \* TRUE: events may be completed later than they are handled
          Ms,       \* members
          Fate,     \* how member 1 ends: "", "crash", "fail"
          Move,     \* TRUE: partition 0 may be moved from member 1 to member 2
          Bug       \* "none", or a defect which the model has to show

VARIABLES st, bad, nd, deck, cq, free, ow, wk, fc, co, xs, asg, moved, over
vars == <<st, bad, nd, deck, cq, free, ow, wk, fc, co, xs, asg, moved, over>>

Parts == 0 .. P - 1
Mems == 1 .. Ms
Nodes == 1 .. K
Cfg == [ev |-> "cfg", parts |-> P, keys |-> 1, max |-> Max, lat |-> 0, pool |-> K, deser |-> "", txnh |-> "", metrics |-> "",
        interj |-> <<>>, tol |-> 0, goff |-> 0, gend |-> 0, complete |-> 1, bal |-> 0, mustfail |-> 0, starterr |-> 0, cb |-> 0, incr |-> 1]

RECURSIVE Fold(_, _)
Fold(sb, evs) ==
  IF evs = <<>> THEN sb
  ELSE LET e == Head(evs)
           s == sb[1]
           l == IF "l" \in DOMAIN e THEN e.l ELSE 1
           B == {g[2] : g \in {x \in Guards(s, e, l) : ~x[3]}}
       IN Fold(<<Apply(s, e, l), sb[2] \cup B>>, Tail(evs))
Emit(evs) == LET r == Fold(<<st, bad>>, evs) IN st' = r[1] /\ bad' = r[2]

H(m, p, o) == (m * P + p) * N + o + 1
Empty == [ph |-> "idle", ecs |-> [p \in Parts |-> <<>>], pend |-> <<>>, sent |-> <<>>, x |-> 0, n |-> 0]
Cnt(node) == LET RECURSIVE S(_)
                 S(T) == IF T = {} THEN 0 ELSE LET p == CHOOSE p \in T : TRUE IN Len(node.ecs[p]) + S(T \ {p})
             IN S(Parts)
Fill(node) == MaxS({Cnt(node), node.n})

Ins == [i \in 1 .. P * N |-> [ev |-> "in", p |-> (i - 1) \div N, o |-> (i - 1) % N, ty |-> "A", t |-> 0]]
Act(m, p, s) == <<[ev |-> "assigned", m |-> m, p |-> p, t |-> 0],
                  [ev |-> "activated", m |-> m, p |-> p, t |-> 0, st |-> Restored(s, p)]>>
RECURSIVE ActAll(_, _)
ActAll(S, s) == IF S = {} THEN <<>> ELSE LET p == MinS(S) IN Act(1, p, s) \o ActAll(S \ {p}, s)

NewWk == [s |-> "none", next |-> 0, q |-> <<>>, wait |-> {}]
Init ==
  LET s0 == NewState(Cfg)
      ev == Ins \o [m \in Mems |-> [ev |-> "start", m |-> m]] \o ActAll(Parts, s0)
      r == Fold(<<s0, {}>>, ev)
  IN /\ st = r[1] /\ bad = r[2]
     /\ nd = [m \in Mems |-> [k \in Nodes |-> Empty]]
     /\ deck = [m \in Mems |-> 1]
     /\ cq = [m \in Mems |-> <<>>]
     /\ free = [m \in Mems |-> [i \in 1 .. K - 1 |-> i + 1]]
     /\ ow = [m \in Mems |-> [p \in Parts |-> 0]]
     /\ wk = [m \in Mems |-> [p \in Parts |-> IF m = 1 THEN [NewWk EXCEPT !.s = "run"] ELSE NewWk]]
     /\ fc = [p \in Parts |-> 0] /\ co = [p \in Parts |-> 0] /\ xs = 0
     /\ asg = [p \in Parts |-> 1]
     /\ moved = FALSE /\ over = FALSE

Live(m) == Get(st.mem, m, "none") = "live"

---------------------------------------------------------------------------
(* A record is forwarded: it goes to the client of its producer if that one owns the partition, else it waits *)
Rec(m, p, o, i) == [h |-> H(m, p, o), m |-> m, i |-> i, p |-> p, c |-> IF i = 0 THEN "out" ELSE "chg", v |-> H(m, p, o)]
Put1(m, k, rs, node) ==   \* the records rs of a partition are given to producer k of member m
  LET p == rs[1].p IN
  IF ow[m][p] = k THEN [node EXCEPT !.sent = @ \o rs, !.n = @ + Len(rs)]
  ELSE [node EXCEPT !.pend = @ \o rs, !.n = @ + Len(rs)]
FwdEv(r, l) == [ev |-> "fwd", m |-> r.m, p |-> r.p, h |-> r.h, i |-> r.i, c |-> r.c, dp |-> r.p, k |-> 0, v |-> r.v, l |-> l]

\* The next record of a source partition is admitted to the transaction on deck
Admit(m, p) ==
  LET w == wk[m][p]
      k == deck[m]
      node == nd[m][k]
  IN /\ Live(m) /\ w.s = "run" /\ w.next < N
     /\ Fill(node) < Max
     /\ nd' = [nd EXCEPT ![m][k].ecs[p] = Append(@, w.next)]
     /\ ow' = IF ow[m][p] = 0 THEN [ow EXCEPT ![m][p] = k] ELSE ow
     /\ wk' = [wk EXCEPT ![m][p].next = @ + 1, ![m][p].q = Append(@, <<w.next, k>>)]
     /\ UNCHANGED <<st, bad, deck, cq, free, fc, co, xs, asg, moved, over>>

\* ... is handled and forwards two records; or one now, and one when it is completed later
Handle(m, p) ==
  LET w == wk[m][p]
      o == w.q[1][1]
      k == w.q[1][2]
      h == H(m, p, o)
  IN /\ Live(m) /\ w.q # <<>>
     /\ \E later \in (IF Async THEN BOOLEAN ELSE {FALSE}) :
        LET rs == IF later THEN <<Rec(m, p, o, 0)>> ELSE <<Rec(m, p, o, 0), Rec(m, p, o, 1)>>
            ev == <<[ev |-> "handle", m |-> m, p |-> p, o |-> o, h |-> h, st |-> Own(st, m, p).cur, k |-> "A", t |-> 0]>>
                  \o [i \in 1 .. Len(rs) |-> FwdEv(rs[i], fc[p] + i)]
                  \o <<[ev |-> "exit", m |-> m, p |-> p, h |-> h, done |-> IF later THEN 0 ELSE 1, t |-> 0]>>
        IN /\ Emit(ev)
           /\ nd' = [nd EXCEPT ![m][k] = Put1(m, k, rs, @)]
           /\ fc' = [fc EXCEPT ![p] = @ + Len(rs)]
           /\ wk' = [wk EXCEPT ![m][p].q = Tail(@), ![m][p].wait = IF later THEN @ \cup {<<o, k>>} ELSE @]
     /\ UNCHANGED <<deck, cq, free, ow, co, xs, asg, moved, over>>

Finish(m, p, a) ==
  LET o == a[1]
      k == a[2]
      r == Rec(m, p, o, 1)
  IN /\ Live(m) /\ a \in wk[m][p].wait
     /\ Emit(<<[ev |-> "fin", m |-> m, p |-> p, h |-> r.h, t |-> 0], FwdEv(r, fc[p] + 1),
               [ev |-> "exit", m |-> m, p |-> p, h |-> r.h, done |-> 1, t |-> 0]>>)
     /\ nd' = [nd EXCEPT ![m][k] = Put1(m, k, <<r>>, @)]
     /\ fc' = [fc EXCEPT ![p] = @ + 1]
     /\ wk' = [wk EXCEPT ![m][p].wait = @ \ {a}]
     /\ UNCHANGED <<deck, cq, free, ow, co, xs, asg, moved, over>>

\* The client of a producer delivers its next record to the brokers
AppEv(m, k, x, r) == [ev |-> "app", tag |-> m, x |-> x, c |-> r.c, h |-> r.h, i |-> r.i, dp |-> r.p, kk |-> 0, v |-> r.v, sz |-> 1,
                      o |-> IF r.c = "chg" THEN co[r.p] ELSE 0]
Deliver(m, k) ==
  LET node == nd[m][k]
      r == Head(node.sent)
      x == IF node.x = 0 THEN xs + 1 ELSE node.x
  IN /\ Live(m) /\ node.sent # <<>>
     /\ Emit((IF node.x = 0 THEN <<[ev |-> "begin", tag |-> m, x |-> x]>> ELSE <<>>) \o <<AppEv(m, k, x, r)>>)
     /\ nd' = [nd EXCEPT ![m][k].sent = Tail(@), ![m][k].x = x]
     /\ xs' = IF node.x = 0 THEN xs + 1 ELSE xs
     /\ co' = IF r.c = "chg" THEN [co EXCEPT ![r.p] = @ + 1] ELSE co
     /\ UNCHANGED <<deck, cq, free, ow, wk, fc, asg, moved, over>>

\* The transaction on deck is to be committed, another producer comes on deck
Swap(m) ==
  /\ Live(m) /\ Cnt(nd[m][deck[m]]) > 0
  /\ Len(cq[m]) < Q + 1 /\ free[m] # <<>>
  /\ cq' = [cq EXCEPT ![m] = Append(@, deck[m])]
  /\ deck' = [deck EXCEPT ![m] = Head(free[m])]
  /\ free' = [free EXCEPT ![m] = Tail(@)]
  /\ UNCHANGED <<st, bad, nd, ow, wk, fc, co, xs, asg, moved, over>>

\* The oldest one takes over its partitions and sends what it holds back
CommitStart(m) ==
  LET k == Head(cq[m])
      node == nd[m][k]
  IN /\ Live(m) /\ cq[m] # <<>> /\ node.ph = "idle"
     /\ nd' = [nd EXCEPT ![m][k] = [node EXCEPT !.ph = "commit", !.sent = @ \o node.pend, !.pend = <<>>]]
     /\ ow' = [ow EXCEPT ![m] = [p \in Parts |-> IF node.ecs[p] # <<>> THEN k ELSE @[p]]]
     /\ UNCHANGED <<st, bad, deck, cq, free, wk, fc, co, xs, asg, moved, over>>

DoneOf(m, node) ==
  \A p \in Parts : \A i \in DOMAIN node.ecs[p] :
    LET h == H(m, p, node.ecs[p][i]) IN
    Known(st, h) /\ (st.hs[h].done \/ Bug = "early" \/ (Bug = "newest" /\ i < Len(node.ecs[p])))
Last(s) == s[Len(s)]
RECURSIVE Progress(_, _, _, _)
Progress(m, x, node, S) ==
  IF S = {} THEN <<>>
  ELSE LET p == MinS(S) IN
       <<[ev |-> "app", tag |-> m, x |-> x, c |-> "cl", sp |-> p, dp |-> 0, sz |-> 1, o |-> 0,
          next |-> (IF Bug = "offset" THEN Last(node.ecs[p]) ELSE Last(node.ecs[p]) + 1)]>> \o Progress(m, x, node, S \ {p})

\* All its events are complete and all records are delivered: the progress is appended, then the transaction is ended
CommitEnding(m) ==
  LET k == Head(cq[m])
      node == nd[m][k]
      x == IF node.x = 0 THEN xs + 1 ELSE node.x
  IN /\ Live(m) /\ cq[m] # <<>> /\ node.ph = "commit"
     /\ DoneOf(m, node)
     /\ (Bug = "noflush" \/ node.sent = <<>>)
     /\ Emit((IF node.x = 0 THEN <<[ev |-> "begin", tag |-> m, x |-> x]>> ELSE <<>>)
             \o Progress(m, x, node, {p \in Parts : node.ecs[p] # <<>>}))
     /\ nd' = [nd EXCEPT ![m][k].ph = "ending", ![m][k].x = x]
     /\ xs' = IF node.x = 0 THEN xs + 1 ELSE xs
     /\ UNCHANGED <<deck, cq, free, ow, wk, fc, co, asg, moved, over>>

\* the producers after k, in turn
RECURSIVE Ring(_, _)
Ring(k, n) == IF n = 0 THEN <<>> ELSE LET j == (k % K) + 1 IN <<j>> \o Ring(j, n - 1)
OfPart(rs, p) == SelectSeq(rs, LAMBDA r : r.p = p)
NotPart(rs, p) == SelectSeq(rs, LAMBDA r : r.p # p)
\* the producer which gets partition p once k is finished
Heir(m, k, p) ==
  LET R == Ring(k, K - 1)
      I == {i \in DOMAIN R : nd[m][R[i]].ecs[p] # <<>>}
  IN IF I = {} THEN 0 ELSE IF Bug = "heir" THEN R[MaxS(I)] ELSE R[MinS(I)]

CommitEnd(m) ==
  LET k == Head(cq[m])
      node == nd[m][k]
      Ps == {p \in Parts : node.ecs[p] # <<>>}
  IN /\ Live(m) /\ cq[m] # <<>> /\ node.ph = "ending"
     /\ Emit(<<[ev |-> "end", x |-> node.x, ok |-> 1, t |-> 0, rt |-> 0, why |-> ""]>>)
     /\ ow' = [ow EXCEPT ![m] = [p \in Parts |-> IF p \in Ps THEN (IF Bug = "clear" THEN 0 ELSE Heir(m, k, p)) ELSE @[p]]]
     /\ nd' = [nd EXCEPT ![m] = [j \in Nodes |->
                 IF j = k THEN Empty
                 ELSE LET mine == {p \in Ps : Heir(m, k, p) = j}
                          out == SelectSeq(@[j].pend, LAMBDA r : r.p \in mine)
                      IN [@[j] EXCEPT !.sent = @ \o out, !.pend = SelectSeq(@, LAMBDA r : r.p \notin mine)]]]
     /\ cq' = [cq EXCEPT ![m] = Tail(@)]
     /\ free' = [free EXCEPT ![m] = Append(@, k)]
     /\ UNCHANGED <<deck, wk, fc, co, xs, asg, moved, over>>

---------------------------------------------------------------------------
(* Member 1 crashes, or it fails as a transaction could not be committed. Its open transactions are ended by somebody. *)
Die ==
  /\ Fate # "" /\ Live(1) /\ ~over
  /\ over' = TRUE
  /\ IF Fate = "crash" THEN Emit(<<[ev |-> "crash", m |-> 1]>>)
     ELSE /\ cq[1] # <<>> /\ nd[1][Head(cq[1])].ph = "ending"
          /\ Emit(<<[ev |-> "txnerr", m |-> 1, t |-> 0], [ev |-> "esdone", m |-> 1, state |-> 1, t |-> 0]>>)
  /\ UNCHANGED <<nd, deck, cq, free, ow, wk, fc, co, xs, asg, moved>>
Resolve(k) ==
  LET node == nd[1][k] IN
  /\ over /\ node.x # 0
  /\ \E ok \in (IF node.ph = "ending" /\ Fate = "crash" THEN {0, 1} ELSE {0}) :
       Emit(<<[ev |-> "end", x |-> node.x, ok |-> ok, t |-> 0, rt |-> 0, why |-> ""]>>)
  /\ nd' = [nd EXCEPT ![1][k] = [Empty EXCEPT !.ph = "dead"]]
  /\ UNCHANGED <<deck, cq, free, ow, wk, fc, co, xs, asg, moved, over>>

\* What has been written is readable up to the first open transaction only, so a successor waits for the transactions of
\* its predecessor which have touched the progress or the changes of the partition
Blocked(p) == \E k \in Nodes : nd[1][k].x # 0 /\ \E a \in Rng(st.tx[nd[1][k].x].apps) : (a.c = "cl" /\ a.sp = p) \/ (a.c = "chg" /\ a.dp = p)
Take(m, p) ==
  /\ Live(m) /\ m # asg[p]
  /\ ~Live(asg[p]) \/ (moved /\ p = 0 /\ asg[p] = 1 /\ wk[1][0].s = "gone")
  /\ (~Live(1) => (Bug = "unread" \/ ~Blocked(p)))
  /\ Emit(Act(m, p, st))
  /\ asg' = [asg EXCEPT ![p] = m]
  /\ wk' = [wk EXCEPT ![m][p] = [NewWk EXCEPT !.s = "run", !.next = st.prog[p]]]
  /\ UNCHANGED <<nd, deck, cq, free, ow, fc, co, xs, moved, over>>

(* A partition is moved: no more records are admitted, and it is given away once all of its events are committed *)
WillRevoke ==
  /\ Move /\ Live(1) /\ ~moved /\ wk[1][0].s = "run"
  /\ moved' = TRUE
  /\ Emit(<<[ev |-> "willrevoke", m |-> 1, p |-> 0, t |-> 0]>>)
  /\ wk' = [wk EXCEPT ![1][0].s = "closing"]
  /\ UNCHANGED <<nd, deck, cq, free, ow, fc, co, xs, asg, over>>
Revoked ==
  /\ Live(1) /\ wk[1][0].s = "closing"
  /\ (Bug = "handoff" \/ \A k \in Nodes : nd[1][k].ecs[0] = <<>>)
  /\ Emit(<<[ev |-> "srevoked", m |-> 1, p |-> 0, t |-> 0], [ev |-> "revoked", m |-> 1, p |-> 0, t |-> 0]>>)
  /\ wk' = [wk EXCEPT ![1][0].s = "gone"]
  /\ UNCHANGED <<nd, deck, cq, free, ow, fc, co, xs, asg, moved, over>>

Complete == \A p \in Parts : st.prog[p] = N
Rest == {m \in Mems : Live(m)}
Idle == \A m \in Rest : cq[m] = <<>> /\ \A k \in Nodes : Cnt(nd[m][k]) = 0
Quiet ==
  /\ Complete /\ Idle /\ ~(moved /\ asg[0] = 1 /\ Live(1)) /\ \A p \in Parts : Live(asg[p])
  /\ (over => \A k \in Nodes : nd[1][k].x = 0)
  /\ Emit(<<[ev |-> "quiet", members |-> <<>>, stable |-> 1, goff |-> <<>>]>>)
  /\ UNCHANGED <<nd, deck, cq, free, ow, wk, fc, co, xs, asg, moved, over>>

Next ==
  \/ \E m \in Mems : \E p \in Parts : Admit(m, p) \/ Handle(m, p) \/ Take(m, p) \/ \E a \in wk[m][p].wait : Finish(m, p, a)
  \/ \E m \in Mems : Swap(m) \/ CommitStart(m) \/ CommitEnding(m) \/ CommitEnd(m) \/ \E k \in Nodes : Deliver(m, k)
  \/ Die \/ (\E k \in Nodes : Resolve(k)) \/ WillRevoke \/ Revoked
  \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoGuardBroken == bad = {}
\* everything is processed in the end (with deadlock checking and weak fairness)
Ends == <>[](Complete)
=============================================================================
