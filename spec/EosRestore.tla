-------------------------------- MODULE EosRestore --------------------------------
(***************************************************************************)
(* A model of the mechanism with which the state store of a source          *)
(* partition is restored: the change log with its committed, aborted and    *)
(* open transactions, the replay of it by a population (ahead of time by a  *)
(* member which prepares for the partition, or once it is assigned), the    *)
(* markers by which a population knows that it has read everything, fetched *)
(* records which are still on their way when a population is replaced,      *)
(* preparations which are forgotten, compaction, the crash of the owner     *)
(* in the middle of a transaction, and hand-overs.                          *)
(* It is explored exhaustively; every step emits the events an observer     *)
(* would see, which have to pass the guards of Eos (the store an event      *)
(* handler sees is exactly what was committed and what the handlers of this *)
(* member changed since), and every partition is processed in the end.      *)
(***************************************************************************)
EXTENDS Eos

CONSTANTS N,        \* records of the source partition
          K,        \* keys of the store
          Ms,       \* members
          Moves,    \* how often the partition is moved away from a live owner
          Preps,    \* how many preparations are started
          Crash,    \* TRUE: one owner crashes
          Compact,  \* "changes": superseded changes may be removed from the log, "marks": superseded markers too, "no"
          Bug       \* "none", or a defect which the model has to show

VARIABLES st, bad, log, cl, pop, md, next, tx, xs, asg, moves, preps
vars == <<st, bad, log, cl, pop, md, next, tx, xs, asg, moves, preps>>

Mems == 1 .. Ms
Cfg == [ev |-> "cfg", parts |-> 1, keys |-> K, max |-> 9, lat |-> 0, pool |-> 1, deser |-> "", txnh |-> "", metrics |-> "",
        interj |-> <<>>, tol |-> 0, goff |-> 0, gend |-> 0, complete |-> 1, bal |-> 0, mustfail |-> 0, starterr |-> 0, cb |-> 0, incr |-> 1]
Zero == [k \in 1 .. K |-> 0]
Val(o) == IF o % 3 = 2 THEN 0 ELSE o + 1       \* every third change deletes its key
Key(o) == o % K
H(m, o) == m * N + o + 1

RECURSIVE Fold(_, _)
Fold(sb, evs) ==
  IF evs = <<>> THEN sb
  ELSE LET e == Head(evs)
           B == {g[2] : g \in {x \in Guards(sb[1], e, 1) : ~x[3]}}
       IN Fold(<<Apply(sb[1], e, 1), sb[2] \cup B>>, Tail(evs))
Emit(evs) == LET r == Fold(<<st, bad>>, evs) IN st' = r[1] /\ bad' = r[2]

\* the consumer of the change log of a member: pos is the next record to fetch, way are records which were fetched but not
\* yet given to a population
NoPop == [on |-> FALSE, id |-> 0, st |-> Zero, ack |-> {}]
NoTx == [s |-> "none", o |-> 0, x |-> 0]

Init ==
  LET s0 == NewState(Cfg)
      r == Fold(<<s0, {}>>, [i \in 1 .. N |-> [ev |-> "in", p |-> 0, o |-> i - 1, ty |-> "A", t |-> 0]]
                            \o [m \in Mems |-> [ev |-> "start", m |-> m]] \o <<[ev |-> "assigned", m |-> 1, p |-> 0, t |-> 0]>>)
  IN /\ st = r[1] /\ bad = r[2]
     /\ log = <<>>
     /\ cl = [m \in Mems |-> [pos |-> 1, way |-> <<>>]]
     /\ pop = [m \in Mems |-> IF m = 1 THEN [NoPop EXCEPT !.on = TRUE] ELSE NoPop]
     /\ md = [m \in Mems |-> IF m = 1 THEN "assigned" ELSE "idle"]
     /\ next = [m \in Mems |-> 0]
     /\ tx = [m \in Mems |-> NoTx]
     /\ xs = 0 /\ asg = 1 /\ moves = 0 /\ preps = 0

Live(m) == Get(st.mem, m, "none") = "live"

---------------------------------------------------------------------------
(* What can be read *)
Open(i) == log[i].ty = "chg" /\ st.tx[log[i].x].s = "open"
Lso == LET S == {i \in DOMAIN log : Open(i)} IN IF S = {} \/ Bug = "dirty" THEN Len(log) + 1 ELSE MinS(S)
Visible(i) == log[i].ty = "mark" \/ (log[i].ty = "chg" /\ (Bug = "dirty" \/ st.tx[log[i].x].s = "ok"))
\* an open transaction of a member that is gone holds back the progress too, once it has written it
Blocked == \E m \in Mems : ~Live(m) /\ tx[m].s = "ending"

---------------------------------------------------------------------------
(* Populations *)
Fresh(m) == [on |-> TRUE, id |-> pop[m].id + 1, st |-> Zero, ack |-> {}]
Start(m) == [cl EXCEPT ![m].pos = IF Bug = "resume" THEN @ ELSE 1]

Prep(m) ==
  /\ Live(m) /\ md[m] = "idle" /\ asg # m /\ preps < Preps
  /\ preps' = preps + 1
  /\ pop' = [pop EXCEPT ![m] = Fresh(m)]
  /\ cl' = Start(m)
  /\ md' = [md EXCEPT ![m] = "prep"]
  /\ UNCHANGED <<st, bad, log, next, tx, xs, asg, moves>>
PrepMark(m) ==
  /\ Live(m) /\ md[m] = "prep"
  /\ log' = Append(log, [ty |-> "mark", m |-> m, id |-> pop[m].id, act |-> FALSE])
  /\ md' = [md EXCEPT ![m] = "prepw"]
  /\ UNCHANGED <<st, bad, cl, pop, next, tx, xs, asg, moves, preps>>
Forget(m) ==
  /\ Live(m) /\ md[m] \in {"prep", "prepw", "prepped"}
  /\ pop' = [pop EXCEPT ![m].on = IF Bug = "forget" THEN @ ELSE FALSE]
  /\ md' = [md EXCEPT ![m] = IF Bug = "keep" THEN "kept" ELSE "idle"]
  /\ UNCHANGED <<st, bad, log, cl, next, tx, xs, asg, moves, preps>>

\* The client fetches while there is a population
Fetch(m) ==
  LET i == cl[m].pos IN
  /\ Live(m) /\ pop[m].on /\ i < Lso /\ Len(cl[m].way) < 2
  /\ cl' = [cl EXCEPT ![m] = [pos |-> i + 1, way |-> IF Visible(i) THEN Append(@.way, log[i]) ELSE @.way]]
  /\ UNCHANGED <<st, bad, log, pop, md, next, tx, xs, asg, moves, preps>>
\* What was fetched is given to the population of the day, if there is one
Give(m) ==
  LET r == Head(cl[m].way)
      q == pop[m]
      mine == r.ty = "mark" /\ (IF Bug = "stale" THEN TRUE ELSE r.m = m /\ r.id = q.id)
  IN /\ Live(m) /\ cl[m].way # <<>>
     /\ cl' = [cl EXCEPT ![m].way = Tail(@)]
     /\ IF ~q.on THEN UNCHANGED <<st, bad, pop, md>>
        ELSE IF r.ty = "chg"
        THEN /\ Emit(<<[ev |-> "recv", m |-> m, p |-> 0, v |-> Val(r.o)]>>)
             /\ pop' = [pop EXCEPT ![m].st[Key(r.o) + 1] = Val(r.o)]
             /\ UNCHANGED md
        ELSE IF mine /\ ~r.act /\ md[m] = "prepw"
        THEN md' = [md EXCEPT ![m] = "prepped"] /\ UNCHANGED <<st, bad, pop>>
        ELSE IF mine /\ (r.act \/ Bug = "stale") /\ md[m] = "marked"
        THEN /\ md' = [md EXCEPT ![m] = "restored"]
             /\ pop' = [pop EXCEPT ![m].on = (Bug = "late")]
             /\ UNCHANGED <<st, bad>>
        ELSE UNCHANGED <<st, bad, pop, md>>
     /\ UNCHANGED <<log, next, tx, xs, asg, moves, preps>>

---------------------------------------------------------------------------
(* Assignment *)
Assign(m) ==
  /\ Live(m) /\ m # asg
  /\ asg = 0 \/ ~Live(asg)
  /\ md[m] \in {"idle", "kept", "prep", "prepw", "prepped"}
  /\ asg' = m
  /\ Emit(<<[ev |-> "assigned", m |-> m, p |-> 0, t |-> 0]>>)
  /\ IF md[m] = "idle" THEN pop' = [pop EXCEPT ![m] = Fresh(m)] /\ cl' = Start(m) ELSE UNCHANGED <<pop, cl>>
  /\ md' = [md EXCEPT ![m] = IF @ = "kept" \/ (Bug = "nomark" /\ @ = "prepped") THEN "quick" ELSE "assigned"]
  /\ UNCHANGED <<log, next, tx, xs, moves, preps>>
\* first the progress is read ...
Progress(m) ==
  /\ Live(m) /\ md[m] \in {"assigned", "quick"} /\ (Bug = "unread" \/ ~Blocked)
  /\ next' = [next EXCEPT ![m] = st.prog[0]]
  /\ md' = [md EXCEPT ![m] = IF @ = "quick" THEN "restored" ELSE "synced"]
  /\ UNCHANGED <<st, bad, log, cl, pop, tx, xs, asg, moves, preps>>
\* ... then a marker shows the end of the change log
ActMark(m) ==
  /\ Live(m) /\ md[m] = "synced"
  /\ log' = Append(log, [ty |-> "mark", m |-> m, id |-> pop[m].id, act |-> TRUE])
  /\ md' = [md EXCEPT ![m] = "marked"]
  /\ UNCHANGED <<st, bad, cl, pop, next, tx, xs, asg, moves, preps>>
Activate(m) ==
  /\ Live(m) /\ md[m] = "restored"
  /\ Emit(<<[ev |-> "activated", m |-> m, p |-> 0, t |-> 0, st |-> pop[m].st]>>)
  /\ md' = [md EXCEPT ![m] = "active"]
  /\ UNCHANGED <<log, cl, pop, next, tx, xs, asg, moves, preps>>

---------------------------------------------------------------------------
(* The owner processes, one transaction per event *)
Process(m) ==
  LET o == next[m]
      h == H(m, o)
      x == xs + 1
  IN /\ Live(m) /\ md[m] = "active" /\ tx[m].s = "none" /\ o < N
     /\ Emit(<<[ev |-> "handle", m |-> m, p |-> 0, o |-> o, h |-> h, st |-> Own(st, m, 0).cur, k |-> "A", t |-> 0],
               [ev |-> "fwd", m |-> m, p |-> 0, h |-> h, i |-> 0, c |-> "chg", dp |-> 0, k |-> Key(o), v |-> Val(o)],
               [ev |-> "exit", m |-> m, p |-> 0, h |-> h, done |-> 1, t |-> 0],
               [ev |-> "begin", tag |-> m, x |-> x],
               [ev |-> "app", tag |-> m, x |-> x, c |-> "chg", h |-> h, i |-> 0, dp |-> 0, kk |-> Key(o), v |-> Val(o), sz |-> 1,
                o |-> Len(log) + 1]>>)
     /\ log' = Append(log, [ty |-> "chg", o |-> o, x |-> x])
     /\ tx' = [tx EXCEPT ![m] = [s |-> "open", o |-> o, x |-> x]]
     /\ xs' = x
     /\ UNCHANGED <<cl, pop, md, next, asg, moves, preps>>
Ending(m) ==
  /\ Live(m) /\ tx[m].s = "open"
  /\ Emit(<<[ev |-> "app", tag |-> m, x |-> tx[m].x, c |-> "cl", sp |-> 0, dp |-> 0, sz |-> 1, o |-> 0, next |-> tx[m].o + 1]>>)
  /\ tx' = [tx EXCEPT ![m].s = "ending"]
  /\ UNCHANGED <<log, cl, pop, md, next, xs, asg, moves, preps>>
Commit(m) ==
  /\ Live(m) /\ tx[m].s = "ending"
  /\ Emit(<<[ev |-> "end", x |-> tx[m].x, ok |-> 1, t |-> 0, rt |-> 0, why |-> ""]>>)
  /\ tx' = [tx EXCEPT ![m] = NoTx]
  /\ next' = [next EXCEPT ![m] = @ + 1]
  /\ UNCHANGED <<log, cl, pop, md, xs, asg, moves, preps>>

WillRevoke(m) ==
  /\ Live(m) /\ md[m] = "active" /\ asg = m /\ moves < Moves
  /\ moves' = moves + 1
  /\ Emit(<<[ev |-> "willrevoke", m |-> m, p |-> 0, t |-> 0]>>)
  /\ md' = [md EXCEPT ![m] = "closing"]
  /\ UNCHANGED <<log, cl, pop, next, tx, xs, asg, preps>>
Revoked(m) ==
  /\ Live(m) /\ md[m] = "closing" /\ tx[m].s = "none"
  /\ Emit(<<[ev |-> "srevoked", m |-> m, p |-> 0, t |-> 0], [ev |-> "revoked", m |-> m, p |-> 0, t |-> 0]>>)
  /\ md' = [md EXCEPT ![m] = "idle"]
  /\ pop' = [pop EXCEPT ![m].on = FALSE]
  /\ asg' = 0
  /\ UNCHANGED <<log, cl, next, tx, xs, moves, preps>>
Die(m) ==
  /\ Crash /\ Live(m) /\ m = asg /\ \A q \in Mems : Live(q)
  /\ Emit(<<[ev |-> "crash", m |-> m]>>)
  /\ UNCHANGED <<log, cl, pop, md, next, tx, xs, asg, moves, preps>>
Resolve(m) ==
  /\ ~Live(m) /\ tx[m].s # "none"
  /\ \E ok \in (IF tx[m].s = "ending" THEN {0, 1} ELSE {0}) : Emit(<<[ev |-> "end", x |-> tx[m].x, ok |-> ok, t |-> 0, rt |-> 0, why |-> ""]>>)
  /\ tx' = [tx EXCEPT ![m] = NoTx]
  /\ UNCHANGED <<log, cl, pop, md, next, xs, asg, moves, preps>>

\* Compaction removes what is superseded
Clean(i) ==
  /\ Compact # "no"
  /\ i \in DOMAIN log
  /\ \E j \in (i + 1) .. (Lso - 1) :
       \/ /\ log[i].ty = "chg" /\ log[j].ty = "chg"
          /\ Visible(j) /\ (~Visible(i) \/ Key(log[i].o) = Key(log[j].o))
       \/ Compact = "marks" /\ log[i].ty = "mark" /\ log[j].ty = "mark"
  /\ log' = [log EXCEPT ![i] = [ty |-> "gone"]]
  /\ UNCHANGED <<st, bad, cl, pop, md, next, tx, xs, asg, moves, preps>>

Finished == st.prog[0] = N /\ asg # 0 /\ Live(asg) /\ md[asg] = "active" /\ \A m \in Mems : tx[m].s = "none"
Quiet ==
  /\ Finished
  /\ Emit(<<[ev |-> "quiet", members |-> <<>>, stable |-> 1, goff |-> <<>>]>>)
  /\ UNCHANGED <<log, cl, pop, md, next, tx, xs, asg, moves, preps>>

Next ==
  \/ \E m \in Mems : \/ Prep(m) \/ PrepMark(m) \/ Forget(m) \/ Fetch(m) \/ Give(m) \/ Assign(m) \/ Progress(m) \/ ActMark(m) \/ Activate(m)
                     \/ Process(m) \/ Ending(m) \/ Commit(m) \/ WillRevoke(m) \/ Revoked(m) \/ Die(m) \/ Resolve(m)
  \/ \E i \in DOMAIN log : Clean(i)
  \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoGuardBroken == bad = {}
\* whatever happens, the partition gets an active owner (deadlock checking finds the states where it does not)
=============================================================================
