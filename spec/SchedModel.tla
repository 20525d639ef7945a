-------------------------------- MODULE SchedModel --------------------------------
(***************************************************************************)
(* A model of the mechanism of an AsyncJobScheduler: callers which look up  *)
(* or create the queue of a key under a lock and add to it, or wait for a   *)
(* place in it outside of the lock; the channel of queues with work; the    *)
(* threads which take a queue, run its first job, complete it, and release  *)
(* or return the queue; the limit of queues in use and the signal for those *)
(* who wait for one. It is explored exhaustively; what an observer would    *)
(* see has to pass the guards of Sched, and it never gets stuck.            *)
(***************************************************************************)
EXTENDS Sched

CONSTANTS Callers,  \* how many goroutines call Schedule
          Jobs,     \* how many jobs are scheduled altogether
          Keys, Conc, Depth, MaxKeys,
          Bug       \* "none", or a defect which the model has to show

VARIABLES st, bad, ca, left, q, ch, th, sig
vars == <<st, bad, ca, left, q, ch, th, sig>>

Cap == Max2(Depth, 2) - 1          \* places behind the first job of a queue
Lim == Max2(Conc, MaxKeys)
Cfg == [ev |-> "cfg", conc |-> Conc, max |-> MaxKeys, depth |-> Depth, final |-> 1]

RECURSIVE Fold(_, _)
Fold(sb, evs) ==
  IF evs = <<>> THEN sb
  ELSE LET e == Head(evs)
           B == {g[2] : g \in {x \in Guards(sb[1], e, 1) : ~x[3]}}
       IN Fold(<<Apply(sb[1], e, 1), sb[2] \cup B>>, Tail(evs))
Emit(evs) == LET r == Fold(<<st, bad>>, evs) IN st' = r[1] /\ bad' = r[2]

Nobody == [pc |-> "idle", id |-> 0, k |-> 0]
NoQueue == [on |-> FALSE, head |-> 0, rest |-> <<>>, size |-> 0]

Init == /\ st = NewState(Cfg) /\ bad = {}
        /\ ca = [c \in 1 .. Callers |-> Nobody]
        /\ left = Jobs
        /\ q = [k \in 1 .. Keys |-> NoQueue]
        /\ ch = <<>>
        /\ th = [i \in 1 .. Conc |-> Nobody]
        /\ sig = 0

Ret(id) == <<[ev |-> "schedret", id |-> id, done |-> 0, t |-> 0]>>
\* the head of a queue is filled up from the channel behind it
Backfill(w) == IF w.head = 0 /\ w.rest # <<>> THEN [w EXCEPT !.head = Head(w.rest), !.rest = Tail(w.rest)] ELSE w

Call(c, k) ==
  LET id == Jobs - left + 1 IN
  /\ ca[c].pc = "idle" /\ left > 0
  \* callers which are idle are alike, and so are keys which were not used yet
  /\ \A d \in 1 .. c - 1 : ca[d].pc # "idle"
  /\ k <= MaxS({st.jobs[i].k : i \in DOMAIN st.jobs} \cup {0}) + 1
  /\ Emit(<<[ev |-> "sched", id |-> id, k |-> k, e |-> 0, t |-> 0]>>)
  /\ ca' = [ca EXCEPT ![c] = [pc |-> "want", id |-> id, k |-> k]]
  /\ left' = left - 1
  /\ UNCHANGED <<q, ch, th, sig>>

Grab(c) ==
  LET k == ca[c].k
      id == ca[c].id
      w == Backfill([q[k] EXCEPT !.on = TRUE, !.size = @ + 1])
      new == ~q[k].on
  IN
  /\ ca[c].pc = "want"
  /\ IF new /\ Cardinality({j \in 1 .. Keys : q[j].on}) >= Lim /\ Bug # "nolimit"
     THEN ca' = [ca EXCEPT ![c].pc = "wait"] /\ UNCHANGED <<st, bad, q>>
     ELSE IF w.head = 0
     THEN /\ q' = [q EXCEPT ![k] = [w EXCEPT !.head = id]]
          /\ IF new \/ Bug = "twice" THEN ca' = [ca EXCEPT ![c].pc = "enq"] /\ UNCHANGED <<st, bad>>
                    ELSE ca' = [ca EXCEPT ![c] = Nobody] /\ Emit(Ret(id))
     ELSE IF Len(w.rest) < Cap
     THEN /\ q' = [q EXCEPT ![k] = [w EXCEPT !.rest = Append(@, id)]]
          /\ IF Bug = "twice" THEN ca' = [ca EXCEPT ![c].pc = "enq"] /\ UNCHANGED <<st, bad>>
                    ELSE ca' = [ca EXCEPT ![c] = Nobody] /\ Emit(Ret(id))
     ELSE /\ q' = [q EXCEPT ![k] = w]
          /\ ca' = [ca EXCEPT ![c].pc = "full"] /\ UNCHANGED <<st, bad>>
  /\ UNCHANGED <<left, ch, th, sig>>
Enqueue(c) ==
  /\ ca[c].pc = "enq" /\ Len(ch) <= Lim
  /\ ch' = Append(ch, ca[c].k)
  /\ ca' = [ca EXCEPT ![c] = Nobody]
  /\ Emit(Ret(ca[c].id))
  /\ UNCHANGED <<left, q, th, sig>>
\* outside of the lock, so the queue has to stay alive for it
Place(c) ==
  LET k == ca[c].k IN
  /\ ca[c].pc = "full" /\ Len(q[k].rest) < Cap
  /\ q' = [q EXCEPT ![k].rest = Append(@, ca[c].id)]
  /\ ca' = [ca EXCEPT ![c] = Nobody]
  /\ Emit(Ret(ca[c].id))
  /\ UNCHANGED <<left, ch, th, sig>>
Woken(c) ==
  /\ ca[c].pc = "wait" /\ sig = 1
  /\ sig' = 0
  /\ ca' = [ca EXCEPT ![c].pc = "want"]
  /\ UNCHANGED <<st, bad, left, q, ch, th>>

Take(i) ==
  /\ th[i].pc = "idle" /\ ch # <<>>
  /\ \A j \in 1 .. i - 1 : th[j].pc # "idle"
  /\ th' = [th EXCEPT ![i] = [pc |-> "peek", id |-> 0, k |-> Head(ch)]]
  /\ ch' = Tail(ch)
  /\ UNCHANGED <<st, bad, ca, left, q, sig>>
Run(i) ==
  LET k == th[i].k
      w == Backfill(q[k])
  IN
  /\ th[i].pc = "peek"
  /\ q' = [q EXCEPT ![k] = w]
  /\ IF w.head = 0 THEN th' = [th EXCEPT ![i].pc = "release"] /\ UNCHANGED <<st, bad>>
     ELSE /\ th' = [th EXCEPT ![i] = [@ EXCEPT !.pc = "run", !.id = w.head]]
          /\ Emit(<<[ev |-> "run", id |-> w.head, k |-> k]>>)
  /\ UNCHANGED <<ca, left, ch, sig>>
\* the job is done and leaves the queue
Ran(i) ==
  LET k == th[i].k IN
  /\ th[i].pc = "run"
  /\ Emit(<<[ev |-> "ran", id |-> th[i].id]>>)
  /\ q' = [q EXCEPT ![k] = IF Bug = "late" THEN @ ELSE Backfill([@ EXCEPT !.size = @ - 1, !.head = 0])]
  /\ th' = [th EXCEPT ![i].pc = IF Bug = "early" THEN "release2" ELSE "hand"]
  /\ UNCHANGED <<ca, left, ch, sig>>
Hand(id, k) == <<[ev |-> "handed", id |-> id], [ev |-> "fin", id |-> id, ec |-> id, k |-> k, err |-> 0, t |-> 0],
                 [ev |-> "state", id |-> id, done |-> 1, t |-> 0]>>
Finish(i) ==
  /\ th[i].pc = "hand"
  /\ Emit(Hand(th[i].id, th[i].k))
  /\ th' = IF Bug = "early" THEN [th EXCEPT ![i] = Nobody] ELSE [th EXCEPT ![i].pc = "release"]
  /\ UNCHANGED <<ca, left, q, ch, sig>>
Idle(k) == IF Bug = "orphan" THEN q[k].head = 0 /\ q[k].rest = <<>> ELSE q[k].size <= 0
Release(i) ==
  LET k == th[i].k IN
  /\ th[i].pc \in {"release", "release2"}
  /\ th' = IF th[i].pc = "release2" THEN [th EXCEPT ![i].pc = "hand"] ELSE [th EXCEPT ![i] = Nobody]
  /\ IF Idle(k)
     THEN /\ q' = [q EXCEPT ![k] = NoQueue]
          /\ sig' = IF Bug = "nosignal" THEN sig ELSE 1
          /\ UNCHANGED ch
     ELSE /\ Len(ch) <= Lim
          /\ ch' = IF Bug = "drop" THEN ch ELSE Append(ch, k)
          /\ UNCHANGED <<q, sig>>
  /\ UNCHANGED <<st, bad, ca, left>>

Quiet ==
  /\ left = 0 /\ \A c \in DOMAIN ca : ca[c].pc = "idle"
  /\ \A i \in DOMAIN th : th[i].pc = "idle"
  /\ ch = <<>>
  /\ Emit(<<[ev |-> "quiet", t |-> 0]>>)
  /\ UNCHANGED <<ca, left, q, ch, th, sig>>

Next ==
  \/ \E c \in DOMAIN ca : (\E k \in 1 .. Keys : Call(c, k)) \/ Grab(c) \/ Enqueue(c) \/ Place(c) \/ Woken(c)
  \/ \E i \in DOMAIN th : Take(i) \/ Run(i) \/ Ran(i) \/ Finish(i) \/ Release(i)
  \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoGuardBroken == bad = {}
=============================================================================
