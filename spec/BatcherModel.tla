------------------------------- MODULE BatcherModel -------------------------------
(***************************************************************************)
(* A model of the mechanism of an AsyncBatcher: callers which add the items *)
(* of a batch one by one, executors which collect items until they are full *)
(* or their timer fires, the assignment of keys to executors, the list of   *)
(* items which have to wait, placeholders of empty batches, and what        *)
(* happens when an execution has ended. It is explored exhaustively; what   *)
(* an observer would see has to pass the guards of Batcher, and it never    *)
(* gets stuck. Time is not modelled: a timer may fire whenever it is set.   *)
(***************************************************************************)
EXTENDS Batcher

CONSTANTS Callers, Batches, Keys, Execs, Max,
          Sizes,    \* the number of items of a batch is at most this
          Mixed,    \* TRUE: a batch may have items of several keys
          Bug       \* "none", or a defect which the model has to show

VARIABLES st, bad, ca, left, ex, asg, wait, cnt, xs
vars == <<st, bad, ca, left, ex, asg, wait, cnt, xs>>

Cfg == [ev |-> "cfg", conc |-> Execs, max |-> Max, delay |-> 0, nocb |-> 0]
RECURSIVE Fold(_, _)
Fold(sb, evs) ==
  IF evs = <<>> THEN sb
  ELSE LET e == Head(evs)
           B == {g[2] : g \in {x \in Guards(sb[1], e, 1) : ~x[3]}}
       IN Fold(<<Apply(sb[1], e, 1), sb[2] \cup B>>, Tail(evs))
Emit(evs) == LET r == Fold(<<st, bad>>, evs) IN st' = r[1] /\ bad' = r[2]

NoCall == [b |-> 0, k |-> 0, todo |-> <<>>]
\* s: ready, begun (it was decided to execute), run, done
NoExec == [s |-> "ready", q |-> <<>>, timer |-> FALSE, x |-> 0]
Real(q) == SelectSeq(q, LAMBDA it : it.i >= 0)

Init == /\ st = NewState(Cfg) /\ bad = {}
        /\ ca = [c \in 1 .. Callers |-> NoCall]
        /\ left = Batches
        /\ ex = [x \in 1 .. Execs |-> NoExec]
        /\ asg = [k \in 1 .. Keys |-> 0]
        /\ wait = <<>>
        /\ cnt = [b \in 1 .. Batches |-> 0]
        /\ xs = 0

\* a batch is a sequence of keys (its items), which may be empty
Ks == UNION {[1 .. n -> 1 .. Keys] : n \in 0 .. Sizes}
Call(c, k, ks) ==
  LET b == Batches - left + 1 IN
  /\ ca[c] = NoCall /\ left > 0 /\ \A d \in 1 .. c - 1 : ca[d] # NoCall
  /\ Mixed \/ \A j \in DOMAIN ks : ks[j] = k
  /\ b = 1 => k = 1
  /\ Emit(<<[ev |-> "add", id |-> b, k |-> k, items |-> [j \in 1 .. Len(ks) |-> <<j - 1, ks[j]>>], t |-> 0]>>)
  /\ ca' = [ca EXCEPT ![c] = [b |-> b, k |-> k, todo |-> IF ks = <<>> THEN <<[b |-> b, i |-> -1, k |-> k]>>
                                                         ELSE [j \in 1 .. Len(ks) |-> [b |-> b, i |-> j - 1, k |-> ks[j]]]]]
  /\ left' = left - 1
  /\ UNCHANGED <<ex, asg, wait, cnt, xs>>

\* S = [ex, asg, wait]: where an item goes, 0 if it has to wait
For(S, it) ==
  LET a == S.asg[it.k]
      R == {x \in DOMAIN S.ex : S.ex[x].s = "ready"}
  IN IF a # 0 /\ S.ex[a].s = "ready" THEN a
     ELSE IF a # 0 /\ Bug # "split" THEN 0
     ELSE IF R = {} THEN 0 ELSE MinS(R)
PutIn(S, it, x) ==
  LET q == Append(S.ex[x].q, it)
      full == Len(q) = Max
  IN [S EXCEPT !.asg[it.k] = x, !.ex[x] = [@ EXCEPT !.q = q, !.s = IF full THEN "begun" ELSE @, !.timer = ~full /\ Bug # "notimer"]]
Add(S, it) == IF For(S, it) # 0 THEN PutIn(S, it, For(S, it)) ELSE [S EXCEPT !.wait = Append(@, it)]
Now == [ex |-> ex, asg |-> asg, wait |-> wait]
Set(S) == ex' = S.ex /\ asg' = S.asg /\ wait' = S.wait

Item(c) ==
  LET w == ca[c] IN
  /\ w.todo # <<>>
  /\ Set(Add(Now, Head(w.todo)))
  /\ IF Len(w.todo) = 1
     THEN ca' = [ca EXCEPT ![c] = NoCall] /\ Emit(<<[ev |-> "addret", id |-> w.b, done |-> 0, t |-> 0]>>)
     ELSE ca' = [ca EXCEPT ![c].todo = Tail(@)] /\ UNCHANGED <<st, bad>>
  /\ UNCHANGED <<left, cnt, xs>>
Timer(x) ==
  /\ ex[x].timer /\ ex[x].s = "ready"
  /\ ex' = [ex EXCEPT ![x].s = "begun", ![x].timer = FALSE]
  /\ UNCHANGED <<st, bad, ca, left, asg, wait, cnt, xs>>
\* the items are executed, if there are any
Run(x) ==
  LET r == Real(ex[x].q) IN
  /\ ex[x].s = "begun"
  /\ IF r = <<>> THEN ex' = [ex EXCEPT ![x].s = "done"] /\ UNCHANGED <<st, bad, xs>>
     ELSE /\ ex' = [ex EXCEPT ![x].s = "run", ![x].x = xs + 1]
          /\ xs' = xs + 1
          /\ Emit(<<[ev |-> "exec", x |-> xs + 1, items |-> [j \in 1 .. Len(r) |-> <<r[j].b, r[j].i, r[j].k>>], t |-> 0]>>)
  /\ UNCHANGED <<ca, left, asg, wait, cnt>>
Ran(x) ==
  /\ ex[x].s = "run"
  /\ Emit(<<[ev |-> "execd", x |-> ex[x].x, t |-> 0]>>)
  /\ ex' = [ex EXCEPT ![x].s = "done"]
  /\ UNCHANGED <<ca, left, asg, wait, cnt, xs>>

\* its items are counted, and batches whose last item this was are completed
Compl(b) == LET m == st.bs[b].n IN
  <<[ev |-> "handed", id |-> b, t |-> 0], [ev |-> "cb", id |-> b, ok |-> 1, items |-> [j \in 1 .. m |-> j - 1], t |-> 0],
    [ev |-> "state", id |-> b, done |-> 1, t |-> 0]>>
RECURSIVE Ends(_, _)
Ends(q, n) ==   \* n: the items of the batches which were done before
  IF q = <<>> THEN <<>>
  ELSE LET it == Head(q)
           m == n[it.b] + 1
           last == it.i < 0 \/ m = (IF Bug = "count" THEN 1 ELSE st.bs[it.b].n)
       IN (IF last THEN Compl(it.b) ELSE <<>>) \o Ends(Tail(q), [n EXCEPT ![it.b] = m])
Count(q, n) == [b \in DOMAIN n |-> n[b] + Cardinality({j \in DOMAIN q : q[j].b = b})]
Complete(x) ==
  /\ ex[x].s = "done"
  /\ Emit(Ends(IF Bug = "reals" THEN Real(ex[x].q) \o SelectSeq(ex[x].q, LAMBDA it : it.i < 0) ELSE ex[x].q, cnt))
  /\ cnt' = Count(ex[x].q, cnt)
  /\ ex' = [ex EXCEPT ![x].s = "reset"]
  /\ UNCHANGED <<ca, left, asg, wait, xs>>

\* the executor is ready again, and items which have waited are added, as long as there is an executor
Busy(S) == \A x \in DOMAIN S.ex : S.ex[x].s # "ready"
RECURSIVE Flush(_, _)
Flush(S, q) ==
  IF q = <<>> THEN S
  ELSE IF Busy(S) THEN [S EXCEPT !.wait = @ \o q]
  ELSE Flush(Add(S, Head(q)), Tail(q))
Reset(x) ==
  LET S == [ex |-> [ex EXCEPT ![x] = NoExec],
            asg |-> [k \in DOMAIN asg |-> IF \E j \in DOMAIN ex[x].q : ex[x].q[j].k = k THEN 0 ELSE asg[k]],
            wait |-> <<>>]
  IN /\ ex[x].s = "reset"
     /\ Set(IF Bug = "flush" THEN [S EXCEPT !.wait = wait] ELSE Flush(S, wait))
     /\ UNCHANGED <<st, bad, ca, left, cnt, xs>>

Quiet ==
  /\ left = 0 /\ \A c \in DOMAIN ca : ca[c] = NoCall
  /\ wait = <<>> /\ \A x \in DOMAIN ex : ex[x].s = "ready" /\ ex[x].q = <<>>
  /\ Emit(<<[ev |-> "quiet", t |-> 0]>>)
  /\ UNCHANGED <<ca, left, ex, asg, wait, cnt, xs>>

Next ==
  \/ \E c \in DOMAIN ca : Item(c) \/ \E k \in 1 .. Keys : \E ks \in Ks : Call(c, k, ks)
  \/ \E x \in DOMAIN ex : Timer(x) \/ Run(x) \/ Ran(x) \/ Complete(x) \/ Reset(x)
  \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoGuardBroken == bad = {}
=============================================================================
