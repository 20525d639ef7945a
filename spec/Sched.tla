--------------------------------- MODULE Sched ---------------------------------
(* What can be observed of an AsyncJobScheduler, and what it guarantees (C09).     *)
EXTENDS Util

NewState(cfg) ==
  [cfg |-> cfg,
   jobs |-> None,      \* id -> [k, e, s, bef]    s: called, ret, run, ran, handed, fin
   open |-> {},        \* calls of Schedule which have not returned
   lim |-> Max2(cfg.conc, cfg.max),   \* how many keys may be in progress
   new |-> 0,          \* a lower limit which takes effect as soon as the keys in progress allow it
   ft |-> 0,           \* when the last event was completed
   halt |-> FALSE]

J(st, id) == st.jobs[id]
Known(st, id) == id \in DOMAIN st.jobs
In(st, S) == {id \in DOMAIN st.jobs : st.jobs[id].s \in S}
Running(st) == In(st, {"run"})
Started == {"run", "ran", "handed", "fin"}
Progress(st) == {st.jobs[id].k : id \in In(st, {"ret", "run", "ran"})}
\* all jobs scheduled before job id with its key have got beyond the given states
InOrder(st, id, S) == st.halt \/ \A b \in st.jobs[id].bef : st.jobs[b].s \in S

Guards(st, e, l) ==
  CASE e.ev = "run" ->
         { <<{"C09"}, "something runs that was not scheduled, or runs twice",
             Known(st, e.id) /\ J(st, e.id).s \in {"called", "ret"} /\ J(st, e.id).k = e.k>>,
           <<{"C09"}, "two jobs of one key run at the same time", \A r \in Running(st) : J(st, r).k # e.k>>,
           <<{"C09"}, "jobs of one key run in another order than they were scheduled",
             Known(st, e.id) => InOrder(st, e.id, {"ran", "handed", "fin"})>>,
           <<{"C09"}, "more jobs run at once than Concurrency", Cardinality(Running(st)) < st.cfg.conc>> }
    [] e.ev = "handed" ->
         { <<{"C09"}, "an event is completed whose job did not run, or twice", Known(st, e.id) /\ J(st, e.id).s = "ran">>,
           <<{"C09"}, "the events of one key are completed in another order", Known(st, e.id) => InOrder(st, e.id, {"handed", "fin"})>> }
    [] e.ev = "fin" ->
         { <<{"C09"}, "the finalizer runs before the job, or twice", Known(st, e.id) /\ J(st, e.id).s = "handed">>,
           <<{"C09"}, "the finalizer gets another event, key, value or error",
             Known(st, e.id) => e.ec = e.id /\ e.k = J(st, e.id).k /\ e.err = J(st, e.id).e>> }
    [] e.ev = "state" ->
         { <<{"C09"}, "an event is completed without its finalizer",
             Known(st, e.id) /\ (IF st.cfg.final = 1 THEN J(st, e.id).s = "fin" ELSE J(st, e.id).s = "handed" /\ e.done = 1)>> }
    [] e.ev = "schedret" ->
         { <<{"C09"}, "Schedule reports Complete", e.done = 0>>,
           <<{"C09"}, "more keys are in progress than MaxConcurrentKeys",
             ~st.halt /\ Known(st, e.id) =>
               Cardinality(Progress(st) \cup (IF J(st, e.id).s = "called" THEN {J(st, e.id).k} ELSE {})) <= st.lim>> }
    [] e.ev = "refused" -> { <<{"C09"}, "a valid configuration is refused", st.cfg.conc < 1 \/ st.cfg.depth < 0>> }
    [] e.ev = "created" -> { <<{"C09"}, "an invalid configuration is accepted", st.cfg.conc >= 1 /\ st.cfg.depth >= 0>> }
    [] e.ev = "quiet" ->
         { <<{"C09"}, "a job was never run or completed", st.halt \/ \A id \in DOMAIN st.jobs : J(st, id).s \in {"handed", "fin"}>>,
           <<{"C09"}, "a job that ran was never completed", \A id \in DOMAIN st.jobs : J(st, id).s \notin {"run", "ran"}>>,
           <<{"C09"}, "a finalizer was never run", st.cfg.final = 1 => \A id \in DOMAIN st.jobs : J(st, id).s # "handed">>,
           <<{"C09"}, "a caller of Schedule is blocked forever", st.open = {}>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}

\* A lower limit holds as soon as no more keys are in use and no call is under way. A key is in use until the event of its
\* last job has been completed; as time passes only when everything is at rest, the key has been released by then.
Used(st) == {st.jobs[id].k : id \in In(st, {"ret", "run", "ran", "handed"})}
Settle(st, e) == IF st.new > 0 /\ st.open = {} /\ e.t > st.ft /\ Cardinality(Used(st)) <= st.new
                 THEN [st EXCEPT !.lim = st.new, !.new = 0] ELSE st
To(st, id, s) == IF Known(st, id) THEN [st EXCEPT !.jobs[id].s = s] ELSE st

Apply(st, e, l) ==
  CASE e.ev = "sched" ->
         [Settle(st, e) EXCEPT !.jobs = Put(@, e.id, [k |-> e.k, e |-> e.e, s |-> "called",
                                           bef |-> {i \in DOMAIN st.jobs : st.jobs[i].k = e.k /\ i \notin st.open}]),
                    !.open = @ \cup {e.id}]
    [] e.ev = "schedret" ->
         LET s1 == [st EXCEPT !.open = @ \ {e.id}] IN
         IF Known(st, e.id) /\ J(st, e.id).s = "called" THEN To(s1, e.id, "ret") ELSE s1
    [] e.ev = "run" -> To(st, e.id, "run")
    [] e.ev = "ran" -> To(st, e.id, "ran")
    [] e.ev = "handed" -> To(st, e.id, "handed")
    [] e.ev = "fin" -> [To(st, e.id, "fin") EXCEPT !.ft = e.t]
    [] e.ev = "state" -> [To(st, e.id, "fin") EXCEPT !.ft = e.t]
    [] e.ev = "max" -> [st EXCEPT !.lim = Max2(st.lim, e.n)]
    [] e.ev = "maxed" -> [st EXCEPT !.new = IF e.n < st.lim THEN e.n ELSE 0]
    [] e.ev = "halt" -> [st EXCEPT !.halt = TRUE]
    [] OTHER -> st
================================================================================
