------------------------------- MODULE Producer --------------------------------
(* Producer and BatchProducer (C11).                                                  *)
EXTENDS Util
NewState(cfg) == [cfg |-> cfg, sent |-> None, at |-> None, done |-> {}, bat |-> None, handed |-> {}, cbd |-> {}, fin |-> {}, closed |-> FALSE, cancel |-> FALSE, last |-> None]
   \* sent: id -> what was asked for; at: id -> number of copies in the logs, where; bat: batch -> its ids
   \* cancel: a context ends early (which takes the records of the same request with it)
   \* last: <<batch, topic, partition>> -> the batch's last record there
Topic(st, r) == IF r.topic = "" THEN st.cfg.default ELSE r.topic
Known(st, r) == Topic(st, r) \in DOMAIN st.cfg.n /\ (r.p = -1 \/ r.p < st.cfg.n[Topic(st, r)])
\* nothing stands in the way of this record
Fine(st, r) == Known(st, r) /\ st.cfg.faults = 0 /\ ~st.cancel /\ r.size < 900000 /\ (~st.closed \/ r.via = "batch")
InLog(st, id) == id \in DOMAIN st.at
Guards(st, e, l) ==
  CASE e.ev = "app" ->
         IF e.id \notin DOMAIN st.sent THEN { <<{"C11"}, "a record nobody sent is in the log", FALSE>> }
         ELSE LET r == st.sent[e.id] IN
         { <<{"C11"}, "a record is in another topic's log", e.topic = Topic(st, r)>>,
           <<{"C11"}, "a record is in another partition's log", r.p = -1 \/ e.p = r.p>>,
           <<{"C11"}, "a record is in the log twice", st.cfg.faults = 0 => ~InLog(st, e.id)>>,
           <<{"C11"}, "a record of a batch overtakes another", r.b # 0 => Get(st.last, <<r.b, e.topic, e.p>>, 0) < e.id \/ InLog(st, e.id)>> }
    [] e.ev = "done" ->
         LET r == st.sent[e.id] IN
         { <<{"C11"}, "the completion of a record is reported twice", e.id \notin st.done>>,
           <<{"C11"}, "a record is reported as produced and is not in the log",
             e.err = "" => InLog(st, e.id) /\ <<e.topic, e.p, e.o>> \in st.at[e.id]>>,
           <<{"C11"}, "an error is reported for no reason", e.err # "" => ~Fine(st, r)>>,
           <<{"C11"}, "another record is reported", e.same = 1>> }
    [] e.ev = "bcb" ->
         { <<{"C11"}, "the callback of a batch runs twice", e.b \notin st.cbd>>,
           <<{"C11"}, "the callback of a batch gets other records or data",
             e.ids = st.bat[e.b].ids /\ e.ud = e.b /\ e.same = 1>>,
           <<{"C11"}, "a record is reported as produced and is not in the log", \A i \in DOMAIN e.ids : e.errs[i] = "" => InLog(st, e.ids[i])>>,
           <<{"C11"}, "an error is reported for no reason", \A i \in DOMAIN e.ids : e.errs[i] # "" => ~Fine(st, st.sent[e.ids[i]])>>,
           <<{"C11"}, "a callback runs outside the event's context", e.b \in st.handed>> }
    [] e.ev = "handed" ->
         { <<{"C11"}, "an event is completed twice", e.b \notin st.handed>>,
           <<{"C11"}, "an event is completed before all its records are",
             \A id \in Rng(st.bat[e.b].ids) : Fine(st, st.sent[id]) => InLog(st, id)>> }
    [] e.ev = "fin" -> { <<{"C11"}, "a batch is finished without its callback", st.bat[e.b].cb = 1 => e.b \in st.cbd>>,
                         <<{"C11"}, "an event without a callback is not completed", st.bat[e.b].cb = 0 => e.st = 1>>,
                         <<{"C11"}, "what the callback answers is not what becomes of the event", st.bat[e.b].cb = 1 => e.st = 1 - st.bat[e.b].inc>> }
    [] e.ev = "bret" -> { <<{"C11"}, "an event is complete before its records are produced", e.st = 0>> }
    [] e.ev = "quiet" ->
         { <<{"C11"}, "the completion of a record is never reported", \A id \in DOMAIN st.sent : st.sent[id].via \in {"sync", "async"} => id \in st.done>>,
           <<{"C11"}, "a record is not produced", \A id \in DOMAIN st.sent : Fine(st, st.sent[id]) => InLog(st, id) >>,
           <<{"C11"}, "an event is never completed", \A b \in DOMAIN st.bat : b \in st.fin>>,
           <<{"C11"}, "the callback of a batch never runs", \A b \in DOMAIN st.bat : st.bat[b].cb = 1 => b \in st.cbd>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "send" -> [st EXCEPT !.sent = Put(@, e.id, e), !.cancel = @ \/ e.cancel # 0]
    [] e.ev = "app" -> LET r == st.sent[e.id] k == <<r.b, e.topic, e.p>> IN
         [st EXCEPT !.at = Put(@, e.id, Get(@, e.id, {}) \cup {<<e.topic, e.p, e.o>>}),
                    !.last = IF r.b = 0 THEN @ ELSE Put(@, k, Max2(Get(@, k, 0), e.id))]
    [] e.ev = "done" -> [st EXCEPT !.done = @ \cup {e.id}]
    [] e.ev = "bsend" -> [st EXCEPT !.bat = Put(@, e.b, e)]
    [] e.ev = "handed" -> [st EXCEPT !.handed = @ \cup {e.b}]
    [] e.ev = "bcb" -> [st EXCEPT !.cbd = @ \cup {e.b}]
    [] e.ev = "fin" -> [st EXCEPT !.fin = @ \cup {e.b}]
    [] e.ev = "close" -> [st EXCEPT !.closed = TRUE]
    [] OTHER -> st
================================================================================
