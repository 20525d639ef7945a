--------------------------------- MODULE Topics ---------------------------------
(* Topics are provisioned as configured (C18); invalid EosConfigs are refused (C08).      *)
EXTENDS Util
\* pre, post: what there was and is, <<cluster, name>> -> description; race: what somebody else created in between
\* bad: brokers answered with errors; fly: connections broke
NewState(cfg) == [cfg |-> cfg, pre |-> None, post |-> None, race |-> None, call |-> None, bad |-> {}, mbad |-> 0, fly |-> 0]
D(x) == [n |-> x.n, rf |-> x.rf, min |-> x.min, cp |-> x.cp]
ToMap(l) == [k \in {<<l[i].c, l[i].topic>> : i \in DOMAIN l} |-> LET i == CHOOSE j \in DOMAIN l : <<l[j].c, l[j].topic>> = k IN D(l[i])]
StateC(st) == IF st.cfg.split = 1 THEN "state" ELSE "src"
Src(st) == <<"src", st.call.topic>>
Clog(st) == <<StateC(st), "gkes_commit_log_" \o st.call.group>>
Chg(st) == <<StateC(st), IF st.call.store # "" THEN st.call.store ELSE "gkes_change_log_" \o st.call.topic \o "_" \o st.call.group>>
Was(st) == st.race @@ st.pre
Has(st, k) == k \in DOMAIN Was(st)
New(st) == DOMAIN st.post \ DOMAIN Was(st)
RF(st) == IF st.call.rf <= 0 THEN 1 ELSE st.call.rf
\* the replication factors a new topic may have: as configured, or that of the source topic which is there already
RFs(st) == {RF(st)} \cup (IF Has(st, Src(st)) THEN {Was(st)[Src(st)].rf} ELSE {})
Mins == [x \in {ToString(i) : i \in 0..20} |-> CHOOSE i \in 0..20 : ToString(i) = x]
MinOk(st, d) ==
  /\ d.min \in DOMAIN Mins
  /\ Mins[d.min] \in 1..d.rf
  /\ st.call.min \in 1..(d.rf - 1) => Mins[d.min] = st.call.min
  /\ st.call.min <= 0 => Mins[d.min] = 1
Compact(d) == d.cp = "compact"
Missing(st) == st.call.group = "" \/ st.call.topic = "" \/ st.call.nocluster = 1
\* nothing is wrong with this call
Fine(st) ==
  /\ ~Missing(st) /\ st.bad = {} /\ st.mbad = 0 /\ st.fly <= 2
  /\ Has(st, Src(st)) \/ st.call.n > 0
  /\ \A k \in {Src(st), Clog(st), Chg(st)} : Has(st, k) \/ \A r \in RFs(st) : r <= st.cfg.brokers
  /\ Has(st, Chg(st)) => Was(st)[Chg(st)].n = (IF Has(st, Src(st)) THEN Was(st)[Src(st)].n ELSE st.call.n)
  /\ Cardinality({Src(st), Clog(st), Chg(st)}) = 3
Kept(st) == <<{"C18"}, "an existing topic is changed", \A k \in DOMAIN Was(st) : k \in DOMAIN st.post /\ st.post[k] = Was(st)[k]>>
ValidEos(c) == c.pool >= 1 /\ c.pending >= 1 /\ c.target >= 1 /\ c.max >= c.target /\ c.delay >= 1000
ZeroEos(c) == c.pool = 0 /\ c.pending = 0 /\ c.target = 0 /\ c.max = 0 /\ c.delay = 0
Guards(st, e, l) ==
  CASE e.ev = "ret" /\ e.op = "source" ->
         { Kept(st),
           <<{"C18"}, "a missing setting is not reported", Missing(st) => e.err # "">>,
           <<{"C18"}, "a broker's error is not reported", st.bad # {} => e.err # "">>,
           <<{"C18"}, "a source cannot be created for no reason", Fine(st) => e.err = "">>,
           <<{"C18"}, "a topic is created that nobody asked for", New(st) \subseteq {Src(st), Clog(st), Chg(st)}>> }
         \cup (IF e.err # "" THEN {} ELSE
         { <<{"C18"}, "a topic is missing", {Src(st), Clog(st), Chg(st)} \subseteq DOMAIN st.post>>,
           <<{"C18"}, "the source's partition count is not the topic's", st.post[Src(st)].n = e.n>>,
           <<{"C18"}, "the source's commit log partition count is not the topic's",
             st.post[Clog(st)].n = (IF e.commit <= 0 THEN 5 ELSE e.commit)>>,
           <<{"C18"}, "a mismatch between source and change log is not reported", st.post[Chg(st)].n = st.post[Src(st)].n>>,
           <<{"C18"}, "the source's logs are named differently", e.clog = Clog(st)[2] /\ e.chg = Chg(st)[2]>> })
         \cup { <<{"C18"}, "a topic is created with other settings",
                  LET d == st.post[k] IN
                  /\ d.rf \in RFs(st) /\ MinOk(st, d)
                  /\ k = Src(st) => (st.call.n > 0 => d.n = st.call.n) /\ ~Compact(d)
                  /\ k = Clog(st) => d.n = (IF st.call.commit <= 0 THEN 5 ELSE st.call.commit) /\ Compact(d)
                  /\ k = Chg(st) => Compact(d) /\ (Src(st) \in DOMAIN st.post => d.n = st.post[Src(st)].n)>> : k \in New(st) \cap {Src(st), Clog(st), Chg(st)} }
    [] e.ev = "ret" /\ e.op = "dest" ->
         LET k == Src(st) d == st.post[k] IN
         { Kept(st),
           <<{"C18"}, "a topic is created that nobody asked for", New(st) \subseteq {k}>>,
           <<{"C18"}, "a broker's error is not reported", st.bad # {} => e.err # "">>,
           <<{"C18"}, "a missing setting is not reported", st.call.topic = "" => e.err # "">>,
           <<{"C18"}, "a destination cannot be created for no reason",
             st.bad = {} /\ st.fly <= 2 /\ st.call.topic # "" /\ st.call.rf <= st.cfg.brokers => e.err = "">>,
           <<{"C18"}, "a topic is missing", e.err = "" => k \in DOMAIN st.post /\ e.chg = st.call.topic>>,
           <<{"C18"}, "a topic is created with other settings",
             k \in New(st) => /\ st.call.n > 0 => d.n = st.call.n
                              /\ st.call.rf > 0 => d.rf = st.call.rf
                              /\ st.call.min > 0 => d.min = ToString(st.call.min)
                              /\ ~Compact(d)>> }
    [] e.ev = "ret" /\ e.op = "eoscfg" ->
         { <<{"C08"}, "an invalid configuration is accepted", ValidEos(st.call) \/ ZeroEos(st.call) \/ e.panic = 1 \/ e.err # "">>,
           <<{"C08", "C18"}, "a valid configuration is refused", ValidEos(st.call) \/ ZeroEos(st.call) => e.panic = 0 /\ e.err = "">> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "topics" /\ e.when = "before" -> [st EXCEPT !.pre = ToMap(e.list), !.race = None, !.bad = {}, !.mbad = 0, !.fly = 0]
    [] e.ev = "topics" -> [st EXCEPT !.post = ToMap(e.list)]
    [] e.ev = "race" -> [st EXCEPT !.race = Put(@, <<e.x.c, e.x.topic>>, D(e.x))]
    [] e.ev = "call" -> [st EXCEPT !.call = e]
    [] e.ev = "mistreat" -> IF e.err = 0 THEN [st EXCEPT !.fly = @ + 1]
                            ELSE IF e.api = "CreateTopics" THEN [st EXCEPT !.bad = @ \cup {e.err}] ELSE [st EXCEPT !.mbad = @ + 1]
    [] OTHER -> st
================================================================================
