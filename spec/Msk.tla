----------------------------------- MODULE Msk -----------------------------------
(* The configuration of an MSK cluster and the connections made with it (C23).                                       *)
EXTENDS Util
\* on: there has been a reply of MSK with the brokers of this cluster; built: options have been returned
\* bad: what went wrong so far, in order; call: call of Config -> how much had gone wrong when it started
\* cur: the credentials of the session; fail: what the provider answers instead; dialled: of the current round
NewState(cfg) == [cfg |-> cfg, on |-> FALSE, built |-> FALSE, bad |-> <<>>, call |-> None, cur |-> [n |-> 0, key |-> cfg.key, token |-> cfg.token],
                  fail |-> "", dialled |-> {}]
Kinds == <<"", "Tls", "SaslScram", "SaslIam", "PublicTls", "PublicSaslScram", "PublicSaslIam">>
Kind(st) == IF st.cfg.auth + 1 \in DOMAIN Kinds THEN Kinds[st.cfg.auth + 1] ELSE ""
Mech(st) == CASE Kind(st) \in {"SaslScram", "PublicSaslScram"} -> "SCRAM-SHA-512" [] Kind(st) \in {"SaslIam", "PublicSaslIam"} -> "AWS_MSK_IAM" [] OTHER -> ""
Named(st) == {i \in DOMAIN st.cfg.clusters : st.cfg.clusters[i].name = st.cfg.name}
Arn(st) == IF Named(st) = {} THEN "" ELSE st.cfg.clusters[MinS(Named(st))].arn
Reported(st) == UNION {Rng(st.cfg.brokers[i].addrs) : i \in {j \in DOMAIN st.cfg.brokers : st.cfg.brokers[j].kind = Kind(st)}}
Expected(st) == IF st.cfg.over # "" THEN {st.cfg.over} ELSE Reported(st)
Possible(st) == Arn(st) # "" /\ Reported(st) # {}
Since(st, id) == {st.bad[i] : i \in (st.call[id] + 1)..Len(st.bad)} \cup (IF st.fail = "" THEN {} ELSE {st.fail})
Iam(st) == Mech(st) = "AWS_MSK_IAM"
P == {"C23"}
Guards(st, e, l) ==
  CASE e.ev \in {"list", "boot"} ->
         { <<P, "AWS is called with other credentials than those of the session", e.key = st.cur.key /\ e.token = st.cur.token>>,
           <<P, "AWS is called in another region", e.region = st.cfg.region>> }
         \cup (IF e.ev = "boot" THEN { <<P, "the brokers of another cluster are asked for", e.arn = Arn(st) /\ e.arn # "">> } ELSE {})
    [] e.ev = "configured" ->
         IF e.ok = 1 THEN { <<P, "options are returned without knowing the brokers", st.on /\ Possible(st)>> }
         ELSE { <<P, "no options are returned although nothing has failed", Since(st, e.id) # {} \/ ~Possible(st)>>,
                <<P, "the error of an AWS call is not returned", (Possible(st) /\ Since(st, e.id) # {}) => Rng(e.msgs) \cap Since(st, e.id) # {}>> }
    [] e.ev = "noclient" -> { <<P, "the options cannot be used", FALSE>> }
    [] e.ev = "tlsfail" -> { <<P, "another TLS configuration is used than the given one", FALSE>> }
    [] e.ev = "conn" ->
         { <<P, "another address is dialled than reported", e.addr \in Expected(st)>>,
           <<P, "TLS is not used as configured", e.tls = st.cfg.tls>>,
           <<P, "the client certificate is not the configured one", e.tls = 1 => e.cert = st.cfg.cert>>,
           <<P, "another SASL mechanism is used than required", e.mech = Mech(st)>>,
           <<P, "the user is not authenticated with the given password", Mech(st) = "SCRAM-SHA-512" => e.user = st.cfg.user /\ e.pass = 1>>,
           <<P, "other credentials are presented than the session's current ones",
             Iam(st) /\ e.mech = "AWS_MSK_IAM" => st.fail = "" /\ e.key = st.cur.key /\ e.token = st.cur.token /\ e.secret = st.cur.n /\ e.fresh = 1>>,
           <<P, "the options given are not applied", st.cfg.client # "client-0" => e.client = st.cfg.client>> }
    [] e.ev = "rounded" ->
         IF Iam(st) /\ st.fail # "" THEN { <<P, "a connection is made without credentials", e.ok = 0>>,
                                           <<P, "the error of the credentials provider is not returned", st.fail \in Rng(e.msgs)>> }
         ELSE { <<P, "not all of the reported brokers are dialled", st.dialled = Expected(st)>>,
                <<P, "a connection fails", e.ok = e.n /\ e.n = Cardinality(Expected(st))>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev \in {"list", "boot"} ->
         IF e.err # "" THEN [st EXCEPT !.bad = Append(@, e.msg)]
         ELSE IF e.ev = "boot" /\ e.arn = Arn(st) /\ Kind(st) \in Rng(e.kinds) THEN [st EXCEPT !.on = TRUE] ELSE st
    [] e.ev = "config" -> [st EXCEPT !.call = Put(@, e.id, Len(st.bad))]
    [] e.ev = "configured" -> [st EXCEPT !.call = Del(@, e.id), !.built = @ \/ e.ok = 1]
    [] e.ev = "rotate" -> [st EXCEPT !.cur = [n |-> e.n, key |-> e.key, token |-> e.token]]
    [] e.ev = "credfail" -> [st EXCEPT !.fail = e.msg]
    [] e.ev = "credok" -> [st EXCEPT !.fail = ""]
    [] e.ev = "round" -> [st EXCEPT !.dialled = {}]
    [] e.ev = "conn" -> [st EXCEPT !.dialled = @ \cup {e.addr}]
    [] OTHER -> st
================================================================================
