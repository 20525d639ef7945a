---------------------------------- MODULE Eos ----------------------------------
(***************************************************************************)
(* The observable behaviour of a set of EventSources (a consumer group)    *)
(* working against a Kafka cluster, and the guarantees it has to keep.     *)
(*                                                                         *)
(* st is the abstract state of the whole system: the source partitions,    *)
(* the transaction log, the progress and the committed change log per      *)
(* partition, and per member and partition the life cycle of the           *)
(* assignment with the state store as the event processors see it.         *)
(* A transition is labelled with an observable event e (a record).         *)
(* Guards(st,e,l) are the conditions under which the transition is         *)
(* allowed, each attributed to the properties it belongs to;               *)
(* Apply(st,e,l) is its effect; l is the position of e in the history.     *)
(*                                                                         *)
(* EosTrace checks histories recorded from the real code against this;     *)
(* EosPipeline (a model of the mechanism) is checked exhaustively for      *)
(* producing only histories which are allowed here.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Rng(s) == {s[i] : i \in DOMAIN s}
None == <<>>

---------------------------------------------------------------------------
(* State *)

NewState(cfg) ==
  LET P == 0 .. cfg.parts - 1 IN
  [cfg  |-> cfg,
   ins  |-> [p \in P |-> None],     \* offset -> [ty, l, t] of the records of a source partition
   prog |-> [p \in P |-> 0],        \* committed progress: next offset to process
   cmt  |-> [p \in P |-> None],     \* committed change log: key -> [o, v], the latest by offset
   vals |-> [p \in P |-> {}],       \* all values committed so far
   hs   |-> None,                   \* processing attempts (handles)
   att  |-> None,                   \* <<m,p>> -> (offset -> set of handles)
   own  |-> None,                   \* <<m,p>> -> life cycle of the assignment
   tx   |-> None,                   \* transactions
   ord  |-> None,                   \* <<c,dp,p>> -> forwarded records that are in the log, see C03
   mem  |-> None,                   \* members: live, dead, done
   fail |-> {},                     \* members that were told to fail
   ft   |-> None,                   \* ... and when
   lost |-> {},                     \* members that were told to go on in spite of an error (which may lose data)
   two  |-> {},                     \* members whose Done() woke up a second waiter
   chd  |-> {},                     \* members whose WaitForChannel returned
   lv   |-> None,                   \* members which leave gracefully -> the members which could take their partitions
   goff |-> None,                   \* group offsets of the source topic
   grec |-> {},                     \* partitions with a group offset
   ijc  |-> None,                   \* one-off interjections: id -> [m, p, ret, runs]
   sched|-> None,                   \* <<m,p,id>> -> last run of a scheduled interjection
   dsr  |-> {},                     \* inputs whose decoding failed and was reported: <<m,p,o,l>>
   met  |-> None,                   \* member -> committed transactions not yet reported as metric
   plan |-> None]

NoOwn == [s |-> "none", last |-> -1, run |-> 0, cur |-> None, srev |-> 0, n |-> 0, t |-> 0, lost |-> FALSE, cb |-> ""]
InCb(st, cb) == IF st.cfg.cb = 1 THEN cb ELSE ""   \* whether the end of a callback is observed
Own(st, m, p) == Get(st.own, <<m, p>>, NoOwn)
Alive(st, m) == Get(st.mem, m, "none") = "live" /\ m \notin st.fail
\* the partitions on which an interjection can run now
Active(st, m) == IF st.cfg.cb = 1 THEN {} ELSE {p \in DOMAIN st.prog : Own(st, m, p).s = "active" /\ ~Own(st, m, p).lost}

Offs(st, p) == DOMAIN st.ins[p]
\* the next record at or after offset o, -1 if there is none
NextIn(st, p, o) == LET S == {x \in Offs(st, p) : x >= o} IN IF S = {} THEN -1 ELSE MinS(S)
\* records nobody reports about: decoding fails and the default handler drops them
Silent(st, p, o) == st.ins[p][o].ty = "badA" /\ st.cfg.deser = ""
NextHeard(st, p, o) ==
  LET S == {x \in Offs(st, p) : x >= o /\ ~Silent(st, p, x)} IN IF S = {} THEN -1 ELSE MinS(S)

Kind(ty) == IF ty \in {"A", "B"} THEN ty ELSE "def"

\* st.cur/cmt as the sequence the handlers log: value of each key, 0 for absent
Restored(st, p) == [k \in 1 .. st.cfg.keys |-> IF (k - 1) \in DOMAIN st.cmt[p] THEN st.cmt[p][k - 1].v ELSE 0]

OpenOf(st, m) == {x \in DOMAIN st.tx : st.tx[x].m = m /\ st.tx[x].s = "open"}

---------------------------------------------------------------------------
(* Transactions at their end *)

Evs(st, x)  == {a \in Rng(st.tx[x].apps) : a.c \in {"out", "chg"}}
Cls(st, x)  == {a \in Rng(st.tx[x].apps) : a.c = "cl"}
NextOf(st, x) == [p \in {a.sp : a \in Cls(st, x)} |-> MaxS({a.next : a \in {b \in Cls(st, x) : b.sp = p}})]
\* the source records whose processing the transaction commits
Range(st, x, p) == LET n == NextOf(st, x)[p] IN {o \in Offs(st, p) : st.prog[p] <= o /\ o < n}
Atts(st, m, p, o) == Get(Get(st.att, <<m, p>>, None), o, {})
\* the records of a handle that are in x
InTx(st, x, h) == {a.i : a \in {b \in Evs(st, x) : b.h = h}}
Fwds(st, h) == DOMAIN st.hs[h].fw
Whole(st, x, h) == InTx(st, x, h) = Fwds(st, h)
Known(st, h) == h \in DOMAIN st.hs

EndGuards(st, e) ==
  LET x == e.x
      m == st.tx[x].m
      nx == NextOf(st, x)
      hids == {a.h : a \in Evs(st, x)}
  IN IF e.ok = 0 THEN {} ELSE
  { <<{"C01", "C02"}, "a committed record belongs to no processing attempt of this member",
      \A h \in hids : Known(st, h) /\ st.hs[h].m = m>>,
    <<{"C01", "C02"}, "a record is committed without the progress past its event",
      \A h \in hids : Known(st, h) /\ st.hs[h].kind = "ev" =>
         st.hs[h].p \in DOMAIN nx /\ st.hs[h].o \in Range(st, x, st.hs[h].p)>>,
    <<{"C01", "C02", "C05", "C07"}, "progress is committed past an event without all its records, or with two attempts",
      \A p \in DOMAIN nx : p \in DOMAIN st.prog /\ m \notin st.lost => \A o \in Range(st, x, p) : Silent(st, p, o) \/
         LET A == Atts(st, m, p, o) IN
         \E h \in A : Whole(st, x, h) /\ \A g \in A \ {h} : InTx(st, x, g) = {}>>,
    <<{"C01", "C04", "C05", "C07"}, "progress is committed past an event that is not complete",
      \A p \in DOMAIN nx : p \in DOMAIN st.prog => \A o \in Range(st, x, p) : Silent(st, p, o) \/
         \E h \in Atts(st, m, p, o) : st.hs[h].done /\ (m \in st.lost \/ Whole(st, x, h))>>,
    <<{"C01", "C04"}, "committed progress moves backwards",
      \A a \in Cls(st, x) : a.sp \in DOMAIN st.prog /\ a.next > st.prog[a.sp]>>,
    <<{"C02", "C04"}, "progress is committed past the end of the source partition",
      \A a \in Cls(st, x) : a.sp \in DOMAIN st.prog => Offs(st, a.sp) # {} /\ a.next <= MaxS(Offs(st, a.sp)) + 1>>,
    <<{"C02", "C14"}, "an interjection is committed in part or before it is finished",
      \A h \in hids : Known(st, h) /\ st.hs[h].kind = "ij" => Whole(st, x, h) /\ st.hs[h].done>>,
    <<{"C07", "C05"}, "a transaction is committed by a member after it failed",    \* e.rt: when the commit was asked for
      m \in DOMAIN st.ft => e.rt <= st.ft[m] + 100>>,
    <<{"C05"}, "a transaction is committed for a partition after it was given away",
      \A h \in hids : Known(st, h) /\ st.hs[h].kind = "ev" =>
         Own(st, m, st.hs[h].p).n = st.hs[h].n /\ Own(st, m, st.hs[h].p).s \in {"active", "revoking"}>>,
    <<{"C08"}, "a transaction holds more events than MaxBatchSize",
      LET E == {<<p, o>> \in (DOMAIN nx \cap DOMAIN st.prog) \X (UNION {Offs(st, q) : q \in DOMAIN st.prog}) : o \in Range(st, x, p)}
      IN Cardinality(E) <= st.cfg.max>>,
    <<{"C08"}, "an event was admitted to a transaction that already held MaxBatchSize records",
      \A p \in DOMAIN nx : p \in DOMAIN st.prog => \A o \in Range(st, x, p) :
         Cardinality({<<h, i>> \in {<<a.h, a.i>> : a \in Evs(st, x)} :
            Known(st, h) /\ i \in Fwds(st, h) /\ st.hs[h].fw[i].x > 0 /\ st.hs[h].fw[i].x < st.ins[p][o].t}) < st.cfg.max>>,
    <<{"C08"}, "an event was committed later than the batch delay allows",
      st.cfg.lat > 0 => \A p \in DOMAIN nx : p \in DOMAIN st.prog => \A o \in Range(st, x, p) :
         e.t - st.ins[p][o].t <= st.cfg.lat>> }

---------------------------------------------------------------------------
(* Order of forwarded records (C03) *)

OrdKey(e, p) == <<e.c, e.dp, p>>
\* A (handle h, record i) comes too late if a record B of the same partition that was forwarded after A is already
\* in the log, and B's event does not come before A's event.
InOrder(st, e) ==
  LET H == st.hs[e.h]
      f == H.fw[e.i].f
  IN \A B \in Get(st.ord, OrdKey(e, H.p), {}) :
       ~(B.f > f /\ B.m = H.m /\ B.n = H.n /\
         (\/ H.kind = "ev" /\ st.hs[B.h].kind = "ev" /\ st.hs[B.h].o >= H.o
          \/ B.h = e.h))

---------------------------------------------------------------------------
(* Metrics: records, bytes and partitions of a transaction. An interjection which forwarded nothing leaves no trace in the
   log, but its partition may be counted. *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q).sz + Sum(Tail(q))
Mute(st, m) == {st.hs[h].p : h \in {g \in DOMAIN st.hs : st.hs[g].m = m /\ st.hs[g].kind = "ij" /\ st.hs[g].fw = None}}
Reports(st, T, e) ==
  /\ T.n = e.n
  /\ T.bytes = e.bytes
  /\ Cardinality(T.ps) <= e.pc
  /\ e.pc <= Cardinality(T.ps \cup Mute(st, T.m))

---------------------------------------------------------------------------
(* Guards *)

AppGuards(st, e) ==
  { <<{"C02"}, "a record is appended outside of a transaction", e.x # 0>>,
    <<{"C05", "C17"}, "a record is appended to the log by a member that is done", Get(st.mem, e.tag, "none") # "done">> }
  \cup (IF e.c = "cl"
        THEN {<<{"C04"}, "a progress record names no partition of the source", e.sp \in DOMAIN st.prog>>}
        ELSE { <<{"C01", "C02"}, "a record is appended which no event forwarded",
                 Known(st, e.h) /\ e.i \in Fwds(st, e.h) /\ st.hs[e.h].fw[e.i].c = e.c>>,
               <<{"C03"}, "records of one source partition are appended in another order than they were forwarded",
                 Known(st, e.h) /\ e.i \in Fwds(st, e.h) => InOrder(st, e)>>,
               <<{"C01", "C02", "C03", "C06", "C19"}, "a record is appended to the wrong partition or with the wrong content",
                 Known(st, e.h) /\ e.i \in Fwds(st, e.h) =>
                    LET f == st.hs[e.h].fw[e.i] IN (f.dp < 0 \/ f.dp = e.dp) /\ (e.c = "chg" => f.k = e.kk /\ f.v = e.v)>> })

\* user code of a partition may run only while it is owned, by one member, one piece at a time
UserGuards(st, e) ==
  LET w == Own(st, e.m, e.p) IN
  { <<{"C05", "C06", "C14", "C15", "C17"}, "user code runs outside of activated .. revoked", w.s \in {"active", "revoking"}>>,
    <<{"C07", "C16"}, "an event or interjection starts after its consumer failed", e.m \in DOMAIN st.ft => e.t <= st.ft[e.m]>>,
    <<{"C17"}, "user code runs after Done()", Get(st.mem, e.m, "none") # "done">>,
    <<{"C15"}, "two pieces of user code of one partition overlap", w.run = 0>>,
    <<{"C05", "C15"}, "two members process one partition",
      \A mp \in DOMAIN st.own : mp[2] = e.p /\ mp[1] # e.m /\ Alive(st, mp[1]) /\ ~st.own[mp].lost =>
         st.own[mp].s \notin {"active", "revoking"}>> }

StartGuards(st, e) ==   \* an event (handled, or reported as undecodable) starts
  LET w == Own(st, e.m, e.p) IN
  { <<{"C01", "C05", "C07"}, "the first event after a takeover is not the first uncommitted one",
      w.s # "none" /\ w.last < 0 => e.o = NextHeard(st, e.p, st.prog[e.p])>>,
    <<{"C01", "C05", "C15", "C16"}, "events of a partition are not started in offset order, each once",
      w.s # "none" /\ w.last >= 0 => e.o = NextHeard(st, e.p, w.last + 1)>> }

\* an error handler answered FatallyExit
Exits(st) == (st.cfg.deser = "exit" /\ st.dsr # {}) \/ (st.cfg.txnh = "exit" /\ st.fail # {})

Guards(st, e, l) ==
  CASE e.ev = "handle" ->
         UserGuards(st, e) \cup StartGuards(st, e) \cup
         { <<{"C06"}, "the store differs from the committed and own changes", e.st = Own(st, e.m, e.p).cur>>,
           <<{"C16"}, "the record was given to the wrong processor",
             e.o \in Offs(st, e.p) /\ st.ins[e.p][e.o].ty # "badA" /\ e.k = Kind(st.ins[e.p][e.o].ty)>> }
    [] e.ev = "deser" ->
         StartGuards(st, e) \cup
         { <<{"C16"}, "a decoding error is reported for a record that can be decoded",
             e.o \in Offs(st, e.p) /\ st.ins[e.p][e.o].ty = "badA" /\ e.ty = "A">>,
           <<{"C16"}, "a decoding error is reported twice", \A d \in st.dsr : ~(d[1] = e.m /\ d[2] = e.p /\ d[3] = e.o /\ d[4] = Own(st, e.m, e.p).n)>> }
    [] e.ev = "fin" ->
         { <<{"C05", "C15", "C17"}, "an asynchronous completion runs after the partition was given away",
             Known(st, e.h) /\ st.hs[e.h].n = Own(st, e.m, e.p).n /\ Own(st, e.m, e.p).s \in {"active", "revoking"}>>,
           <<{"C17"}, "user code runs after Done()", Get(st.mem, e.m, "none") # "done">>,
           <<{"C15"}, "two pieces of user code of one partition overlap", Own(st, e.m, e.p).run = 0>>,
           <<{"C04", "C15"}, "an event that was complete is completed again", Known(st, e.h) => ~st.hs[e.h].done>> }
    [] e.ev = "ij" ->
         UserGuards(st, e) \cup
         { <<{"C06", "C14"}, "the store differs from the committed and own changes", e.st = Own(st, e.m, e.p).cur>>,
           <<{"C14"}, "an interjection has an offset", e.off = -1>>,
           <<{"C14"}, "a one-off interjection runs although it was reported as failed",
             e.kind = "one" /\ e.id \in DOMAIN st.ijc => ~st.ijc[e.id].err>>,
           <<{"C14"}, "a one-off interjection runs on a partition it was not meant for, or twice",
             e.kind \in {"one", "all"} => e.id \in DOMAIN st.ijc /\ st.ijc[e.id].m = e.m /\
               (IF e.kind = "one" THEN st.ijc[e.id].p = e.p ELSE TRUE) /\ e.p \notin st.ijc[e.id].runs>>,
           <<{"C14"}, "a scheduled interjection runs too early or too late, or is not finished yet",
             e.kind = "sched" =>
               LET c == st.cfg.interj[e.id + 1]
                   s == Get(st.sched, <<e.m, e.p, e.id>>, [t |-> Own(st, e.m, e.p).t, fin |-> TRUE])
               IN /\ s.fin
                  /\ e.t - s.t >= c.every - c.jitter - 1
                  /\ (st.cfg.tol > 0 => e.t - s.t <= c.every + c.jitter + st.cfg.tol)>> }
    [] e.ev = "app" -> AppGuards(st, e)
    [] e.ev = "begin" ->
         { <<{"C08"}, "more transactions are open than there are pooled producers",
             Cardinality(OpenOf(st, e.tag)) < st.cfg.pool>> }
    [] e.ev = "end" -> IF e.x \in DOMAIN st.tx THEN EndGuards(st, e) ELSE {}
    [] e.ev = "assigned" ->
         { <<{"C17"}, "assigned is called for a partition in the wrong order",
             Own(st, e.m, e.p).s \in {"none", "assigned", "active"}>>,
           <<{"C17"}, "a callback for a partition is called while another one for it is running",
             Own(st, e.m, e.p).s = "none" => Own(st, e.m, e.p).cb = "">>,
           <<{"C05", "C06", "C17"}, "a partition which the consumer had lost is assigned again as if it had kept it", ~Own(st, e.m, e.p).lost>>,
           <<{"C17"}, "a callback runs after Done()", Get(st.mem, e.m, "none") # "done">> }
    [] e.ev = "activated" ->
         { <<{"C17"}, "activated is called for a partition that is not assigned, or twice", Own(st, e.m, e.p).s = "assigned">>,
           <<{"C17"}, "a callback for a partition is called while another one for it is running", Own(st, e.m, e.p).cb = "">>,
           <<{"C17"}, "a callback runs after Done()", Get(st.mem, e.m, "none") # "done">>,
           <<{"C06"}, "the store is activated with other content than the committed changes", e.st = Restored(st, e.p)>> }
    [] e.ev = "cbend" -> { <<{"C17"}, "a callback runs after Done()", Get(st.mem, e.m, "none") # "done">> }
    [] e.ev = "willrevoke" ->
         { <<{"C17"}, "will-revoke is called for a partition in the wrong order", Own(st, e.m, e.p).s \in {"assigned", "active"}>>,
           <<{"C17"}, "a callback for a partition is called while another one for it is running", Own(st, e.m, e.p).cb = "">>,
           <<{"C17"}, "a callback runs after Done()", Get(st.mem, e.m, "none") # "done">>,
           <<{"C13"}, "a consumer which leaves gracefully gives up several partitions at once",
             st.cfg.incr = 1 /\ (\E m \in Get(st.lv, e.m, {}) : Alive(st, m) /\ m \notin DOMAIN st.lv) =>
               \A p \in DOMAIN st.prog \ {e.p} : Own(st, e.m, p).s # "revoking">> }
    [] e.ev = "revoked" ->
         LET w == Own(st, e.m, e.p) IN
         { <<{"C17"}, "revoked is called for a partition in the wrong order", w.s = "revoking">>,
           <<{"C17"}, "a callback for a partition is called while another one for it is running", Own(st, e.m, e.p).cb = "">>,
           <<{"C17"}, "the store was not told exactly once that it is revoked", w.srev = 1>>,
           <<{"C17"}, "a callback runs after Done()", Get(st.mem, e.m, "none") # "done">>,
           <<{"C05", "C14", "C15", "C17"}, "revoked is called while user code of the partition runs", Alive(st, e.m) => w.run = 0>>,
           <<{"C05", "C17"}, "a partition is given away while a transaction of its events is open",
             Alive(st, e.m) => \A x \in OpenOf(st, e.m) : \A a \in Evs(st, x) :
                Known(st, a.h) => ~(st.hs[a.h].p = e.p)>> }
    [] e.ev = "srevoked" ->
         { <<{"C17"}, "the store is told that it is revoked while it is in use", Own(st, e.m, e.p).s # "active">>,
           <<{"C17", "C05"}, "the store is told that it is revoked while user code of the partition runs",
             Alive(st, e.m) => Own(st, e.m, e.p).run = 0>> }
    [] e.ev = "recv" ->
         { <<{"C06"}, "a change that was not committed is restored",
             e.v = 0 \/ (e.p \in DOMAIN st.vals /\ e.v \in st.vals[e.p])>>,
           <<{"C15", "C06"}, "ReceiveChange is called while the partition is being processed",
             Own(st, e.m, e.p).run = 0 /\ Own(st, e.m, e.p).s # "active">> }
    [] e.ev = "ijret" ->
         { <<{"C14"}, "InterjectAll has not run on a partition that was active all the time",
             e.id \in DOMAIN st.ijc /\ Alive(st, e.m) /\ st.ijc[e.id].p < 0 => st.ijc[e.id].act \subseteq st.ijc[e.id].runs>>,
           <<{"C14"}, "an interjection was refused although its partition was active all the time",
             e.id \in DOMAIN st.ijc /\ Alive(st, e.m) /\ e.err = 1 => st.ijc[e.id].act = {}>>,
           <<{"C14"}, "an interjection reported success without having run (or failure after it ran)",
             e.id \in DOMAIN st.ijc =>
               IF st.ijc[e.id].p < 0 THEN TRUE   \* see below
               ELSE IF e.err = 0 THEN st.ijc[e.id].runs # {} \/ st.ijc[e.id].rv ELSE st.ijc[e.id].runs = {}>> }
    [] e.ev = "groupcommit" ->
         { <<{"C26"}, "a group offset is committed although CommitOffsets is disabled", st.cfg.goff = 1>>,
           <<{"C26"}, "the group offset is ahead of the committed progress", e.p \in DOMAIN st.prog => e.o <= st.prog[e.p]>> }
    [] e.ev = "metric" ->
         (IF e.op \notin {"TxnCommit", "PartitionPrepped"} THEN {} ELSE
         { <<{"C24"}, "the times of a metric are out of order or missing",
             e.ago[1] < 1000000000 /\ e.ago[1] >= e.ago[2] /\ e.ago[2] >= e.ago[3] /\ e.ago[3] >= 0>>,
           <<{"C24"}, "a metric names another group", e.group = "grp">> }) \cup
         IF e.op # "TxnCommit" THEN {} ELSE
         { <<{"C24"}, "a TxnCommit metric matches no committed transaction in order",
             LET q == Get(st.met, e.m, <<>>) IN
             \E i \in 1 .. Len(q) : Reports(st, q[i], e)>>,
           <<{"C24"}, "a TxnCommit metric was dropped although the handler is not slow",
             LET q == Get(st.met, e.m, <<>>) IN st.cfg.metrics = "log" /\ q # <<>> => Reports(st, q[1], e)>> }
    [] e.ev = "final" ->
         { <<{"C07", "C16"}, "a failed consumer is not Unhealthy", e.m \in st.fail => e.state = 1>>,
           <<{"C07", "C16"}, "a failed consumer is not done", e.m \in st.fail /\ Get(st.mem, e.m, "none") # "dead" => Get(st.mem, e.m, "none") = "done">>,
           <<{"C07", "C16"}, "a consumer is Unhealthy without a failure",
             e.m \notin st.fail /\ st.cfg.mustfail = 0 /\ Get(st.mem, e.m, "none") # "dead" /\ e.state >= 0 => e.state = 0>>,
           <<{"C05", "C13", "C14", "C17", "C24", "C26"}, "a stopped consumer is not done", e.gone = 1 => Get(st.mem, e.m, "none") \in {"done", "dead"}>>,
           <<{"C17", "C07"}, "Done() wakes up only one of those who wait", Get(st.mem, e.m, "none") = "done" => e.m \in st.two>>,
           <<{"C17"}, "WaitForChannel does not return, or returns too early",
             Get(st.mem, e.m, "none") # "dead" /\ e.m \notin st.fail => (e.m \in st.chd) = (e.wait = 1)>> }
    [] e.ev = "quiet" ->
         { <<{"C07", "C16"}, "the process goes on although it was told to exit", ~Exits(st)>>,
           <<{"C01", "C02", "C04", "C05", "C06", "C07", "C08", "C13", "C15", "C16", "C17", "C24", "C26"}, "the records are not all processed and committed in the end",
             st.cfg.complete = 1 => \A p \in DOMAIN st.prog : \A o \in Offs(st, p) : o < st.prog[p]>>,
           <<{"C08"}, "an event is not committed at all although the batch delay is long over",
             st.cfg.lat > 0 => \A p \in DOMAIN st.prog : \A o \in Offs(st, p) : o < st.prog[p]>>,
           <<{"C07", "C17"}, "a consumer that is done is still a member of the group",
             \A i \in DOMAIN e.members : Get(st.mem, e.members[i], "none") # "done">>,
           <<{"C02", "C14"}, "a consumer that never failed gave up a transaction that held records",
             \A x \in DOMAIN st.tx : st.tx[x].s = "given up" /\ Evs(st, x) # {} => ~Alive(st, st.tx[x].m) \/ st.tx[x].m \in st.lost>>,
           <<{"C14"}, "a one-off interjection is not answered",
             \A id \in DOMAIN st.ijc : Get(st.mem, st.ijc[id].m, "none") # "dead" => st.ijc[id].ret>>,
           <<{"C14"}, "a scheduled interjection stopped",
             st.cfg.tol > 0 => \A mp \in DOMAIN st.own : st.own[mp].s = "active" /\ Alive(st, mp[1]) =>
               \A i \in DOMAIN st.cfg.interj :
                 LET s == Get(st.sched, <<mp[1], mp[2], i - 1>>, [t |-> st.own[mp].t, fin |-> TRUE])
                     c == st.cfg.interj[i]
                 IN s.fin => e.t - s.t <= c.every + c.jitter + st.cfg.tol>>,
           <<{"C07", "C16"}, "no consumer failed although it had to", st.cfg.mustfail <= Cardinality(st.fail)>>,
           <<{"C26"}, "after a graceful stop the group offset is not the committed progress",
             st.cfg.goff = 1 /\ st.cfg.gend = 1 => \A p \in DOMAIN st.prog :
                Offs(st, p) # {} => e.goff[p + 1] = st.prog[p]>>,
           <<{"C24"}, "a committed transaction was never reported as a metric",
             st.cfg.metrics = "log" => \A m \in DOMAIN st.met : Alive(st, m) => st.met[m] = <<>> >>,
           <<{"C13"}, "the group is not stable in the end", st.cfg.complete = 1 => e.stable = 1>>,
           <<{"C13", "C05"}, "in the end a partition is owned by no live member or by two",
             st.cfg.complete = 1 => \A p \in DOMAIN st.prog :
               Cardinality({m \in DOMAIN st.mem : Alive(st, m) /\ Own(st, m, p).s = "active"}) = 1>>,
           <<{"C13"}, "in the end the partitions are not balanced over the members",
             st.cfg.complete = 1 /\ st.cfg.bal = 1 =>
               LET L == {m \in DOMAIN st.mem : Alive(st, m)}
                   N(m) == Cardinality({p \in DOMAIN st.prog : Own(st, m, p).s = "active"})
               IN \A a, b \in L : N(a) <= N(b) + 1>> }
    [] e.ev = "esdone" ->
         { <<{"C07", "C16"}, "a failed consumer does not leave the group at once",
             e.m \in DOMAIN st.ft /\ Get(st.mem, e.m, "none") = "live" => e.t - st.ft[e.m] <= 2000>> }
    [] e.ev = "starterr" -> { <<{"C08", "C18", "C01"}, "the event source cannot be created", st.cfg.starterr = 1>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs",
                                          e.ev = "panic" /\ Exits(st)>> }
    [] OTHER -> {}

---------------------------------------------------------------------------
(* Effects *)

SetOwn(st, m, p, w) == [st EXCEPT !.own = Put(st.own, <<m, p>>, w)]
\* interjections may be refused from now on
NoAct(st, m, P) == [st EXCEPT !.ijc = [i \in DOMAIN @ |-> IF @[i].m = m THEN [@[i] EXCEPT !.act = @ \ P] ELSE @[i]]]
SetRun(st, m, p, h) == SetOwn(st, m, p, [Own(st, m, p) EXCEPT !.run = h])

AddHandle(st, e, l, kind, o) ==
  LET w == Own(st, e.m, e.p)
      k == <<e.m, e.p>>
      a == Get(st.att, k, None)
  IN [st EXCEPT !.hs = Put(st.hs, e.h, [m |-> e.m, p |-> e.p, o |-> o, kind |-> kind, done |-> FALSE, fw |-> None,
                                        n |-> w.n, l |-> l, t |-> e.t, sid |-> -1]),
               !.att = IF kind = "ev" THEN Put(st.att, k, Put(a, o, Get(a, o, {}) \cup {e.h})) ELSE st.att]

DoEnd(st, e) ==
  LET x == e.x
      T == st.tx[x]
      nx == NextOf(st, x)
      S1 == [st EXCEPT !.tx = Put(st.tx, x, [T EXCEPT !.s = IF e.ok = 1 THEN "ok" ELSE IF e.why = "client" THEN "given up" ELSE "ab"])]
      chg(p) == {a \in Rng(T.apps) : a.c = "chg" /\ a.dp = p}
      upd(p) == LET K == {a.kk : a \in chg(p)}
                    best(k) == CHOOSE a \in chg(p) : a.kk = k /\ \A b \in chg(p) : b.kk = k => b.o <= a.o
                IN [k \in K \cup DOMAIN st.cmt[p] |->
                      IF k \notin K THEN st.cmt[p][k]
                      ELSE IF k \in DOMAIN st.cmt[p] /\ st.cmt[p][k].o > best(k).o THEN st.cmt[p][k]
                      ELSE [o |-> best(k).o, v |-> best(k).v]]
      front(S) == {b \in S : \A c \in S : b.x = x /\ c.x = x /\ c # b => ~(c.f >= b.f /\ c.o >= b.o /\ c.m = b.m /\ c.n = b.n
                                            /\ c.ij = b.ij /\ ~b.ij)}
  IN IF e.ok = 1
     THEN [S1 EXCEPT !.prog = [p \in DOMAIN st.prog |-> IF p \in DOMAIN nx /\ nx[p] > st.prog[p] THEN nx[p] ELSE st.prog[p]],
                     !.cmt = [p \in DOMAIN st.cmt |-> IF chg(p) = {} THEN st.cmt[p] ELSE upd(p)],
                     !.vals = [p \in DOMAIN st.vals |-> st.vals[p] \cup {a.v : a \in chg(p)}],
                     !.ord = [k \in DOMAIN st.ord |-> front(st.ord[k])],
                     !.met = IF T.apps = <<>> THEN st.met ELSE
                             Put(st.met, T.m, Append(Get(st.met, T.m, <<>>),
                                [n |-> Len(T.apps), bytes |-> Sum(T.apps), m |-> T.m,
                                 ps |-> DOMAIN nx \cup {st.hs[h].p : h \in {g \in {a.h : a \in Evs(st, x)} : Known(st, g)}}]))]
     ELSE [S1 EXCEPT !.ord = [k \in DOMAIN st.ord |-> {b \in st.ord[k] : b.x # x}]]

DropUpTo(st, q, e) ==
  LET I == {i \in 1 .. Len(q) : Reports(st, q[i], e)} IN
  IF I = {} THEN q ELSE SubSeq(q, MinS(I) + 1, Len(q))

Apply(st, e, l) ==
  CASE e.ev = "in" -> [st EXCEPT !.ins[e.p] = Put(@, e.o, [ty |-> e.ty, l |-> l, t |-> e.t])]
    [] e.ev = "start" -> [st EXCEPT !.mem = Put(@, e.m, "live")]
    [] e.ev = "starterr" -> [st EXCEPT !.mem = Put(@, e.m, "dead")]
    [] e.ev = "crash" -> [st EXCEPT !.mem = Put(@, e.m, "dead")]
    [] e.ev = "stop" -> [NoAct(st, e.m, DOMAIN st.prog) EXCEPT !.lv = Put(@, e.m, {m \in DOMAIN st.mem : Alive(st, m) /\ m \notin DOMAIN @ /\ m # e.m /\
                                                                             \E p \in DOMAIN st.prog : Own(st, m, p).s = "active"})]
    [] e.ev = "stopnow" -> [NoAct(st, e.m, DOMAIN st.prog) EXCEPT !.lv = Put(@, e.m, {})]
    [] e.ev = "kick" -> [st EXCEPT !.ijc = [i \in DOMAIN @ |-> [@[i] EXCEPT !.act = {}]], !.lv = [m \in DOMAIN @ |-> {}], !.own = [k \in DOMAIN @ |-> IF k[1] = e.m /\ @[k].s # "none" THEN [@[k] EXCEPT !.lost = TRUE] ELSE @[k]]]
    [] e.ev = "esdone" -> [st EXCEPT !.mem = Put(@, e.m, IF Get(@, e.m, "none") = "dead" THEN "dead" ELSE "done"),
                                     !.fail = IF e.state = 1 THEN @ \cup {e.m} ELSE @]
    [] e.ev = "esdone2" -> [st EXCEPT !.two = @ \cup {e.m}]
    [] e.ev = "chandone" -> [st EXCEPT !.chd = @ \cup {e.m}]
    [] e.ev = "handle" ->
         LET s1 == AddHandle(st, e, l, "ev", e.o)
             w == Own(st, e.m, e.p)
         IN SetOwn(s1, e.m, e.p, [w EXCEPT !.last = e.o, !.run = e.h])
    [] e.ev = "deser" ->
         LET w == Own(st, e.m, e.p)
             h == -l
             s1 == AddHandle(st, [m |-> e.m, p |-> e.p, h |-> h, t |-> e.t], l, "ev", e.o)
             s2 == [s1 EXCEPT !.hs[h].done = (st.cfg.deser \in {"", "continue"}), !.dsr = @ \cup {<<e.m, e.p, e.o, w.n>>},
                              !.fail = IF st.cfg.deser = "fail" THEN @ \cup {e.m} ELSE @,
                              !.ft = IF st.cfg.deser = "fail" /\ e.m \notin DOMAIN @ THEN Put(@, e.m, e.t) ELSE @]
         IN SetOwn(s2, e.m, e.p, [w EXCEPT !.last = e.o])
    [] e.ev = "ij" ->
         LET s1 == SetRun(AddHandle(st, e, l, "ij", -1), e.m, e.p, e.h) IN
         IF e.kind = "sched"
         THEN [s1 EXCEPT !.sched = Put(@, <<e.m, e.p, e.id>>, [t |-> e.t, fin |-> FALSE]), !.hs[e.h].sid = e.id]
         ELSE IF e.id \in DOMAIN st.ijc THEN [s1 EXCEPT !.ijc[e.id].runs = @ \cup {e.p}] ELSE s1
    [] e.ev = "fin" -> SetRun(st, e.m, e.p, e.h)
    [] e.ev = "exit" ->
         IF ~Known(st, e.h) THEN st ELSE
         LET s1 == [SetRun(st, e.m, e.p, 0) EXCEPT !.hs[e.h].done = @ \/ e.done = 1,
                      !.hs[e.h].fw = [i \in DOMAIN @ |-> IF @[i].x > 0 THEN @[i] ELSE [@[i] EXCEPT !.x = e.t]]]
             sid == st.hs[e.h].sid
             s2 == IF e.done = 1 /\ sid >= 0 THEN [s1 EXCEPT !.sched = Put(@, <<e.m, e.p, sid>>, [t |-> e.t, fin |-> TRUE])] ELSE s1
         IN \* a finished interjection without records has no further effect
            IF s2.hs[e.h].kind = "ij" /\ s2.hs[e.h].done /\ s2.hs[e.h].fw = None /\ st.cfg.metrics = ""
            THEN [s2 EXCEPT !.hs = [h \in DOMAIN @ \ {e.h} |-> @[h]]] ELSE s2
    [] e.ev = "fwd" ->
         IF ~Known(st, e.h) THEN st ELSE
         LET r == IF e.c = "chg" THEN [f |-> l, c |-> e.c, dp |-> e.dp, k |-> e.k, v |-> e.v, x |-> 0]
                  ELSE [f |-> l, c |-> e.c, dp |-> e.dp, k |-> 0, v |-> 0, x |-> 0]
             s1 == [st EXCEPT !.hs[e.h].fw = Put(@, e.i, r)]
             w == Own(st, e.m, e.p)
         IN IF e.c = "chg" /\ w.cur # None THEN SetOwn(s1, e.m, e.p, [w EXCEPT !.cur[e.k + 1] = e.v]) ELSE s1
    [] e.ev = "begin" -> [st EXCEPT !.tx = Put(@, e.x, [m |-> e.tag, s |-> "open", apps |-> <<>>])]
    [] e.ev = "app" ->
         IF e.x \notin DOMAIN st.tx THEN st ELSE
         LET s1 == [st EXCEPT !.tx[e.x].apps = Append(@, e)] IN
         IF e.c = "cl" \/ ~Known(st, e.h) \/ e.i \notin Fwds(st, e.h) THEN s1 ELSE
         LET H == st.hs[e.h]
             k == OrdKey(e, H.p)
         IN [s1 EXCEPT !.ord = Put(@, k, Get(@, k, {}) \cup
               {[f |-> H.fw[e.i].f, o |-> H.o, h |-> e.h, m |-> H.m, n |-> H.n, x |-> e.x, ij |-> H.kind = "ij"]})]
    [] e.ev = "end" -> IF e.x \in DOMAIN st.tx THEN DoEnd(st, e) ELSE st
    [] e.ev = "assigned" ->
         LET w == Own(st, e.m, e.p) IN
         IF w.s \in {"assigned", "active"} THEN st
         ELSE SetOwn(st, e.m, e.p, [NoOwn EXCEPT !.s = "assigned", !.n = w.n + 1, !.cb = InCb(st, "assigned")])
    [] e.ev = "activated" ->
         LET w == Own(st, e.m, e.p) IN
         SetOwn(st, e.m, e.p, [w EXCEPT !.s = "active", !.cur = e.st, !.t = e.t, !.n = IF w.s = "none" THEN w.n + 1 ELSE w.n,
                                        !.last = -1, !.cb = InCb(st, "activated")])
    [] e.ev = "willrevoke" -> SetOwn(NoAct(st, e.m, {e.p}), e.m, e.p, [Own(st, e.m, e.p) EXCEPT !.s = "revoking", !.cb = InCb(st, "willrevoke")])
    [] e.ev = "cbend" -> LET w == Own(st, e.m, e.p) IN IF w.cb = e.cb THEN SetOwn(st, e.m, e.p, [w EXCEPT !.cb = ""]) ELSE st
    [] e.ev = "srevoked" ->
         LET w == Own(st, e.m, e.p) IN IF w.s = "revoking" THEN SetOwn(st, e.m, e.p, [w EXCEPT !.srev = @ + 1]) ELSE st
    [] e.ev = "revoked" ->
         LET w == Own(st, e.m, e.p)
             s1 == SetOwn(st, e.m, e.p, [NoOwn EXCEPT !.n = w.n, !.cb = InCb(st, "revoked")])
         IN [s1 EXCEPT !.ijc = [i \in DOMAIN st.ijc |-> IF st.ijc[i].m = e.m THEN [st.ijc[i] EXCEPT !.rv = TRUE] ELSE st.ijc[i]],
                       !.sched = [k \in {k2 \in DOMAIN st.sched : ~(k2[1] = e.m /\ k2[2] = e.p)} |-> st.sched[k]]]
    [] e.ev = "txnerr" -> IF st.cfg.txnh = "continue" THEN [st EXCEPT !.lost = @ \cup {e.m}] ELSE [st EXCEPT !.fail = @ \cup {e.m}, !.ft = IF e.m \notin DOMAIN @ THEN Put(@, e.m, e.t) ELSE @]
    [] e.ev = "ijcall" -> [st EXCEPT !.ijc = Put(@, e.id, [m |-> e.m, p |-> e.p, ret |-> FALSE, err |-> FALSE, runs |-> {}, rv |-> FALSE,
                                                               act |-> Active(st, e.m) \cap (IF e.p < 0 THEN DOMAIN st.prog ELSE {e.p})])]
    [] e.ev = "ijret" -> IF e.id \in DOMAIN st.ijc THEN [st EXCEPT !.ijc[e.id].ret = TRUE, !.ijc[e.id].err = (e.err = 1)] ELSE st
    [] e.ev = "metric" -> IF e.op # "TxnCommit" THEN st
                          ELSE [st EXCEPT !.met = Put(@, e.m, DropUpTo(st, Get(@, e.m, <<>>), e))]
    [] OTHER -> st
=============================================================================
