-------------------------------- MODULE Record ---------------------------------
(* Records and what becomes of them (C19): a record is built by a sequence of calls   *)
(* and sent, converted or handed back; whatever was in the pool before, what arrives  *)
(* is what was built.                                                                 *)
EXTENDS Util
Grt == "__grt__"
KeyOps == {"wk", "wks", "kw", "k", "ks"}
ValOps == {"wv", "wvs", "vw", "v"}
NewState(cfg) == [cfg |-> cfg, pend |-> None, built |-> None, fed |-> None]
   \* pend: sent, not yet arrived; built: everything that was built; fed: <<partition, offset>> -> source record
Blank == [k |-> "", v |-> "", h |-> <<>>, type |-> "", topic |-> "", p |-> -1]
Step(c, op) ==
  CASE op.Op \in KeyOps -> [c EXCEPT !.k = @ \o op.A \o op.B]
    [] op.Op \in ValOps -> [c EXCEPT !.v = @ \o op.A \o op.B]
    [] op.Op = "h" -> [c EXCEPT !.h = Append(@, <<op.A, op.B, 0>>)]
    [] op.Op = "hnil" -> [c EXCEPT !.h = Append(@, <<op.A, "", 1>>)]
    [] op.Op = "type" -> [c EXCEPT !.type = op.A]
    [] op.Op = "topic" -> [c EXCEPT !.topic = op.A]
    [] op.Op = "part" -> [c EXCEPT !.p = op.N]
    [] OTHER -> c
RECURSIVE Fold(_, _, _)
Fold(c, ops, i) == IF i > Len(ops) THEN c ELSE Fold(Step(c, ops[i]), ops, i + 1)
Build(st, e) ==
  LET b == Fold(Blank, e.ops, 1)
      c == CASE e.via = "chg" -> [b EXCEPT !.topic = "gkes_change_log_src_grp", !.p = e.src]
             [] e.via = "prod" /\ b.topic = "" -> [b EXCEPT !.topic = "t2"]
             [] OTHER -> b
  IN [k |-> c.k, v |-> c.v, type |-> c.type, topic |-> c.topic, p |-> c.p, via |-> e.via, kp |-> e.kp,
      h |-> IF c.type = "" THEN c.h ELSE Append(c.h, <<Grt, c.type, 0>>)]
Same(c, e) == /\ e.k = c.k /\ (e.kn = 1) = (c.k = "") /\ e.v = c.v /\ (e.vn = 1) = (c.v = "")
              /\ e.h = c.h /\ e.topic = c.topic
\* where a record may be placed
Placed(st, c, p) ==
  LET n == st.cfg.n[c.topic]
      custom == st.cfg.custom = 1 /\ c.via = "prod"
  IN CASE c.p # -1 -> p = c.p
       [] custom -> p = (IF c.topic = "t1" THEN 2 * Len(c.k) + 1 ELSE Len(c.k)) % n
       [] c.k # "" -> p = c.kp[c.topic]
       [] OTHER -> p \in 0 .. n - 1
Fits(st, e) == {i \in DOMAIN st.pend : Same(st.pend[i], e) /\ Placed(st, st.pend[i], e.p)}
Anywhere(st, c) == c.p = -1 /\ c.k = "" /\ ~(st.cfg.custom = 1 /\ c.via = "prod")
\* of records that look the same the most restricted one
Fit(st, e) == LET F == Fits(st, e) R == {i \in F : ~Anywhere(st, st.pend[i])} IN MinS(IF R = {} THEN F ELSE R)
Named(h, n) == {i \in DOMAIN h : h[i][1] = n}
HV(h, n) == IF Named(h, n) = {} THEN <<n, "", 1>> ELSE h[MinS(Named(h, n))]
Guards(st, e, l) ==
  CASE e.ev = "arr" -> { <<{"C19"}, "what arrives was not built and sent like this", Fits(st, e) # {}>> }
    [] e.ev = "conv" ->
         LET c == st.built[e.id] IN
         { <<{"C19"}, "a conversion changes the record", Same(c, e) /\ e.p = c.p>>,
           <<{"C19"}, "a conversion changes the record's type", e.type = IF e.inc = 1 THEN c.type ELSE "">> }
    [] e.ev = "cb" ->
         LET c == st.built[e.id] IN
         { <<{"C19"}, "the record changes while it is produced", Same(c, e) /\ Placed(st, c, e.p) /\ e.tp = <<e.topic, e.p>> >>,
           <<{"C19"}, "a record is not produced", e.err = 0 /\ e.off >= 0>> }
    [] e.ev = "bcb" -> { <<{"C19"}, "a record is not produced", e.err = 0>> }
    [] e.ev = "got" ->
         LET f == st.fed[<<e.p, e.o>>] IN
         { <<{"C19"}, "a source record is delivered changed", /\ e.k = f.k /\ e.kn = f.kn /\ e.v = f.v /\ e.vn = f.vn /\ e.h = f.h /\ e.topic = f.topic /\ e.eo = e.o>>,
           <<{"C19"}, "the type of a source record is wrong", e.type = HV(f.h, Grt)[2]>>,
           <<{"C19"}, "a header of a source record is wrong", e.hv = <<HV(f.h, "a"), HV(f.h, "b"), HV(f.h, "zz"), HV(f.h, Grt)>> >> }
    [] e.ev = "quiet" -> { <<{"C19"}, "a record never arrives", st.pend = None>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "rec" -> LET c == Build(st, e) IN
         [st EXCEPT !.built = Put(@, e.id, c), !.pend = IF e.via = "conv" THEN @ ELSE Put(@, e.id, c)]
    [] e.ev = "arr" -> [st EXCEPT !.pend = Del(@, Fit(st, e))]
    [] e.ev = "in" -> [st EXCEPT !.fed = Put(@, <<e.p, e.o>>, e)]
    [] OTHER -> st
================================================================================
