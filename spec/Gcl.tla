----------------------------------- MODULE Gcl -----------------------------------
(* A GlobalChangeLog (C25).                                                             *)
EXTENDS Util
\* rec: <<partition, offset>> -> what is written there: v, x its transaction, s: ok, open, gone; at: when it became visible
\* pos: partition -> what is delivered next is at this offset or behind it; mode: run, pausing, paused
\* late: a record may be on its way to the receiver when its partition is paused: where it may be, and since when
NewState(cfg) == [cfg |-> cfg, rec |-> None, late |-> [p \in 0..(cfg.n - 1) |-> {}], pos |-> [p \in 0..(cfg.n - 1) |-> 0], mode |-> [p \in 0..(cfg.n - 1) |-> "run"], on |-> FALSE, stop |-> -1]
Ok(st, p, o) == <<p, o>> \in DOMAIN st.rec /\ st.rec[<<p, o>>].s = "ok"
Set(f, ps, v) == [p \in DOMAIN f |-> IF p \in ps THEN v ELSE f[p]]
NextAt(st, p, o, pos) == o >= pos /\ \A q \in pos..(o - 1) : ~Ok(st, p, q)
Regular(st, e) == st.mode[e.p] # "paused" /\ NextAt(st, e.p, e.o, st.pos[e.p])
Late(st, e) == {x \in st.late[e.p] : x.t = e.t /\ NextAt(st, e.p, e.o, x.pos)}
Guards(st, e, l) ==
  CASE e.ev = "recv" ->
         IF e.topic # "log" \/ e.p \notin DOMAIN st.pos \/ <<e.p, e.o>> \notin DOMAIN st.rec THEN { <<{"C25"}, "a record is delivered which does not exist", FALSE>> }
         ELSE LET r == st.rec[<<e.p, e.o>>] IN
         { <<{"C25"}, "a record is delivered before the log is started", st.on>>,
           <<{"C25"}, "a record is delivered with another content", r.v = e.v>>,
           <<{"C25"}, "a record is delivered which is not committed", r.s = "ok">>,
           <<{"C25"}, "a record of a paused partition is delivered", st.mode[e.p] # "paused" \/ Late(st, e) # {}>>,
           <<{"C25"}, "a record is delivered again or out of order", e.o >= st.pos[e.p] \/ Late(st, e) # {}>>,
           <<{"C25"}, "a record is left out", (\A q \in st.pos[e.p]..(e.o - 1) : ~Ok(st, e.p, q)) \/ Late(st, e) # {}>>,
           <<{"C25"}, "delivery goes on after the log is stopped", st.stop >= 0 => r.s # "ok" \/ r.at <= st.stop + 6000>> }
    [] e.ev = "quiet" ->
         { <<{"C25"}, "a committed record is not delivered",
             st.on /\ st.stop < 0 => \A k \in DOMAIN st.rec : st.rec[k].s = "ok" /\ st.mode[k[1]] = "run" => k[2] < st.pos[k[1]]>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) ==
  CASE e.ev = "append" -> [st EXCEPT !.rec = Put(@, <<e.p, e.o>>, [v |-> e.v, x |-> e.x, s |-> IF e.x = "" THEN "ok" ELSE "open", at |-> e.t])]
    [] e.ev = "end" -> [st EXCEPT !.rec = [k \in DOMAIN @ |-> IF @[k].s = "open" /\ @[k].x = e.x
                                                             THEN [@[k] EXCEPT !.s = IF e.commit = 1 THEN "ok" ELSE "gone", !.at = e.t] ELSE @[k]]]
    [] e.ev = "start" -> [st EXCEPT !.on = TRUE]
    [] e.ev = "stopped" -> [st EXCEPT !.stop = e.t]
    [] e.ev = "pausing" -> [st EXCEPT !.mode = Set(@, Rng(e.ps), "pausing")]
    [] e.ev = "paused" -> [st EXCEPT !.mode = Set(@, Rng(e.ps), "paused"),
                                     !.late = [p \in DOMAIN @ |-> IF p \in Rng(e.ps) THEN {x \in @[p] : x.t = e.t} \cup {[pos |-> st.pos[p], t |-> e.t]} ELSE @[p]]]
    [] e.ev = "resuming" -> [st EXCEPT !.mode[e.p] = "run", !.pos[e.p] = e.o]
    [] e.ev = "recv" -> IF Regular(st, e) THEN [st EXCEPT !.pos[e.p] = e.o + 1]
                        ELSE LET x == CHOOSE y \in Late(st, e) : TRUE IN [st EXCEPT !.late[e.p] = @ \ {x}]
    [] OTHER -> st
================================================================================
