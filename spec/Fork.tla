---------------------------------- MODULE Fork ---------------------------------
(* Trees of RunStatus (C27). Nodes are numbered from 0; halting one stops its scope   *)
(* (WithValue shares the scope of its receiver) and all scopes forked from it.        *)
EXTENDS Util
NewState(cfg) == [cfg |-> cfg, sc |-> <<>>, par |-> <<>>, dead |-> {}, vals |-> <<>>]
   \* sc[n]: scope of node n-1; par[s]: parent scope (0: none); dead: halted scopes; vals[n]
RECURSIVE Stopped(_, _)
Stopped(st, s) == IF s = 0 THEN FALSE ELSE s \in st.dead \/ Stopped(st, st.par[s])
Seen == {"root", "fork", "with", "halt", "cancel"}
After(st, e) ==
  CASE e.ev = "reset" -> NewState(st.cfg)
    [] e.ev = "root" -> [st EXCEPT !.sc = Append(@, Len(st.par) + 1), !.par = Append(@, 0),
                                   !.vals = Append(@, IF e.a = 0 THEN <<-1, -1, -1>> ELSE <<e.v, -1, -1>>)]
    [] e.ev = "fork" -> [st EXCEPT !.sc = Append(@, Len(st.par) + 1), !.par = Append(@, st.sc[e.p + 1]), !.vals = Append(@, st.vals[e.p + 1])]
    [] e.ev = "with" -> [st EXCEPT !.sc = Append(@, st.sc[e.p + 1]), !.vals = Append(@, [st.vals[e.p + 1] EXCEPT ![e.k + 1] = e.v])]
    [] e.ev \in {"halt", "cancel"} -> [st EXCEPT !.dead = @ \cup {st.sc[e.p + 1]}]
    [] OTHER -> st
Guards(st, e, l) ==
  CASE e.ev \in Seen ->
         LET t == After(st, e) IN
         { <<{"C27"}, "what runs is not what was neither halted nor forked from something halted",
             Len(e.st) = Len(t.sc) /\ \A n \in DOMAIN t.sc :
                LET x == IF Stopped(t, t.sc[n]) THEN 1 ELSE 0 IN e.st[n] = <<1 - x, x, x, x>>>>,
           <<{"C27"}, "a RunStatus carries other values", e.vals = t.vals>> }
    [] e.ev \in {"panic", "hang"} -> { <<{"ANY"}, IF e.ev = "panic" THEN "the process crashes" ELSE "the process hangs", FALSE>> }
    [] OTHER -> {}
Apply(st, e, l) == After(st, e)
================================================================================
