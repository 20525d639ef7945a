------------------------------- MODULE BalanceTrace -------------------------------
(* Checks recorded histories against Balance.  One event per step; a "trace" line starts a new history.      *)
(* At the first event of a history that breaks a guard of a checked property a VIOL line is printed and  *)
(* the rest of that history is skipped.                                                                  *)
EXTENDS Balance, Json, IOUtils

VARIABLES l, st, skip, id

Log == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Checked == {IOEnv.VERIF_PROP, "ANY"}
All == IOEnv.VERIF_PROP = "ALL"

Init == l = 1 /\ st = None /\ skip = TRUE /\ id = 0

Bad(e) == {g \in Guards(st, e, l) : (All \/ g[1] \cap Checked # {}) /\ ~g[3]}

Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l] IN
     IF e.ev = "trace" THEN id' = e.id /\ skip' = FALSE /\ st' = None
     ELSE /\ id' = id
          /\ IF skip THEN UNCHANGED <<st, skip>>
             ELSE IF e.ev = "cfg" THEN st' = NewState(e) /\ skip' = FALSE
             ELSE LET B == Bad(e) IN
                  IF B # {} THEN /\ PrintT("VIOL " \o ToJson([id |-> id, l |-> l, what |-> {g[2] : g \in B}]))
                                 /\ skip' = TRUE /\ st' = None
                  ELSE st' = Apply(st, e, l) /\ skip' = FALSE

Spec == Init /\ [][Next]_<<l, st, skip, id>>
\* the whole log was consumed
Done == l > Len(Log) => PrintT("DONE " \o ToJson(l - 1))
=============================================================================
