---- MODULE Setup ----
EXTENDS Integers, Json, SequencesExt, IOUtils
VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = x + 1
Spec == Init /\ [][Next]_x
====
