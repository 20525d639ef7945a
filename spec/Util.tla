--------------------------------- MODULE Util ---------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Max2(a, b) == IF a >= b THEN a ELSE b
Rng(s) == {s[i] : i \in DOMAIN s}
None == <<>>
===============================================================================
