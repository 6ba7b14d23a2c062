----------------------------- MODULE Gen_Lookup -----------------------------
(* All frame lists up to length N over the critical times, and query times.   *)
EXTENDS Lookup, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, Times, Queries
TimesDef == {-75001, -75000, -74000, -1, 0, 999, 1000, 74999, 75000}
QueriesDef == {0, 999, 500000}
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE Lists(n - 1) \cup [1..n -> Times]
Cases == {[ts |-> l, at |-> q] : l \in Lists(N), q \in Queries}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
