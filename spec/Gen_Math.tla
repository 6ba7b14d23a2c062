------------------------------ MODULE Gen_Math ------------------------------
(* All rotations whose quaternion has components -1, 0 and 1, composed with   *)
(* one another (C13).                                                         *)
EXTENDS Common, TLC, Json, IOUtils, SequencesExt
CONSTANT Second
Quats == {<<a, b, c, d>> : a, b, c, d \in {-1, 0, 1}} \ {<<0, 0, 0, 0>>}
Positive == {q \in Quats : LET k == CHOOSE i \in 1..4 : q[i] # 0 /\ \A j \in 1..4 : j < i => q[j] = 0 IN q[k] > 0}
Few == {q \in Positive : q[1] >= 0 /\ q[2] >= 0}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq({[q1 |-> p, q2 |-> q] : p \in Quats, q \in Second}))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
