------------------------------ MODULE Gen_Frame ------------------------------
(* All frames of up to NE estimates and NG ground truths of two labels on a   *)
(* line (every order of them), for the evaluation of a frame (C01 to C04).    *)
EXTENDS Common, TLC, Json, IOUtils, SequencesExt
CONSTANTS NE, NG, Far
Objects == {[x |-> x, l |-> l] : x \in 0..Far, l \in {"Car", "Bus"}}
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE Lists(n - 1) \cup [1..n -> Objects]
Cases == {[e |-> e, g |-> g] : e \in Lists(NE), g \in Lists(NG)}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
