------------------------------ MODULE Gen_Links ------------------------------
(* All link graphs on K records with every choice of ends and count.          *)
EXTENDS Integers, Json, IOUtils, SequencesExt
CONSTANTS K, Dangling, Count
Refs == 0..(K + Dangling)
Cases == {[next |-> x, prev |-> p, first |-> f, last |-> l, n |-> m] :
            x \in [1..K -> Refs], p \in [1..K -> Refs], f \in 1..(K + Dangling), l \in 1..(K + Dangling), m \in 0..Count}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
