------------------------------ MODULE Gen_Score ------------------------------
(* Pairs of boxes on a small lattice: turned by the angles of Pythagorean     *)
(* triples, touching, nested, apart, above each other (C11, C12).             *)
EXTENDS Common, TLC, Json, IOUtils, SequencesExt
CONSTANTS Turns, Heights
TurnsDef == {<<1, 0, 0, 0>>, <<1, 0, 0, 1>>, <<2, 0, 0, 1>>, <<-1, 0, 0, 3>>}
AllTurns == TurnsDef \cup {<<0, 0, 0, 1>>, <<1, 0, 0, -2>>, <<-3, 0, 0, 1>>}
Steps == {0, 5, 15}
Pairs == {[a |-> [p |-> <<10, 5, 0>>, q |-> q1, s |-> <<5, 10, 2>>],
           b |-> [p |-> <<10 + x, 5 - y, z>>, q |-> q2, s |-> s]] :
            q1 \in Turns, q2 \in Turns, x \in Steps, y \in Steps, z \in Heights, s \in {<<5, 10, 2>>, <<15, 5, 4>>}}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq(Pairs))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
