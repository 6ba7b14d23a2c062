----------------------------- MODULE Gen_Session -----------------------------
(* All sessions of up to N frames over an alphabet of frames: nothing, hits   *)
(* of both labels with high and low confidence, turned hits, misses, false    *)
(* alarms (C06 to C09, C22).                                                  *)
EXTENDS Common, TLC, Json, IOUtils, SequencesExt
CONSTANT N
Kinds == {"nothing", "hit", "turned", "miss", "alarm", "bus", "both"}
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE Lists(n - 1) \cup [1..n -> Kinds]
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq({[frames |-> l] : l \in Lists(N)}))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
