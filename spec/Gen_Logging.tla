----------------------------- MODULE Gen_Logging -----------------------------
(* All histories of N steps of the log: two directories and one that cannot   *)
(* be used, five levels, scenario files, messages (C23).                      *)
EXTENDS Common, TLC, Json, IOUtils, SequencesExt
CONSTANT N
Steps == {<<"conf", "a", "Error">>, <<"conf", "a", "Info">>, <<"conf", "b", "Debug">>, <<"conf", "b", "Trace">>,
          <<"conf", "x", "Info">>, <<"scenario", "a", "">>, <<"scenario", "x", "">>,
          <<"emit", "", "Error">>, <<"emit", "", "Warn">>, <<"emit", "", "Debug">>}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq({[ops |-> l] : l \in [1..N -> Steps]}))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
