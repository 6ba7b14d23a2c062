----------------------------- MODULE Gen_Filter -----------------------------
(* The decision table of the filter (C05): every configuration, and every     *)
(* kind of object it distinguishes (beyond, at and inside of each limit).     *)
EXTENDS Common, TLC, Json, IOUtils, SequencesExt
CONSTANTS Limits
Limit == 3
Configs == {[labels |-> l, mx |-> mx, my |-> my, mp |-> mp, on |-> u.on, ids |-> u.ids, gt |-> gt] :
              l \in {<<"Car">>, <<"Bus", "Car", "Bus">>}, mx \in Limits \cup {Infinite}, my \in Limits, mp \in {-1, 0, 2},
              u \in {[on |-> FALSE, ids |-> <<>>], [on |-> TRUE, ids |-> <<>>], [on |-> TRUE, ids |-> <<"a">>],
                     [on |-> TRUE, ids |-> <<"ab", "<>">>]},
              gt \in BOOLEAN}
Objects == {[l |-> l, x |-> x, y |-> y, n |-> n, id |-> id] :
              l \in {"Car", "Bus", "Unknown"}, x \in {-Limit, Limit - 1, Limit, -Infinite}, y \in {-Limit, 1 - Limit, Limit},
              n \in {-1, 0, 1, 2, 3}, id \in {"", "<>", "a", "ab"}}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq({[cfg |-> c] : c \in Configs}) \o <<[objs |-> SetToSeq(Objects)]>>)
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
