-------------------------------- MODULE Fleet --------------------------------
(* Several managers at once (property C08).  A manager is its configuration   *)
(* and the frames added to it; nothing else is shared or remembered.  The     *)
(* frames of the one at work (cur) are in `frames`, those of the others are   *)
(* parked.  An operation of a manager is one of module Manager while that     *)
(* manager is at work.                                                        *)
EXTENDS Manager

VARIABLES cur, parked

FramesOf(m) == IF m = cur THEN frames ELSE parked[m]

NewFleet(n) == /\ frames' = <<>>
               /\ cur' = 1
               /\ parked' = [k \in 1..n |-> <<>>]

Switch(m) == /\ m # cur /\ m \in DOMAIN parked
             /\ parked' = [parked EXCEPT ![cur] = frames]
             /\ frames' = parked[m]
             /\ cur' = m

(* Manager `to` becomes a copy of the one at work. *)
Fork(to) == /\ to \in DOMAIN parked \ {cur}
            /\ parked' = [parked EXCEPT ![to] = frames]
            /\ UNCHANGED <<frames, cur>>
=============================================================================
