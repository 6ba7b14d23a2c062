------------------------------ MODULE MC_Fleet ------------------------------
(* Every short history of N managers: what a manager holds is what was added  *)
(* to it, or, before it was made by copying, to the one it is a copy of,      *)
(* whatever happens to the others in between.  (Frames stand for themselves   *)
(* here: numbers.)                                                            *)
EXTENDS Fleet
CONSTANTS N, Steps

VARIABLE log      \* the operations, in order
vars == <<frames, cur, parked, log>>

Init == frames = <<>> /\ cur = 1 /\ parked = [k \in 1..N |-> <<>>] /\ log = <<>>

Add == /\ frames' = Append(frames, Len(log) + 1)
       /\ log' = Append(log, [op |-> "add", m |-> cur, x |-> Len(log) + 1])
       /\ UNCHANGED <<cur, parked>>
Work(m) == Switch(m) /\ UNCHANGED log
Copy(to) == Fork(to) /\ log' = Append(log, [op |-> "fork", m |-> cur, x |-> to])
Next == /\ Len(log) < Steps
        /\ Add \/ \E m \in 1..N : Work(m) \/ Copy(m)
Spec == Init /\ [][Next]_vars

(* The history of manager m in the first n operations. *)
RECURSIVE Held(_, _)
Held(m, n) ==
  IF n = 0 THEN <<>>
  ELSE LET o == log[n] IN
       IF o.op = "add" THEN IF o.m = m THEN Append(Held(m, n - 1), o.x) ELSE Held(m, n - 1)
       ELSE IF o.x = m THEN Held(o.m, n - 1) ELSE Held(m, n - 1)

Independent == \A m \in 1..N : FramesOf(m) = Held(m, Len(log))
=============================================================================
