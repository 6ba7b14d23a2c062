------------------------------ MODULE MC_Lookup ------------------------------
(* The search as a machine: it reads the frames one after the other and keeps *)
(* the best seen; checked against Lookup for all lists up to N.               *)
EXTENDS Lookup

CONSTANTS N, Times
TimesDef == {-75001, -75000, -74999, -74001, -74000, -1000, -999, -1, 0, 999, 1000, 74000, 74999, 75000, 75001}

VARIABLES ts, best
vars == <<ts, best>>
At == 0

Init == ts = <<>> /\ best = Nothing
Read(t) ==
  /\ Len(ts) < N
  /\ ts' = Append(ts, t)
  /\ best' = IF best = Nothing \/ Gap(t, At) < Gap(ts[best], At) THEN Len(ts) + 1 ELSE best
Next == \E t \in Times : Read(t)
Spec == Init /\ [][Next]_vars

Answer == IF best # Nothing /\ Gap(ts[best], At) < Limit THEN best ELSE Nothing
AnswerAllowed == Answer \in Allowed(ts, At)
NothingIsExclusive == Nothing \in Allowed(ts, At) => Allowed(ts, At) = {Nothing}
(* The answer does not get worse when frames are added. *)
Improves == [][Answer # Nothing => (Answer' # Nothing /\ Gap(ts'[Answer'], At) <= Gap(ts[Answer], At))]_vars
=============================================================================
