----------------------------- MODULE MC_Dataset -----------------------------
(* Walking a chain as the loader does (record by record from the declared     *)
(* first, comparing prev with where it came from) against ChainOK, over all   *)
(* link graphs on K records, including dangling links, cycles and wrong       *)
(* counts: the walk always ends, and accepts exactly the chains.              *)
EXTENDS Dataset
CONSTANT K
Nodes == 1..K
Refs == 0..(K + 1)          \* 0: none, K+1: dangling

VARIABLES pc, next, prev, first, last, n, at, from, count, list
vars == <<pc, next, prev, first, last, n, at, from, count, list>>
none == [k \in Nodes |-> 0]
Init == pc = "pick" /\ next = none /\ prev = none /\ first = 0 /\ last = 0 /\ n = 0 /\ at = 0 /\ from = 0 /\ count = 0 /\ list = <<>>
PickLinks == /\ pc = "pick"
             /\ next' \in [Nodes -> Refs] /\ prev' \in [Nodes -> Refs]
             /\ pc' = "ends" /\ UNCHANGED <<first, last, n, at, from, count, list>>
PickEnds == /\ pc = "ends"
            /\ first' \in 1..(K + 1) /\ last' \in 1..(K + 1) /\ n' \in 0..(K + 1)
            /\ at' = first' /\ from' = 0 /\ count' = 0 /\ list' = <<>> /\ pc' = "walk"
            /\ UNCHANGED <<next, prev>>
Walk == /\ pc = "walk"
        /\ UNCHANGED <<next, prev, first, last, n>>
        /\ IF at \notin Nodes THEN pc' = "reject" /\ UNCHANGED <<at, from, count, list>>
           ELSE IF prev[at] # from THEN pc' = "reject" /\ UNCHANGED <<at, from, count, list>>
           ELSE /\ count' = count + 1 /\ list' = Append(list, at)
                /\ IF next[at] # 0 THEN pc' = "walk" /\ from' = at /\ at' = next[at]
                   ELSE /\ pc' = IF last = at /\ n = count + 1 THEN "accept" ELSE "reject"
                        /\ UNCHANGED <<at, from>>
Done == pc \in {"accept", "reject"} /\ UNCHANGED vars
Next == PickLinks \/ PickEnds \/ Walk \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Walk)

Bounded == count <= K       \* a walk never visits a record twice
Verdict == /\ pc = "accept" => ChainOK(next, prev, first, last, n) /\ list = Chain(next, first, n)
           /\ pc = "reject" => ~(first \in Nodes /\ last \in Nodes /\ ChainOK(next, prev, first, last, n))
Ends == (pc = "walk") ~> (pc \in {"accept", "reject"})
=============================================================================
