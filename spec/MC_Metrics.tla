----------------------------- MODULE MC_Metrics -----------------------------
(* Design check of the AP definition: rankings grow one result at a time, to  *)
(* every sequence of weights up to length N, for every number of ground       *)
(* truths the ranking can have.                                               *)
EXTENDS Metrics, TLC

CONSTANTS N, GMax, Weights
WeightsDef == {0, 150, 600, 900, 1800}

VARIABLES w, G
vars == <<w, G>>

Detected(v) == Cardinality({k \in DOMAIN v : v[k] > 0})
Init == w = <<>> /\ G \in 0..GMax
Result == /\ Len(w) < N
          /\ \E x \in Weights : /\ w' = Append(w, x)
                                /\ Detected(w') <= G
          /\ UNCHANGED G
Next == Result
Spec == Init /\ [][Next]_vars

Binary(v) == [k \in DOMAIN v |-> IF v[k] > 0 THEN Full ELSE 0]

Range01 == AP(w, G) # NotANumber => AP(w, G) \in 0..One + Slack(w)
NaNOnlyWhenEmpty == (AP(w, G) = NotANumber) <=> (w = <<>> /\ G = 0)
APHBelowAP == AP(w, G) <= AP(Binary(w), G) + Slack(w)
ByRecall == CloseTo(AP(Binary(w), G), APByRecall(Binary(w), G), 2 * Slack(w))
BestByDefinition == w # <<>> =>
  LET cum == Cumulated(w) IN BestRanks(cum, 1) = [k \in DOMAIN w |-> BestRank(cum, k)]
Perfect == (G > 0 /\ Len(w) = G /\ \A k \in DOMAIN w : w[k] = Full) => AP(w, G) >= One - Slack(w)
Nothing == (G > 0 /\ \A k \in DOMAIN w : w[k] = 0) => AP(w, G) = 0
(* A result of lower confidence than all others never lowers the AP. *)
Monotone == [][AP(w', G) = NotANumber \/ AP(w, G) = NotANumber \/ AP(w', G) + Slack(w') >= AP(w, G)]_vars
(* Ranking the heavier of two neighbours first never lowers the score.        *)
Swapped(v, k) == [v EXCEPT ![k] = v[k + 1], ![k + 1] = v[k]]
BetterFirst == \A k \in 1..(Len(w) - 1) :
                 w[k] < w[k + 1] => AP(w, G) <= AP(Swapped(w, k), G) + 2 * Slack(w)
(* Turning all true positives half way around halves APH precision and recall. *)
Opposite == AP([k \in DOMAIN w |-> 0], G) \in {0, NotANumber}
=============================================================================
