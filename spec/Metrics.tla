------------------------------- MODULE Metrics -------------------------------
(* Average precision (properties C06, C07).                                   *)
(* Scores are in units of 10^-7, NaN is NotANumber.  The input is a ranking:  *)
(* the sequence of true-positive weights in tenths of degrees (0..1800) of    *)
(* the results of one label in order of descending confidence, and the number G of ground *)
(* truths of the label.                                                       *)
EXTENDS Common, TLC

NotANumber == -1
One == 10000000

Full == 1800

(* Cumulated weight after each rank. *)
Cumulated(w) == TLCEval([k \in DOMAIN w |-> SumTo(w, k)])

(* Precision at rank k is Cumulated[k] / (1800 k); the interpolated one is the  *)
(* best at that or any later rank: the rank at which it is attained.          *)
BestRank(cum, k) ==
  CHOOSE j \in k..Len(cum) : \A m \in k..Len(cum) : cum[m] * j <= cum[j] * m

(* The best ranks of k, .., n, from the last one backwards (BestRanks(cum, 1)[k] *)
(* is BestRank(cum, k), checked in MC_Metrics).                               *)
RECURSIVE BestRanks(_, _)
BestRanks(cum, k) ==
  IF k = Len(cum) THEN <<k>>
  ELSE LET later == BestRanks(cum, k + 1)  b == later[1] IN
       <<IF cum[b] * k <= cum[k] * b THEN k ELSE b>> \o later

(* One rank adds P_k * (recall_k - recall_{k-1}) = cum[j] w_k/(1800^2 j G),     *)
(* here rounded down to a multiple of 10^-7 (dividing in two steps keeps the  *)
(* numbers small for thousands of results).                                   *)
Term(w, cum, j, k, G) == MulDiv(LongDiv(cum[j], Full * j, 8), w[k], Full) \div (10 * G)

AP(w, G) ==
  IF w = <<>> THEN (IF G = 0 THEN NotANumber ELSE 0)
  ELSE IF G = 0 THEN 0
  ELSE LET cum == Cumulated(w)  best == TLCEval(BestRanks(cum, 1)) IN
       Sum(TLCEval([k \in DOMAIN w |-> Term(w, cum, best[k], k, G)]))

(* Rounding of the sum above: at most one unit per rank. *)
Slack(w) == Len(w) + 2

CloseTo(x, y, eps) ==
  IF x = NotANumber \/ y = NotANumber THEN x = y ELSE Abs(x - y) <= eps

Between(x, least, most, eps) ==
  IF x = NotANumber \/ least = NotANumber THEN x = least ELSE x \in (least - eps)..(most + eps)

(* A second, independent formulation: the area under the interpolated curve   *)
(* as an integral over recall, for weights 0 and Full only (used as an oracle   *)
(* for the definition above): for the m-th true positive the best precision   *)
(* reachable with at least m true positives.                                  *)
Hits(w, k) == Cardinality({j \in 1..k : w[j] = Full})
APByRecall(w, G) ==
  IF w = <<>> \/ G = 0 THEN AP(w, G)
  ELSE LET n == Hits(w, Len(w))
           best(m) == LET ks == {k \in DOMAIN w : Hits(w, k) >= m}
                          j == CHOOSE k \in ks : \A i \in ks : Hits(w, i) * k <= Hits(w, k) * i
                      IN LongDiv(Hits(w, j), j * G, 7)
       IN Sum([m \in 1..n |-> best(m)])
=============================================================================
