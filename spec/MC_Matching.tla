----------------------------- MODULE MC_Matching -----------------------------
(* Design check: over every table of distances up to NE x NG with entries     *)
(* 0..D and different labels (-1), the greedy machine terminates, and its     *)
(* final outcomes are exactly the one-to-one, label-safe and stable ones.     *)
EXTENDS Matching, TLC

CONSTANTS NE, NG, D

VARIABLES table, pairs, done
vars == <<table, pairs, done>>

Rows(ng) == [1..ng -> (0..D) \cup {NoMatch}]
Tables == UNION {[1..ne -> Rows(ng)] : ne \in 1..NE, ng \in 1..NG}

Init == table \in Tables /\ pairs = {} /\ done = FALSE

Pair == /\ ~done
        /\ \E p \in Closest(pairs, table) : pairs' = pairs \cup {p}
        /\ UNCHANGED <<table, done>>

Finish == /\ ~done
          /\ FreePairs(pairs, table) = {}
          /\ done' = TRUE
          /\ UNCHANGED <<table, pairs>>

Next == Pair \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ne == Len(table)
ng == Len(table[1])

OneToOneAlways == \A p, r \in pairs : (p[1] = r[1] \/ p[2] = r[2]) => p = r
LabelAlways == \A p \in pairs : table[p[1]][p[2]] # NoMatch

FinalOutcome ==
  done => LET o == Outcome(pairs, ne) IN
            /\ WellFormed(o, ne, ng)
            /\ EveryEstimateOnce(o, ne)
            /\ GroundTruthOnce(o)
            /\ LabelSafe(o, table)
            /\ Stable(o, table, ne, ng)

(* Closest pairs come first: distances never decrease along a run. *)
NonDecreasing ==
  [][\A p \in pairs' \ pairs : \A r \in pairs :
        table[r[1]][r[2]] <= table[p[1]][p[2]]]_vars

Terminates == <>done

(* Conversely every stable one-to-one outcome is reached by some run. *)
StableOutcomes(t) ==
  LET n == Len(t)  m == Len(t[1])
      fs == [1..n -> (1..m) \cup {None}]
      out(f) == [e \in 1..n |-> <<e, f[e]>>]
  IN {f \in fs : /\ GroundTruthOnce(out(f))
                 /\ LabelSafe(out(f), t)
                 /\ Stable(out(f), t, n, m)}

GreedyIsStable ==
  (pairs = {} /\ ~done) =>
    StableOutcomes(table) =
      {[e \in 1..ne |-> Outcome(ps, ne)[e][2]] : ps \in Reach({}, table)}
=============================================================================
