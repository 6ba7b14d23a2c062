------------------------------ MODULE Matching ------------------------------
(* Pairing of estimates with ground truths (properties C01, C02).             *)
(* A table gives, for every estimate (row) and ground truth (column) of the   *)
(* same label, the square of the distance of the centres, and NoMatch for     *)
(* different labels.  An outcome is a sequence of pairs <<estimate, ground    *)
(* truth>>, with ground truth -1 for an estimate that gets none.              *)
EXTENDS Common, TLC

NoMatch == -1
None == -1

Dist2(a, b) == (a.p[1] - b.p[1]) * (a.p[1] - b.p[1])
             + (a.p[2] - b.p[2]) * (a.p[2] - b.p[2])
             + (a.p[3] - b.p[3]) * (a.p[3] - b.p[3])

Table(ests, gts) ==
  TLCEval([e \in DOMAIN ests |-> TLCEval([g \in DOMAIN gts |->
     IF ests[e].l = gts[g].l THEN Dist2(ests[e], gts[g]) ELSE NoMatch])])

(* -------- what is required of an outcome -------- *)

WellFormed(out, ne, ng) ==
  \A k \in DOMAIN out : /\ out[k][1] \in 1..ne
                        /\ out[k][2] \in 1..ng \cup {None}

EveryEstimateOnce(out, ne) ==
  Len(out) = ne /\ {out[k][1] : k \in DOMAIN out} = 1..ne

GroundTruthOnce(out) ==
  \A j, k \in DOMAIN out : (j # k /\ out[j][2] # None) => out[j][2] # out[k][2]

LabelSafe(out, table) ==
  \A k \in DOMAIN out : out[k][2] # None => table[out[k][1]][out[k][2]] # NoMatch

PartnerOfEst(out, e) == LET k == CHOOSE k \in DOMAIN out : out[k][1] = e IN out[k][2]
PartnersOfGT(out, g) == {out[k][1] : k \in {j \in DOMAIN out : out[j][2] = g}}

(* No same-label pair that is closer to each other than both to their partners. *)
Stable(out, table, ne, ng) ==
  LET ofEst == TLCEval([e \in 1..ne |-> PartnerOfEst(out, e)])
      ofGT == TLCEval([g \in 1..ng |-> PartnersOfGT(out, g)])
  IN \A e \in 1..ne : \A g \in 1..ng :
       LET d == table[e][g]
           pe == ofEst[e]
       IN (d # NoMatch /\ pe # g) =>
            \/ pe # None /\ table[e][pe] # NoMatch /\ table[e][pe] <= d
            \/ \E f \in ofGT[g] : table[f][g] # NoMatch /\ table[f][g] <= d

(* -------- the greedy algorithm, as a relation on partial outcomes -------- *)

FreePairs(pairs, table) ==
  {<<e, g>> \in (DOMAIN table) \X (IF table = <<>> THEN {} ELSE DOMAIN table[1]) :
     /\ table[e][g] # NoMatch
     /\ \A p \in pairs : p[1] # e /\ p[2] # g}

Closest(pairs, table) ==
  LET free == FreePairs(pairs, table) IN
  {p \in free : \A r \in free : table[p[1]][p[2]] <= table[r[1]][r[2]]}

(* The outcome of a set of pairs, in order of the estimates. *)
Outcome(ps, n) ==
  [e \in 1..n |-> <<e, IF \E p \in ps : p[1] = e THEN (CHOOSE p \in ps : p[1] = e)[2] ELSE None>>]

(* All final sets of pairs of the greedy algorithm. *)
RECURSIVE Reach(_, _)
Reach(ps, t) ==
  LET c == Closest(ps, t) IN
  IF c = {} THEN {ps} ELSE UNION {Reach(ps \cup {p}, t) : p \in c}
=============================================================================
