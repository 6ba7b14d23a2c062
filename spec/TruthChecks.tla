----------------------------- MODULE TruthChecks -----------------------------
(* Recorded ground-truth frames against those of the dataset (C16).           *)
(* Positions: ten-thousandths of lattice units; matrices and norms:           *)
(* ten-thousandths; sizes: hundredths; confidence: thousandths.               *)
EXTENDS GroundTruth

Sc(x, n, k) == IF x >= 0 THEN LongDiv(x, n, k) ELSE -LongDiv(-x, n, k)

PoseOK(x, pos, den, q, size) ==
  /\ \A k \in 1..3 : Abs(x.p[k] - Sc(pos[k], den, 4)) <= 3
  /\ LET m == RotMat(q)  n == Norm(q) IN \A k \in 1..9 : Abs(x.r[k] - Sc(m[k], n, 4)) <= 3
  /\ Abs(x.n - 10000) <= 3
  /\ \A k \in 1..3 : Abs(x.s[k] - 100 * size[k]) <= 1

FrameOK(d, s, f, frame) ==
  LET fill == Filling(d, s)
      anns == {r \in Recs(d, "ann") : r.sample = s.t}
  IN CASE Cardinality(fill) = 0 -> f.objs = <<>>
       [] Cardinality(fill) > 1 -> TRUE
       [] OTHER ->
            LET e == Rec(d, "ego", (CHOOSE r \in fill : TRUE).ego) IN
            /\ Len(f.objs) = Cardinality(anns)
            /\ \A a \in anns : \E k \in DOMAIN f.objs : LET x == f.objs[k] IN
                 /\ x.inst = a.inst
                 /\ x.l = LabelOf(CategoryOf(d, a))
                 /\ x.pts = a.pts /\ x.conf = 1000 /\ x.f = frame /\ x.ts = s.ts
                 /\ PoseOK(x, EgoPos(a, e), Norm(e.q), EgoQuat(a, e), a.s)

(* One frame per sample: samples and frames of the same time correspond.      *)
FramesOK(d, list, frame) ==
  /\ Len(list) = Len(d.tables.sample)
  /\ \A t \in {s.ts : s \in Recs(d, "sample")} :
       LET S == {s \in Recs(d, "sample") : s.ts = t}
           F == {k \in DOMAIN list : list[k].ts = t}
       IN /\ Cardinality(S) = Cardinality(F)
          /\ \E m \in [S -> F] : /\ \A x, y \in S : x # y => m[x] # m[y]
                                 /\ \A s \in S : FrameOK(d, s, list[m[s]], frame)

(* In order of time; one frame per sample. *)
TruthFailing(d, list, frame) ==
  {n \in {"C16.order", "C16.frames"} :
     IF n = "C16.order" THEN \E k \in 1..(Len(list) - 1) : list[k].ts > list[k + 1].ts
     ELSE ~FramesOK(d, list, frame)}
=============================================================================
