------------------------------ MODULE FrameEval ------------------------------
(* Evaluation of one frame (properties C03, C04): the split of the results    *)
(* into true and false positives and the missed ground truths.                *)
(* A result is a pair <<estimate, ground truth or None>> of indices.          *)
EXTENDS Matching, Geometry

(* Threshold of a label: the one at its first position among the targets.     *)
HasThreshold(l, targets) == l \in Range(targets)
Threshold(l, targets, thr) == thr[FirstIndex(targets, l)]

(* Equality of a plane distance with a threshold is only decided when nothing *)
(* is rounded: orientation along an axis and perfect squares.                 *)
(* (yaw given by h is only unrounded if it is 0).                             *)
AxisQ(q) == Cardinality({k \in 1..4 : q[k] # 0}) = 1
Unrounded(o) == IF o.h >= 0 THEN o.h = 0 ELSE AxisQ(o.q)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, n)
Square(n) == ISqrt(n) * ISqrt(n) = n

(* Verdict of a criterion on a pair of boxes against a threshold: "tp", "fp", *)
(* or "?" where the rounding of the implementation decides.                   *)
CenterVerdict(e, g, t) ==
  IF t >= Infinite THEN "tp" ELSE IF t > 0 /\ SqDist(e.p, g.p) < t * t THEN "tp" ELSE "fp"

PlaneVerdict(e, g, t) ==
  IF t >= 2000 THEN "tp" ELSE IF t <= 0 THEN "fp"
  ELSE IF e.p = g.p /\ e.q = g.q /\ e.h = g.h /\ e.s = g.s THEN "tp"
  ELSE IF ~Exact(e) \/ ~Exact(g) THEN "?"
  ELSE LET K == PlaneScale(e, g)
           parts == PlaneParts(e, g)
           lim == 2 * (t * K) * (t * K)
           sure == Unrounded(e) /\ Unrounded(g)
           one(v) == IF v[1] + v[2] < lim THEN "tp"
                     ELSE IF v[1] + v[2] > lim THEN "fp"
                     ELSE IF sure /\ Square(v[1]) /\ Square(v[2]) /\ v[1] = v[2] THEN "fp" ELSE "?"
           all == {one(v) : v \in parts}
       IN IF Cardinality(all) = 1 THEN CHOOSE x \in all : TRUE ELSE "?"

(* Axis-aligned boxes overlap in integers: equality is decided too. *)
Aligned(e) == Unrounded(e) /\ QuatOf(e) \in {<<1, 0, 0, 0>>, <<-1, 0, 0, 0>>}
IouVerdict(i, u, t, e, exact) ==   \* i rounded by less than e; exact: nothing rounded
  IF t < 0 THEN "tp" ELSE
  LET r == RatioAbove(i, u, t, e) IN
  IF r = "yes" THEN "tp" ELSE IF r = "no" THEN "fp"
  ELSE IF ~exact \/ u > 500 THEN "?"
  ELSE IF i * 1000 > t * (1000 * u - i) THEN "tp" ELSE "fp"

Verdict(mode, e, g, t) ==
  CASE mode = "center" -> CenterVerdict(e, g, t)
    [] mode = "plane" -> PlaneVerdict(e, g, t)
    [] mode = "iou2d" -> IouVerdict(InterArea(e, g), Area(e) + Area(g), t, 1, Aligned(e) /\ Aligned(g))
    [] mode = "iou3d" -> IouVerdict(InterVolume(e, g), Volume(e) + Volume(g), t, 1 + InterHeight2(e, g), Aligned(e) /\ Aligned(g))

ResultVerdict(mode, pair, ests, gts, targets, thr) ==
  IF pair[2] = None THEN "fp"
  ELSE Verdict(mode, ests[pair[1]], gts[pair[2]], Threshold(ests[pair[1]].l, targets, thr))

(* -------- what is required of an evaluated frame -------- *)
(* res: sequence of pairs; tp, fp: positions in res; fn: indices of gts.      *)

Targeted(res, ests, targets) == {k \in DOMAIN res : HasThreshold(ests[res[k][1]].l, targets)}

InOrder(s) == \A j, k \in DOMAIN s : j < k => s[j] < s[k]

SplitOK(res, tp, fp, ests, targets) ==
  /\ InOrder(tp) /\ InOrder(fp)
  /\ Range(tp) \cap Range(fp) = {}
  /\ Range(tp) \cup Range(fp) = Targeted(res, ests, targets)

VerdictsOK(mode, res, tp, fp, ests, gts, targets, thr) ==
  /\ \A k \in Range(tp) : k \in DOMAIN res /\ HasThreshold(ests[res[k][1]].l, targets) =>
        ResultVerdict(mode, res[k], ests, gts, targets, thr) # "fp"
  /\ \A k \in Range(fp) : k \in DOMAIN res /\ HasThreshold(ests[res[k][1]].l, targets) =>
        ResultVerdict(mode, res[k], ests, gts, targets, thr) # "tp"

DetectedGTs(res, tp) == {res[k][2] : k \in {j \in Range(tp) : j \in DOMAIN res}} \ {None}

(* gtIdx: the ground truths of the frame, as indices. *)
MissedOK(res, tp, fn, gtIdx) ==
  SameBag(fn, Pick(gtIdx, {k \in DOMAIN gtIdx : gtIdx[k] \notin DetectedGTs(res, tp)}))

(* -------- the evaluation itself -------- *)
TPOf(mode, res, ests, gts, targets, thr) ==
  Indices(res, {k \in Targeted(res, ests, targets) :
                  ResultVerdict(mode, res[k], ests, gts, targets, thr) = "tp"})
FPOf(mode, res, ests, gts, targets, thr) ==
  Indices(res, {k \in Targeted(res, ests, targets) :
                  ResultVerdict(mode, res[k], ests, gts, targets, thr) # "tp"})
=============================================================================
