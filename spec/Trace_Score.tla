---------------------------- MODULE Trace_Score ----------------------------
(* Matching scores of pairs of boxes against Geometry (C11, C12), recovered   *)
(* by bisecting the threshold of is_result_correct.                           *)
(* ab: scores of the pair, ba: exchanged, aa: a box with itself, xy: the same *)
(* boxes with other labels, IDs, confidences, point counts and times.         *)
(* c, p: 100 * score^2 (p: 200 * score^2); i2, i3: thousandths of the common  *)
(* area / volume implied by the score; m2, m3: millionths of the score.       *)
EXTENDS TraceKit, FrameEval

Near(x, y, eps) == x > -1000000000 /\ Abs(x - y) <= eps

CenterOK(s, a, b) == Near(s.c, 100 * SqDist(a.p, b.p), 1)

(* Boxes far from the origin are only compared with each other. *)
Around(o) == \A k \in 1..2 : Abs(o.p[k]) <= 2000
PlaneChecked(a, b) == Around(a) /\ Around(b) /\ Exact(a) /\ Exact(b) /\ YawOnly(QuatOf(a)) /\ YawOnly(QuatOf(b))
(* 100 * v / K^2, rounded down *)
PlaneCenti(v, K) == LongDiv(v, K * K, 2)
PlaneOK(s, a, b) ==
  PlaneChecked(a, b) =>
    \E v \in PlaneValues(a, b) : Near(s.p, PlaneCenti(v, PlaneScale(a, b)), 2)

OverlapChecked(a, b) == Exact(a) /\ Exact(b) /\ ClipOK(a) /\ ClipOK(b)
Overlap2(s, a, b, inter) == OverlapChecked(a, b) => Near(s.i2, inter, 3)
Overlap3(s, a, b, inter) ==
  OverlapChecked(a, b) => Near(s.i3, (inter * InterHeight2(a, b)) \div 2, 3 + 2 * InterHeight2(a, b))
InUnit(x) == x \in 0..1000000
Bounds(s) == InUnit(s.m2) /\ InUnit(s.m3)

(* Seen from the origin, the left one of two points is counter-clockwise of   *)
(* the other; points in line with the origin may come in any order.           *)
SideOK(got, p, q) ==
  /\ got \in {1, 2}
  /\ (\A k \in 1..2 : Abs(p[k]) <= 20000 /\ Abs(q[k]) <= 20000) =>
       LET c == Cross(p, q) IN (c < 0 => got = 1) /\ (c > 0 => got = 2)

(* Verdicts of thresholds given with the case. *)
ThresholdOK(a, b, t, got) ==
  LET mode == t[1]
      known == CASE mode = "center" -> TRUE
                 [] mode = "plane" -> PlaneChecked(a, b)
                 [] OTHER -> OverlapChecked(a, b)
      v == IF known THEN Verdict(mode, a, b, t[2]) ELSE "?"
  IN v = "?" \/ (v = "tp" <=> got)
Thresholds(c, o, modes) ==
  \A k \in DOMAIN c.thr : c.thr[k][1] \in modes => ThresholdOK(c.a, c.b, c.thr[k], o.checks[k])

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET a == r.c.a  b == r.c.b  o == r.o
           inter == IF OverlapChecked(a, b) THEN TLCEval(InterArea(a, b)) ELSE 0
       IN Failing(
         "C11.center" :> CenterOK(o.ab, a, b)
         @@ "C11.centerSymmetric" :> CenterOK(o.ba, b, a)
         @@ "C11.centerZero" :> (o.aa.c = 0)
         @@ "C11.plane" :> PlaneOK(o.ab, a, b)
         @@ "C11.planeSymmetric" :> PlaneOK(o.ba, b, a)
         @@ "C11.planeZero" :> (o.aa.p = 0)
         @@ "C11.nonNegative" :> (o.ab.c >= 0 /\ o.ab.p >= 0)
         @@ "C11.onlyPose" :> (o.xy.c = o.ab.c /\ o.xy.p = o.ab.p)
         @@ "C11.leftRight" :> (SideOK(o.lr, a.p, b.p) /\ SideOK(o.rl, b.p, a.p))
         @@ "C11.thresholds" :> Thresholds(r.c, o, {"center", "plane"})
         @@ "C12.area" :> Overlap2(o.ab, a, b, inter)
         @@ "C12.areaSymmetric" :> Overlap2(o.ba, b, a, inter)
         @@ "C12.volume" :> Overlap3(o.ab, a, b, inter)
         @@ "C12.volumeSymmetric" :> Overlap3(o.ba, b, a, inter)
         @@ "C12.bounds" :> (Bounds(o.ab) /\ Bounds(o.ba) /\ Bounds(o.aa))
         @@ "C12.identical" :> ((Area(a) > 0 => o.aa.m2 = 1000000) /\ (Volume(a) > 0 => o.aa.m3 = 1000000))
         @@ "C12.apart" :> (OverlapChecked(a, b) =>
               /\ inter = 0 /\ Apart(a, b) => (o.ab.m2 = 0 /\ o.ab.m3 = 0)
               /\ InterHeight2(a, b) = 0 => o.ab.m3 = 0)
         @@ "C12.onlyBox" :> (o.xy.i2 = o.ab.i2 /\ o.xy.i3 = o.ab.i3)
         @@ "C12.thresholds" :> Thresholds(r.c, o, {"iou2d", "iou3d"})
         @@ "C03.noGroundTruth" :> (\A k \in DOMAIN o.alone : ~o.alone[k]))

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
