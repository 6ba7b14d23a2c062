----------------------------- MODULE Trace_Box -----------------------------
(* Shape, angles and distances of an object against Geometry (C14).           *)
(* corners: thousandths of lattice units; angles: hundred-thousandths of a    *)
(* radian; cosines and sines: ten-thousandths; squares of distances, area and *)
(* volume: hundredths.                                                        *)
EXTENDS TraceKit, Geometry

Sc(x, n, k) == IF x >= 0 THEN LongDiv(x, n, k) ELSE -LongDiv(-x, n, k)

(* cos and sin of 15 degree steps, ten-thousandths *)
Cos15 == <<10000, 9659, 8660, 7071, 5000, 2588, 0>>
CosOf(k) ==       \* k in 0..23
  LET m == IF k > 12 THEN 24 - k ELSE k IN
  IF m <= 6 THEN Cos15[m + 1] ELSE -Cos15[12 - m + 1]
SinOf(k) == CosOf((k + 18) % 24)

(* Corners at three decimals for any multiple of 15 degrees. *)
CornerMilli(o, k) ==
  LET c == CosOf(o.h % 24)  s == SinOf(o.h % 24)
      x == CornerSigns[k][1] * o.s[2]  y == CornerSigns[k][2] * o.s[1]
  IN << 1000 * o.p[1] + (c * x - s * y) \div 20, 1000 * o.p[2] + (s * x + c * y) \div 20, 1000 * o.p[3] >>
ExpectedCorner(o, k) ==
  IF Exact(o) THEN LET q == QuatOf(o)  v == Corner(o, k)  n == 2 * Norm(q) IN
       << Sc(v[1], n, 3), Sc(v[2], n, 3), Sc(v[3], n, 3) >>
  ELSE CornerMilli(o, k)

NearVec(x, y, eps) == Len(x) = Len(y) /\ \A k \in DOMAIN y : Abs(x[k] - y[k]) <= eps
CornersOK(o, got) ==
  LET want == TLCEval([k \in 1..4 |-> ExpectedCorner(o, k)])
      eps == IF Exact(o) THEN 2 ELSE 8
  IN /\ Len(got) = 4
     /\ \E r \in 0..3 : \/ \A k \in 1..4 : NearVec(got[k], want[((k - 1 + r) % 4) + 1], eps)
                        \/ \A k \in 1..4 : NearVec(got[k], want[((r - k + 8) % 4) + 1], eps)

(* The yaw is determined away from vertical pitch. *)
Vertical(q) == 2 * Abs(q[1] * q[3] - q[2] * q[4]) = Norm(q)
(* cos and sin of the yaw of q are proportional to the first column of the matrix *)
YawOK(q, c, s) ==
  LET m == RotMat(q)  n == Abs(m[1]) + Abs(m[4])
      x == Sc(m[1], n, 4)  y == Sc(m[4], n, 4)
  IN /\ Abs(c * y - s * x) <= 40000          \* parallel ...
     /\ c * x + s * y > 0                     \* ... in the same direction
     /\ Abs(c * c + s * s - 100000000) <= 60000
HeadOK(o, c, s) ==
  /\ Abs(c) <= 10001 /\ Abs(s) <= 10001
  /\ IF o.h >= 0 THEN Abs(c - CosOf(o.h % 24)) <= 2 /\ Abs(s - SinOf(o.h % 24)) <= 2
     ELSE Vertical(o.q) \/ YawOK(o.q, c, s)

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET b == r.c.o  o == r.o IN
    Failing(
      "C14.corners" :> CornersOK(b, o.corners)
      @@ "C14.finite" :> o.finite
      @@ "C14.headingRange" :> (Abs(o.head) <= 314160)
      @@ "C14.heading" :> HeadOK(b, o.hc, o.hs)
      @@ "C14.yaw" :> HeadOK(b, o.yc, o.ys)
      @@ "C14.pitch" :> (Abs(o.pitch) <= 157081)
      @@ "C14.rotation" :> (Exact(b) => LET q == QuatOf(b)  m == RotMat(q) IN
            /\ \A k \in 1..9 : Abs(o.mat[k] - Sc(m[k], Norm(q), 5)) <= 2
            /\ \A k \in 1..9 : Abs(o.euler[k] - Sc(m[k], Norm(q), 5)) <= (IF Vertical(q) THEN 50 ELSE 2))
      @@ "C14.area" :> (Abs(o.area - 100 * Area(b)) <= 1)
      @@ "C14.volume" :> (Abs(o.vol - 100 * Volume(b)) <= 1)
      @@ "C14.distance" :> (Abs(o.d - 100 * SqDist(b.p, <<0, 0, 0>>)) <= 1)
      @@ "C14.state" :> (o.states = <<TRUE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>)
      @@ "C14.distanceBev" :> (Abs(o.db - 100 * SqDistBev(b.p, <<0, 0, 0>>)) <= 1)
      @@ "C14.distanceFrom" :> (Abs(o.df - 100 * SqDist(b.p, r.c.pt)) <= 1)
      @@ "C14.distanceBevFrom" :> (Abs(o.dbf - 100 * SqDistBev(b.p, r.c.pt)) <= 1))

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
