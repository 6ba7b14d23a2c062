------------------------------ MODULE Geometry ------------------------------
(* Exact integer geometry of oriented boxes.                                  *)
(*                                                                            *)
(* Lengths are integers in lattice units.  An orientation is an integer       *)
(* quaternion <<w, x, y, z>>: it denotes the rotation of q/|q|, whose matrix  *)
(* is RotMat(q) / Norm(q), with RotMat(q) integer.  A box has the centre p,   *)
(* size s = <<width, length, height>> and either the quaternion q or, when    *)
(* h >= 0, the yaw 15*h degrees (h in 0..47; h and h+24 are the same yaw,     *)
(* represented by opposite quaternions) or h - 1000 degrees (h in 1000..1719, *)
(* where h and h+360 are the same yaw).  A box with a yaw h is level unless   *)
(* q = <<2, pitch, roll, 0>>: then it was pitched and rolled (degrees) before *)
(* it was turned, and its heading is the yaw all the same.                    *)
EXTENDS Common, TLC

Norm(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
NegQ(q) == <<-q[1], -q[2], -q[3], -q[4]>>

(* Hamilton product: the rotation of q first, then that of p. *)
QMul(p, q) ==
  << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
     p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
     p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
     p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>

(* Row-major rotation matrix times Norm(q). *)
RotMat(q) ==
  LET w == q[1]  x == q[2]  y == q[3]  z == q[4] IN
  << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y),
     2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x),
     2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >>

Transpose(m) == <<m[1], m[4], m[7], m[2], m[5], m[8], m[3], m[6], m[9]>>
MatVec(m, v) ==
  << m[1]*v[1] + m[2]*v[2] + m[3]*v[3],
     m[4]*v[1] + m[5]*v[2] + m[6]*v[3],
     m[7]*v[1] + m[8]*v[2] + m[9]*v[3] >>
MatMul(a, b) ==
  TLCEval([k \in 1..9 |-> LET i == (k - 1) \div 3  j == (k - 1) % 3 IN
     a[3*i+1]*b[j+1] + a[3*i+2]*b[j+4] + a[3*i+3]*b[j+7]])

VAdd(a, b) == IF Len(a) = 3 THEN <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>> ELSE <<a[1] + b[1], a[2] + b[2]>>
VSub(a, b) == IF Len(a) = 3 THEN <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>> ELSE <<a[1] - b[1], a[2] - b[2]>>
Scale(c, v) == IF Len(v) = 3 THEN <<c * v[1], c * v[2], c * v[3]>> ELSE <<c * v[1], c * v[2]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]

(* Rotation of a vector, times Norm(q); its inverse. *)
Rotate(v, q) == MatVec(RotMat(q), v)
RotateInv(v, q) == MatVec(Transpose(RotMat(q)), v)

SqDist(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2]) + (a[3]-b[3])*(a[3]-b[3])
SqDistBev(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])

(* ---------------- boxes ---------------- *)

(* The quaternion of a box; only multiples of 90 degrees have an integer one. *)
Exact(o) == o.h < 0 \/ (o.h < 1000 /\ o.h % 6 = 0 /\ o.q[1] # 2)
QuatOf(o) ==
  IF o.h < 0 THEN o.q
  ELSE CASE o.h \div 6 = 0 -> <<1, 0, 0, 0>>
         [] o.h \div 6 = 1 -> <<1, 0, 0, 1>>
         [] o.h \div 6 = 2 -> <<0, 0, 0, 1>>
         [] o.h \div 6 = 3 -> <<-1, 0, 0, 1>>
         [] o.h \div 6 = 4 -> <<-1, 0, 0, 0>>
         [] o.h \div 6 = 5 -> <<-1, 0, 0, -1>>
         [] o.h \div 6 = 6 -> <<0, 0, 0, -1>>
         [] o.h \div 6 = 7 -> <<1, 0, 0, -1>>

YawOnly(q) == q[2] = 0 /\ q[3] = 0

(* Corner number k = 1..4, counter-clockwise from the front left one, at      *)
(* scale 2 * Norm(q): the centre plus half the length along the box and half  *)
(* the width across it, turned by the orientation.                            *)
CornerSigns == << <<1, 1>>, <<-1, 1>>, <<-1, -1>>, <<1, -1>> >>
Corner(o, k) ==
  LET q == QuatOf(o) IN
  VAdd(Scale(2 * Norm(q), o.p),
       Rotate(<<CornerSigns[k][1] * o.s[2], CornerSigns[k][2] * o.s[1], 0>>, q))
Corners(o) == TLCEval([k \in 1..4 |-> Corner(o, k)])

Area(o) == o.s[1] * o.s[2]
Volume(o) == Area(o) * o.s[3]

(* Two sequences of four corners are the same cycle, in either direction. *)
SameCycle(c, d) ==
  \E r \in 0..3 : \/ \A k \in 1..4 : c[k] = d[((k - 1 + r) % 4) + 1]
                  \/ \A k \in 1..4 : c[k] = d[((r - k + 8) % 4) + 1]

(* Heading in tenths of degrees, for boxes given by h. *)
Yaw(o) == IF o.h >= 1000 THEN (o.h - 1000) % 3600 ELSE 150 * (o.h % 24)
HeadingDiff(a, b) ==
  LET d == Abs(Yaw(a) - Yaw(b)) IN Min2(d, 3600 - d)        \* 0..1800

(* ---------------- plane distance ---------------- *)

Ego2(c) == c[1] * c[1] + c[2] * c[2]

(* Possible choices of the <<left, right>> corners nearest to the origin.     *)
Nearest(o) ==
  LET cs == Corners(o)
      near == {<<j, k>> \in (1..4) \X (1..4) :
                 /\ j # k
                 /\ \A m \in (1..4) \ {j, k} : Ego2(cs[j]) <= Ego2(cs[m]) /\ Ego2(cs[k]) <= Ego2(cs[m])}
      left == {p \in near : Cross(cs[p[1]], cs[p[2]]) <= 0}
  IN {<<cs[p[1]], cs[p[2]]>> : p \in left}

(* <<sum of the two squared corner distances, scale>>: the plane distance is  *)
(* sqrt(value / 2) / scale.                                                   *)
PlaneScale(a, b) == 2 * Norm(QuatOf(a)) * Norm(QuatOf(b))
PlaneParts(a, b) ==
  LET na == Norm(QuatOf(a))  nb == Norm(QuatOf(b)) IN
  {<<SqDistBev(Scale(nb, x[1]), Scale(na, y[1])), SqDistBev(Scale(nb, x[2]), Scale(na, y[2]))>> :
     x \in Nearest(a), y \in Nearest(b)}
PlaneValues(a, b) == {v[1] + v[2] : v \in PlaneParts(a, b)}

(* ---------------- overlap ---------------- *)

(* Edge directions along and across a yaw-only box, primitive integers. *)
Along(o) ==
  LET q == QuatOf(o)
      x == q[1]*q[1] - q[4]*q[4]
      y == 2 * q[1] * q[4]
      g == GCD(x, y)
  IN <<x \div g, y \div g>>
Across(o) == <<-Along(o)[2], Along(o)[1]>>
(* Length of Along: 1, 5, 13, ... *)
AlongLen(o) == LET d == Along(o) IN CHOOSE k \in 1..200 : k * k = Dot(d, d)

(* All vertices that clipping can produce are integers at scale 2 * ClipScale *)
(* when the sizes are multiples of AlongLen.                                  *)
ClipScale(a, b) ==
  LET d == Along(a)  e == Along(b) IN LCM(LCM(1, Abs(Dot(d, e))), Abs(Cross(d, e)))

ClipOK(o) == YawOnly(QuatOf(o)) /\ o.s[1] % AlongLen(o) = 0 /\ o.s[2] % AlongLen(o) = 0

(* Corners relative to a point, at scale 2 * D *)
RelCorners(o, at, D) ==
  LET n == AlongLen(o) IN
  TLCEval([k \in 1..4 |->
     LET dx == CornerSigns[k][1] * (o.s[2] \div n)
         dy == CornerSigns[k][2] * (o.s[1] \div n)
     IN << D * (2 * (o.p[1] - at[1]) + dx * Along(o)[1] + dy * Across(o)[1]),
           D * (2 * (o.p[2] - at[2]) + dx * Along(o)[2] + dy * Across(o)[2]) >>])

(* x * s / (s - r) for results that are integers. *)
MulFrac(x, s, r) ==
  LET d == s - r
      g == GCD(s, d)
      n == IF d < 0 THEN -(s \div g) ELSE s \div g
      m == Abs(d) \div g
  IN (x \div m) * n

(* Clips a convex polygon to the left side of the directed line c -> c + d.   *)
RECURSIVE ClipFrom(_, _, _, _)
ClipFrom(poly, k, c, d) ==
  IF k > Len(poly) THEN <<>>
  ELSE LET p == poly[k]
           r == poly[IF k = Len(poly) THEN 1 ELSE k + 1]
           sp == Cross(d, VSub(p, c))
           sr == Cross(d, VSub(r, c))
           \* the edge crosses the line at p + (r - p) * sp / (sp - sr)
           m == << p[1] + MulFrac(r[1] - p[1], sp, sr), p[2] + MulFrac(r[2] - p[2], sp, sr) >>
           here == IF sp >= 0 THEN <<p>> ELSE <<>>
           cut == IF (sp > 0 /\ sr < 0) \/ (sp < 0 /\ sr > 0) THEN <<m>> ELSE <<>>
       IN here \o cut \o ClipFrom(poly, k + 1, c, d)

RECURSIVE ClipAll(_, _, _, _)
ClipAll(poly, corners, dirs, k) ==
  IF k > 4 THEN poly ELSE ClipAll(TLCEval(ClipFrom(poly, 1, corners[k], dirs[k])), corners, dirs, k + 1)

RECURSIVE Shoelace(_, _)
Shoelace(poly, k) ==
  IF k > Len(poly) THEN 0
  ELSE Cross(poly[k], poly[IF k = Len(poly) THEN 1 ELSE k + 1]) + Shoelace(poly, k + 1)

(* Bounding circles apart: no need to clip (and keeps the numbers small). *)
Apart(a, b) ==
  LET dx == a.p[1] - b.p[1]
      dy == a.p[2] - b.p[2]
      r == a.s[1] + a.s[2] + b.s[1] + b.s[2]
  IN 2 * Abs(dx) > r \/ 2 * Abs(dy) > r

(* Twice the area of the common part at scale 2 * D, i.e. 8 * D^2 * area. *)
Clipped2(a, b, D) ==
  LET pa == RelCorners(a, a.p, D)
      pb == RelCorners(b, a.p, D)
      d == Along(b)  e == Across(b)
      \* corners 1..4 of b are counter-clockwise: edges -along, -across, along, across
      dirs == << <<-d[1], -d[2]>>, <<-e[1], -e[2]>>, d, e >>
      poly == ClipAll(pa, pb, dirs, 1)
  IN IF Len(poly) < 3 THEN 0 ELSE Shoelace(poly, 1)

(* Thousandths of the common area (rounded down). *)
InterArea(a, b) ==
  IF Apart(a, b) THEN 0
  ELSE LET D == ClipScale(a, b)  v == Clipped2(a, b, D)  n == 8 * D * D IN
       1000 * (v \div n) + (1000 * (v % n)) \div n

(* Twice the height of the common part. *)
InterHeight2(a, b) ==
  Max2(0, Min2(2 * a.p[3] + a.s[3], 2 * b.p[3] + b.s[3])
        - Max2(2 * a.p[3] - a.s[3], 2 * b.p[3] - b.s[3]))

(* Thousandths of the common volume. *)
InterVolume(a, b) == (InterArea(a, b) * InterHeight2(a, b)) \div 2

(* Whether intersection over union exceeds t/1000, from thousandths of the    *)
(* intersection i and the sum u of the areas (or volumes); "?" when it is too *)
(* close for the rounding of i, by less than e.                               *)
RatioAbove(i, u, t, e) ==
  LET l == i + MulDiv(i, t, 1000)      \* i * 1000 > t * (1000 u - i), over 1000
      r == t * u
  IN IF l > r + 2 + 2 * e THEN "yes" ELSE IF l < r - 2 - 2 * e THEN "no" ELSE "?"
=============================================================================
