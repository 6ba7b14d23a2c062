----------------------------- MODULE MC_Geometry -----------------------------
(* Design check of the geometry used as oracle: algebraic laws over all pairs *)
(* of a grid of boxes, quaternions and vectors.                               *)
EXTENDS Geometry, TLC

CONSTANTS Quats, Sizes, Pos, Boxes2
QuatsDef == {<<1,0,0,0>>, <<1,0,0,1>>, <<0,0,0,-1>>, <<2,0,0,1>>, <<1,0,0,-2>>, <<-3,0,0,1>>, <<1,2,0,-1>>}
SizesDef == {<<10, 20, 4>>, <<5, 5, 6>>}
PosDef == {<<x, y, z>> : x \in {-9, 0, 3, 10}, y \in {-12, -1, 8}, z \in {0, 9}}
Boxes2Def == {<<10, 30, 5>>, <<5, 15, 4>>}

VARIABLES a, b
vars == <<a, b>>

Box(p, q, s) == [p |-> p, q |-> q, h |-> -1, s |-> s]
AllBoxes == {Box(p, q, s) : p \in Pos, q \in Quats, s \in Sizes}

NoBox == Box(<<0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 0, 0>>)
Init == /\ a \in {Box(p, q, s) : p \in {<<0, 0, 0>>, <<7, -3, 2>>}, q \in Quats, s \in Sizes}
        /\ b = NoBox
Choose == /\ b = NoBox
          /\ \E p \in Pos, q \in Quats, s \in Boxes2 : b' = Box(p, q, s)
          /\ UNCHANGED a
Next == Choose
Spec == Init /\ [][Next]_vars

V == <<3, -2, 5>>

Rigid ==
  LET m == RotMat(a.q)  n == Norm(a.q) IN
  /\ MatMul(m, Transpose(m)) = <<n*n, 0, 0, 0, n*n, 0, 0, 0, n*n>>
  /\ RotMat(NegQ(a.q)) = m
  /\ RotMat(Conj(a.q)) = Transpose(m)
  /\ RotateInv(Rotate(V, a.q), a.q) = Scale(n * n, V)
Composition ==
  /\ Rotate(Rotate(V, a.q), b.q) = Rotate(V, QMul(b.q, a.q))
  /\ Norm(QMul(b.q, a.q)) = Norm(a.q) * Norm(b.q)
  /\ MatMul(RotMat(b.q), RotMat(a.q)) = RotMat(QMul(b.q, a.q))

Plane ==
  (b # NoBox /\ YawOnly(a.q) /\ YawOnly(b.q)) =>
    /\ Nearest(a) # {} /\ Nearest(b) # {}
    /\ PlaneValues(a, b) = PlaneValues(b, a)
    /\ 0 \in PlaneValues(a, a)
    /\ \A v \in PlaneValues(a, b) : v >= 0

Overlap ==
  (b # NoBox /\ ClipOK(a) /\ ClipOK(b)) =>
    LET i == InterArea(a, b) IN
    /\ Abs(i - InterArea(b, a)) <= 1
    /\ 0 <= i /\ i <= 1000 * Min2(Area(a), Area(b))
    /\ InterArea(a, a) = 1000 * Area(a)
    /\ InterVolume(a, a) = 1000 * Volume(a)
    /\ InterVolume(a, b) <= 1000 * Min2(Volume(a), Volume(b)) + 1000
    /\ InterHeight2(a, b) = InterHeight2(b, a)
    /\ RatioAbove(i, Area(a) + Area(b), 1000, 1) # "yes"
    \* moving both boxes changes nothing
    /\ LET m(o) == [o EXCEPT !.p = VAdd(o.p, <<5, -9, 3>>)] IN Abs(InterArea(m(a), m(b)) - i) <= 1
(* Containment: the midpoint of the two centres lies in both boxes, so they   *)
(* overlap whenever the second centre lies strictly inside the first box.     *)
Contains ==
  (b # NoBox /\ ClipOK(a) /\ ClipOK(b)) =>
    LET d == VSub(b.p, a.p)
        u == Abs(Dot(d, Along(a)))  v == Abs(Dot(d, Across(a)))
        n == AlongLen(a)
    IN (2 * u < a.s[2] * n /\ 2 * v < a.s[1] * n) => InterArea(a, b) > 0
=============================================================================
