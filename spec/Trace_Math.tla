---------------------------- MODULE Trace_Math ----------------------------
(* Rigid transforms against the integer algebra of Geometry (C13), and Euler  *)
(* angles of quaternions (C14).  Observations are hundred-thousandths.        *)
EXTENDS TraceKit, Geometry

S == 100000
(* x / n as hundred-thousandths, for |x| small: rounded, either sign *)
Sc(x, n) == IF x >= 0 THEN LongDiv(x, n, 5) ELSE -LongDiv(-x, n, 5)
ScV(v, n) == TLCEval([k \in DOMAIN v |-> Sc(v[k], n)])
Near(x, y) == Abs(x - y) <= 2
(* The components obs are those of x; x is given in hundred-thousandths. *)
Is(obs, x) == Len(obs) = Len(x) /\ \A k \in DOMAIN x : Near(obs[k], x[k])
Vec(obs, v, n) == Is(obs, ScV(v, n))
Unit(x) == Near(x, S)

(* ---- small turns: q1 = <<n, k>> with n large turns v by (2/n) k x v, up to ---- *)
(* terms of the second order, which are below the observed digits.                *)
Tiny(c) == Abs(c.q1[1]) >= 10000
Rd(x, n) == IF x >= 0 THEN (x + n \div 2) \div n ELSE -((n \div 2 - x) \div n)
Axis(q) == LET s == Sign(q[1]) IN <<s * q[2], s * q[3], s * q[4]>>
CrossP(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
TinyTurn(v, q, s) ==
  LET d == CrossP(Axis(q), v) IN TLCEval([k \in 1..3 |-> S * v[k] + s * Rd(2 * S * d[k], Abs(q[1]))])
TinyMat(q, s) ==
  LET d(k) == s * Rd(2 * S * Axis(q)[k], Abs(q[1])) IN
  <<S, -d(3), d(2), d(3), S, -d(1), -d(2), d(1), S>>
(* The matrix of a quarter or half turn (an integer one). *)
Quarter(q) == TLCEval([k \in 1..9 |-> RotMat(q)[k] \div Norm(q)])

(* Expected values in hundred-thousandths for q1 first, then q2 (s = 1) or    *)
(* back by q2 (s = -1).                                                       *)
Mat1(c) == IF Tiny(c) THEN TinyMat(c.q1, 1) ELSE ScV(RotMat(c.q1), Norm(c.q1))
Turned1(c, s) ==
  IF Tiny(c) THEN TinyTurn(c.v, c.q1, s)
  ELSE ScV(IF s = 1 THEN Rotate(c.v, c.q1) ELSE RotateInv(c.v, c.q1), Norm(c.q1))
Q2(c, s) == IF s = 1 THEN c.q2 ELSE Conj(c.q2)
Mat12(c, s) ==
  IF Tiny(c) THEN MatMul(Quarter(Q2(c, s)), TinyMat(c.q1, 1))
  ELSE ScV(RotMat(QMul(Q2(c, s), c.q1)), Norm(c.q1) * Norm(c.q2))
Turned12(c) ==
  IF Tiny(c) THEN MatVec(Quarter(c.q2), TinyTurn(c.v, c.q1, 1))
  ELSE ScV(Rotate(Rotate(c.v, c.q1), c.q2), Norm(c.q1) * Norm(c.q2))
Turned2(c, s) == ScV(Rotate(c.v, Q2(c, s)), Norm(c.q2))
RawInverse(c) ==
  IF Tiny(c) THEN <<Rd(S, Abs(c.q1[1])) * Sign(c.q1[1]), 0, 0, 0>> ELSE ScV(Conj(c.q1), Norm(c.q1))

(* A box at v turned by q1 and what else it carries, moved by w and q2. *)
BoxAt(b, p, m) == b.rest /\ Is(b.p, p) /\ Is(b.r, m)
BoxMovesOK(o, c) ==
  LET at(x) == ScV(x, 1)  m1 == Mat1(c)  v == c.v  w == c.w IN
  /\ BoxAt(o.to, at(VAdd(v, w)), m1) /\ Is(o.gto, at(VAdd(v, w)))
  /\ BoxAt(o.fro, at(VSub(v, w)), m1) /\ Is(o.gfro, at(VSub(v, w)))
  /\ BoxAt(o.tofro, at(v), m1) /\ BoxAt(o.turnback, at(v), m1) /\ BoxAt(o.still, at(v), m1)
  /\ BoxAt(o.turn, Turned2(c, 1), Mat12(c, 1))
  /\ BoxAt(o.unturn, Turned2(c, -1), Mat12(c, -1))

(* The sine of the pitch of q1 is 2 * SinP / Norm(q1). *)
SinP(q) == q[1] * q[3] - q[2] * q[4]
Upright(c) == ~Tiny(c) /\ 2 * Abs(SinP(c.q1)) = Norm(c.q1)

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET c == r.c  v == c.v  w == c.w  o == r.o
           m1 == TLCEval(Mat1(c))
       IN Failing(
         "C13.matrix" :> Is(o.mat, m1)
         @@ "C13.rotate" :> Is(o.rot, Turned1(c, 1))
         @@ "C13.rotateInverse" :> Is(o.irot, Turned1(c, -1))
         @@ "C13.undoesRotation" :> (Vec(o.back, v, 1) /\ Vec(o.forth, v, 1))
         @@ "C13.inverseQuaternion" :> (Is(o.inv, Transpose(m1)) /\ Unit(o.invn))
         @@ "C13.anyInverse" :> Is(o.rawinv, RawInverse(c))      \* of the quaternion as it is, not scaled to length 1
         @@ "C13.composition" :> (Is(o.comp, Mat12(c, 1)) /\ Unit(o.compn))
         @@ "C13.composedRotation" :> (Is(o.vcomp, Turned12(c)) /\ Is(o.vtwice, Turned12(c)))
         @@ "C13.inverseComposition" :> (Is(o.icomp, Mat12(c, -1)) /\ Unit(o.icompn))
         @@ "C13.undoesComposition" :> (Is(o.undo, m1) /\ Is(o.redo, m1))
         @@ "C13.translate" :> (Vec(o.add, VAdd(v, w), 1) /\ Vec(o.sub, VSub(v, w), 1) /\ Vec(o.addsub, v, 1))
         @@ "C13.box" :> BoxMovesOK(o.box, c)
         @@ "C14.euler" :> (\A k \in 1..9 : Abs(o.euler[k] - m1[k]) <= (IF Upright(c) THEN 50 ELSE 2))
         @@ "C14.pitch" :> (/\ Abs(o.pitch) <= 157081
                            /\ Upright(c) => Abs(o.pitch - Sign(SinP(c.q1)) * 157080) <= 20)
         @@ "C14.distance" :> (c.wide \/ (Near(o.dist, 100 * SqDist(v, w)) /\ Near(o.distb, 100 * SqDistBev(v, w)))))

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
