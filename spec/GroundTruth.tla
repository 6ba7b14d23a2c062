----------------------------- MODULE GroundTruth -----------------------------
(* Ground-truth frames of a consistent dataset and boxes of its recordings    *)
(* (property C16).  Positions are lattice units, orientations integer         *)
(* quaternions; results are exact rationals <<numerators, denominator>>.      *)
EXTENDS Dataset, Geometry, Labels

(* Position and orientation of an annotation in the ego frame of a recording: *)
(* inverse translation, then inverse rotation.                                *)
EgoPos(a, e) == RotateInv(VSub(a.p, e.p), e.q)            \* times Norm(e.q)
EgoQuat(a, e) == QMul(Conj(e.q), a.q)

(* ... and from there in the frame of its sensor. *)
SensorPos(a, e, s) == RotateInv(VSub(EgoPos(a, e), Scale(Norm(e.q), s.tr)), s.q)   \* times Norm(e.q) * Norm(s.q)
SensorQuat(a, e, s) == QMul(Conj(s.q), EgoQuat(a, e))

(* The recordings that fill the frame of a sample: lidar at its own time.     *)
Filling(d, s) ==
  {r \in Recs(d, "sd") : /\ r.sample = s.t
                         /\ Rec(d, "sensor", SensorOf(d, r.t)).mod = "lidar"
                         /\ r.ts = s.ts}

CategoryOf(d, a) == Rec(d, "category", Rec(d, "instance", a.inst).cat).name
=============================================================================
