------------------------------ MODULE Filtering ------------------------------
(* Admission of objects to the evaluation (property C05).                     *)
(* A configuration holds the target labels, the exclusive limits of |x| and   *)
(* |y| in lattice units (infinite ones too), the minimum number of points (-1: none) and the      *)
(* list of instance IDs (on = FALSE: none).                                   *)
EXTENDS Common

Admissible(o, isGT, cfg) ==
  /\ o.l \in Range(cfg.labels)
  /\ Abs(o.p[1]) < cfg.mx
  /\ Abs(o.p[2]) < cfg.my
  /\ isGT => /\ (cfg.mp >= 0 /\ o.n >= 0) => o.n >= cfg.mp
             /\ cfg.uuids.on => (o.id # "" /\ o.id \in Range(cfg.uuids.ids))

(* Indices of the kept objects, in input order. *)
Kept(objs, isGT, cfg) ==
  Indices(objs, {k \in DOMAIN objs : Admissible(objs[k], isGT, cfg)})

Filter(objs, isGT, cfg) ==
  LET ks == Kept(objs, isGT, cfg) IN [k \in DOMAIN ks |-> objs[ks[k]]]
=============================================================================
