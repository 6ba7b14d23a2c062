---------------------------- MODULE Trace_Frame ----------------------------
(* Calls of get_perception_results and PerceptionFrameResult::new against     *)
(* Matching and FrameEval (C01 to C04).                                       *)
(* matched: the results of the matching (or the given ones, match = FALSE);   *)
(* res, tp, fp, fn, gt: the frame built from them.                            *)
EXTENDS TraceKit, FrameEval

WellFormedFrame(c, o) ==
  /\ \A k \in DOMAIN o.tp : o.tp[k] \in DOMAIN o.res
  /\ \A k \in DOMAIN o.fp : o.fp[k] \in DOMAIN o.res

(* Requirements on the results of the matching. *)
MatchFailures(c, o) ==
  IF ~c.match THEN {}
  ELSE LET m == o.matched  ne == Len(c.e)  ng == Len(c.g)
           t == Table(c.e, c.g)
           copies == WellFormed(m, ne, ng)
           once == copies /\ EveryEstimateOnce(m, ne)
       IN IF ~copies THEN {"C01.copies"}
          ELSE Failing("C01.everyEstimateOnce" :> once
                       @@ "C01.groundTruthOnce" :> GroundTruthOnce(m)
                       @@ "C01.sameLabel" :> (copies /\ LabelSafe(m, t))
                       @@ "C02.closestFirst" :> (once => Stable(m, t, ne, ng)))

(* Is the outcome one-to-one (also for given results)? *)
OneToOne(m) == GroundTruthOnce(m) /\ \A j, k \in DOMAIN m : m[j][1] = m[k][1] => j = k

FrameFailures(c, o) ==
  LET m == o.matched
      gtIdx == [k \in DOMAIN c.g |-> k]
  IN IF ~WellFormed(m, Len(c.e), Len(c.g)) THEN {}
     ELSE IF ~WellFormedFrame(c, o) THEN {"C03.listsAreResults"}
     ELSE IF o.res # m THEN {"C04.keepsResults"}
     ELSE Failing(
       "C03.split" :> SplitOK(o.res, o.tp, o.fp, c.e, c.targets)
       @@ "C03.verdicts" :> VerdictsOK(c.mode, o.res, o.tp, o.fp, c.e, c.g, c.targets, c.thr)
       @@ "C03.threshold" :> (\A k \in DOMAIN c.look :
             o.look[k] = IF HasThreshold(c.look[k], c.targets) THEN Threshold(c.look[k], c.targets, c.thr) ELSE -1)
       @@ "C03.resultCorrect" :> (\A k \in DOMAIN m :
             o.correct[k] <=> k \in Range(o.tp))
       @@ "C03.labelCorrect" :> (\A k \in DOMAIN m :
             o.samelabel[k] <=> (m[k][2] # None /\ c.e[m[k][1]].l = c.g[m[k][2]].l))
       @@ "C04.missed" :> (OneToOne(m) => MissedOK(o.res, o.tp, o.fn, gtIdx))
       @@ "C04.keepsGroundTruth" :> (o.gt = gtIdx /\ o.gtt = 1000000)
       @@ "C04.balance" :> (OneToOne(m) => Len(o.tp) + Len(o.fn) = Len(c.g)))

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE MatchFailures(r.c, r.o) \cup FrameFailures(r.c, r.o)

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
