----------------------------- MODULE Trace_Config -----------------------------
(* Configurations built from scenario files, one after the other in one       *)
(* process, against Scenario (C18).                                           *)
EXTENDS TraceKit, Scenario

FileFailures(f, o) ==
  LET v == FileVerdict(f) IN
  Failing("C18.noCrash" :> (o.st # "panic")
          @@ "C18.accepts" :> (v = "ok" => o.st = "ok")
          @@ "C18.rejects" :> (v = "err" => o.st = "err"))
  \cup
  (IF o.st # "ok" \/ v # "ok" THEN {}
   ELSE Failing(
     "C18.dataset" :> (\E k \in DOMAIN f.sets : o.dataset = f.sets[k].path /\ o.version = f.sets[k].version)
     @@ "C18.task" :> (o.task = TaskOf(f.task))
     @@ "C18.frame" :> (o.frame = FrameOf(f.frame))
     @@ "C18.directories" :> (o.result = f.dir /\ o.log = f.dir \o "/log" /\ o.viz = f.dir \o "/visualize")
     @@ "C18.rawData" :> (o.raw = f.raw)
     @@ "C18.groundTruthLimits" :> (o.gts = Kept(f.probes, TRUE, Limits(f)))
     @@ "C18.estimateLimits" :> (o.ests = Kept(f.probes, FALSE, Limits(f)))
     @@ "C18.thresholds" :> (\A m \in {"center", "plane"} : \E k \in DOMAIN o.sections :
            /\ o.sections[k].mode = m
            /\ o.sections[k].labels = LabelsIn(f)
            /\ o.sections[k].thr = PerLabel(f, Thousandths(f, IF m = "center" THEN f.tc ELSE f.tp)))
     @@ "C18.overlapThresholds" :> (o.seen => o.i2 = PerLabel(f, 1000 * f.t2) /\ o.i3 = PerLabel(f, 1000 * f.t3))
     @@ "C18.distanceThresholds" :> (o.seen => o.cd = PerLabel(f, Millionths(f, f.tc)) /\ o.pd = PerLabel(f, Millionths(f, f.tp)))))

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE UNION {FileFailures(r.c.files[k], r.o.out[k]) : k \in DOMAIN r.c.files}

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
