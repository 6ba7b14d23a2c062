----------------------------- MODULE Trace_Names -----------------------------
(* Conversions of names against Labels (C19). *)
EXTENDS TraceKit, Labels

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET want == TLCEval([k \in DOMAIN r.c.names |-> LabelOf(r.c.names[k])])
           o == r.o
       IN Failing("C19.label" :> (o.labels = want)
                  @@ "C19.list" :> (o.whole = want)
                  @@ "C19.shownBack" :> (o.again = o.shown)
                  @@ "C19.objectLabel" :> (o.named = o.shown)
                  @@ "C19.kind" :> (o.kinds = <<TRUE, TRUE, TRUE>>)    \* every task is about 3D objects
                  @@ "C19.task" :> (o.tasks = [k \in DOMAIN r.c.tasks |-> TaskOf(r.c.tasks[k])])
                  @@ "C19.frame" :> (o.frames = [k \in DOMAIN r.c.frames |-> FrameOf(r.c.frames[k])]))

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
