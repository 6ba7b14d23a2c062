---------------------------- MODULE Trace_Filter ----------------------------
(* Calls of filter_objects against Filtering (C05). *)
EXTENDS TraceKit, Filtering

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failing([n \in {"C05.kept"} |-> r.o.kept = Kept(r.c.objs, r.c.gt, r.c.cfg)])

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
