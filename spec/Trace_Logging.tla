--------------------------- MODULE Trace_Logging ---------------------------
(* Histories of configurations and messages against Logging (C23): how each   *)
(* configuration ended, and what the log of each directory holds at the end.  *)
EXTENDS TraceKit, Logging

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET ops == r.c.ops
           dirs == {r.c.dirs[k] : k \in DOMAIN r.c.dirs}
           want == TLCEval(After(Start(dirs), ops, 1))
       IN Failing(
         "C23.accepts" :> (\A k \in DOMAIN ops : ops[k].op = "emit" \/ (r.o.sts[k] = IF ops[k].usable THEN "ok" ELSE "err"))
         @@ "C23.messages" :> (\A k \in DOMAIN r.c.dirs :
               LET got == r.o.files[k]  w == want.files[r.c.dirs[k]] IN
               [n \in DOMAIN got |-> got[n].m] = [n \in DOMAIN w |-> w[n].m])
         @@ "C23.whole" :> (\A k \in DOMAIN r.c.dirs : \A n \in DOMAIN r.o.files[k] : r.o.files[k][n].whole)
         @@ "C23.levels" :> (\A k \in DOMAIN r.c.dirs : \A n \in DOMAIN r.o.files[k] :
               \A j \in DOMAIN ops : ops[j].op = "emit" /\ ops[j].m = r.o.files[k][n].m => r.o.files[k][n].lv = ops[j].lv))

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
