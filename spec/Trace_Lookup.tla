---------------------------- MODULE Trace_Lookup ----------------------------
(* Calls of get_current_frame (got) and get_frame_ground_truth (via).         *)
EXTENDS TraceKit, Lookup

(* ss: whole seconds added to a time, 0 or at least 10 of them (and up to     *)
(* decades, which is why they are apart).  How far such a frame is does not   *)
(* matter: it is out of reach.                                                *)
Reach == 5000000
TimesOf(c) == TLCEval([k \in DOMAIN c.ts |-> IF c.ss[k] = 0 THEN c.ts[k] ELSE IF c.ss[k] > 0 THEN Reach ELSE -Reach])

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE LET ok == TLCEval(Allowed(TimesOf(r.c), r.c.at)) IN
       Failing("C10.unmodified" :> (r.o.got # -2 /\ r.o.via # -2)
               @@ "C10.nothing" :> (r.o.got = Nothing <=> Nothing \in ok)
               @@ "C10.nearest" :> (r.o.got > 0 => \E k \in ok : k > 0 /\ r.c.ts[k] = r.c.ts[r.o.got] /\ r.c.ss[k] = r.c.ss[r.o.got])
               @@ "C10.manager" :> (r.o.via = r.o.got \/ (r.o.via \in ok /\ r.o.got \in ok)))

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
