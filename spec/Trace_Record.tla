----------------------------- MODULE Trace_Record ----------------------------
(* Reading, writing and reading again of records, and parsing of tokens,      *)
(* against Records (C20).                                                     *)
EXTENDS TraceKit, Records

TokenFailures(c, o) ==
  LET want == TLCEval([k \in DOMAIN c.texts |-> IF IsToken(c.texts[k]) THEN Lower(c.texts[k]) ELSE "error"])
  IN Failing("C20.longToken" :> (o.long = want) @@ "C20.shortToken" :> (o.short = want))

RecordFailures(c, o) ==
  LET nulls == {c.nulls[k] : k \in DOMAIN c.nulls} IN
  IF ~Readable(c.table, c.w, nulls) THEN Failing("C20.rejects" :> (o.st = "err"))
  ELSE IF o.st # "ok" THEN {"C20.reads"}
  ELSE LET want == Read(c.table, c.w, nulls)
           bad == {f \in DOMAIN Schema[c.table] : o.f[f] # want[f]}
       IN Failing("C20.fields" :> (bad = {}) @@ "C20.roundTrip" :> o.back)

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE IF r.c.k = "tokens" THEN TokenFailures(r.c, r.o) ELSE RecordFailures(r.c, r.o)

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
