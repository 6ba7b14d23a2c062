--------------------------- MODULE Trace_Session ---------------------------
(* Recorded sessions of PerceptionEvaluationManager against Manager and, for  *)
(* several managers at once, Fleet.  Each recorded step must be an AddFrame,  *)
(* Query, Keep, Turn or Fork step of the specification from the state reached so far; the *)
(* manager it belongs to is switched to before.                               *)
EXTENDS SessionChecks, Fleet

VARIABLES i, j
tvars == <<i, j, frames, cur, parked>>

(* The trace has one behaviour: its position identifies the state. *)
Position == <<i, j, cur>>

(* Lengths t are in units of 2^u metres. *)
Shown(x, t) ==
  LET u == Trace[i].c.u IN
  IF t >= Infinite THEN x = 1000000000     \* as the harness writes what has no end
  ELSE IF u >= 0 THEN x = 1000 * t * 2^u
  ELSE 2 * Abs(x * 2^(-u) - 1000 * t) <= 2^(-u)

(* ---- the recorded behaviour ---- *)
Managers(k) == IF k <= Len(Trace) /\ "cfgs" \in DOMAIN Trace[k].c THEN Len(Trace[k].c.cfgs) ELSE 1
TraceInit == /\ i = 1 /\ j = 1
             /\ frames = <<>> /\ cur = 1 /\ parked = [k \in 1..Managers(1) |-> <<>>]

Rec == Trace[i]
Running == i <= Len(Trace) /\ Rec.st = "ok" /\ j <= Len(Rec.o.steps)
Config == IF "cfgs" \in DOMAIN Rec.c THEN Rec.c.cfgs[cur] ELSE Rec.c.cfg
Named(op) == IF "m" \in DOMAIN op THEN op.m ELSE 1
Ready == Running /\ Named(Rec.c.ops[j]) = cur

TraceAdd ==
  /\ Ready /\ Rec.o.steps[j].op = "add"
  /\ LET op == Rec.c.ops[j]
         s == Rec.o.steps[j]
         bad == AddFails(Config, op, s)
         usable == s.st = "ok" /\ s.len = Len(frames) + 1 /\ InputsOK(Config, op.e, op.g, s.fr)
     IN /\ Report(Rec, bad)
        /\ IF bad = {} THEN AddFrame(Config, op.e, op.g, op.t, s.fr)
           ELSE IF usable THEN frames' = Append(frames, Entry(op.e, op.g, s.fr))
           ELSE UNCHANGED frames
        /\ UNCHANGED <<cur, parked>>
        /\ IF usable THEN i' = i /\ j' = j + 1
           ELSE i' = i /\ j' = Len(Rec.o.steps) + 1      \* nothing more can be said

TraceQuery ==
  /\ Ready /\ Rec.o.steps[j].op = "query"
  /\ Query(Config)
  /\ UNCHANGED <<cur, parked>>
  /\ Report(Rec, QueryFails(Config, Rec.o.steps[j], Shown))
  /\ i' = i /\ j' = j + 1

(* The caller rearranges the accumulated frames. *)
TraceKeep == /\ Ready /\ Rec.o.steps[j].op \in {"keep", "turn"}
             /\ IF Rec.o.steps[j].op = "keep" THEN Keep(Rec.c.ops[j].n) ELSE Turn
             /\ UNCHANGED <<cur, parked>>
             /\ i' = i /\ j' = j + 1

TraceSwitch == /\ Running /\ ~Ready
               /\ Switch(Named(Rec.c.ops[j]))
               /\ UNCHANGED <<i, j>>

TraceFork == /\ Ready /\ Rec.o.steps[j].op = "fork"
             /\ Fork(Rec.c.ops[j].to)
             /\ i' = i /\ j' = j + 1

(* The next session starts with a new manager. *)
TraceNextSession ==
  /\ i <= Len(Trace) /\ ~Running
  /\ Report(Rec, IF Rec.st # "ok" THEN {"completes"} ELSE {})
  /\ i' = i + 1 /\ j' = 1 /\ NewFleet(Managers(i + 1))

End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1 /\ UNCHANGED <<j, frames, cur, parked>>

TraceSpec == TraceInit /\ [][TraceAdd \/ TraceQuery \/ TraceKeep \/ TraceSwitch \/ TraceFork \/ TraceNextSession \/ End]_tvars
=============================================================================
