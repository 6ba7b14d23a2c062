---------------------------- MODULE Trace_System ----------------------------
(* Recorded runs of the whole system against System.  Each recorded step must *)
(* be a step of the specification from the state reached so far.              *)
EXTENDS SessionChecks, System

VARIABLES i, j
tvars == <<i, j, conf, truth, frames>>

(* Positions in the trace: 0 configures, 1 loads, then the operations. *)
TraceInit == i = 1 /\ j = 0 /\ Fresh

Run == Trace[i]
File == Run.c.f
Data == Run.c.d
Out == Run.o
Running == i <= Len(Trace) /\ Run.st = "ok" /\ j <= Len(Out.steps) + 1

(* Thousandths of a metre show a length of den parts. *)
Shows(x, t) == x < 1000000 /\ x * File.den = 1000 * t

GiveUp == i' = i /\ j' = Len(Out.steps) + 2
Onward == i' = i /\ j' = j + 1

TraceConfigure ==
  /\ Running /\ j = 0
  /\ LET v == FileVerdict(File) IN
     /\ Report(Run, Failing("C18.noCrash" :> (Out.conf # "panic")
                            @@ "C18.accepts" :> (v = "ok" => Out.conf = "ok")
                            @@ "C18.rejects" :> (v = "err" => Out.conf = "err")))
     /\ IF Out.conf = "ok" /\ v # "err" THEN Configure(File) /\ Onward
        ELSE UNCHANGED <<conf, truth, frames>> /\ GiveUp

(* The dataset the scenario names is there under its version. *)
Expected == IF ~Run.c.there THEN "no" ELSE Loads(Data)

(* The recorded frames as the evaluation must have seen them. *)
Seen(list) ==
  LET ss == ByTime(Recs(Data, "sample")) IN
  TLCEval([k \in DOMAIN list |->
     [ts |-> list[k].ts,
      objs |-> TLCEval(ObjectsIn(Data, ss[k], [m \in DOMAIN list[k].objs |-> list[k].objs[m].inst], FrameOf(File.frame), File.den))]])

TraceLoad ==
  /\ Running /\ j = 1
  /\ LET want == TLCEval(Expected)
         st == Failing("C15.manager" :> ((want = "yes" => Out.load = "ok") /\ (want = "no" => Out.load = "err"))
                       @@ "C15.noCrash" :> (Out.load # "panic"))
         bad == IF want = "yes" /\ Out.load = "ok"
                THEN TruthFailing(Data, Out.truth, FrameOf(File.frame))
                     \cup Failing("C16.kept" :> Out.kept)
                ELSE {}
     IN /\ Report(Run, st \cup bad)
        /\ IF want = "yes" /\ Out.load = "ok" /\ bad \subseteq {"C16.kept"} /\ Plain(Data)
           THEN LoadTruth(Seen(Out.truth)) /\ Onward
           ELSE UNCHANGED <<conf, truth, frames>> /\ GiveUp

Op == Run.c.ops[j - 1]
Step == Out.steps[j - 1]

LookupFails ==
  LET ok == Allowed(Times, Op.at)  k == Step.k IN
  Failing("C10.unmodified" :> (k = Nothing \/ k \in DOMAIN truth.list)
          @@ "C10.nothing" :> (k = Nothing <=> Nothing \in ok)
          @@ "C10.nearest" :> (k \in DOMAIN truth.list => k \in ok))

TraceFrame ==
  /\ Running /\ j >= 2 /\ Step.op = "frame"
  /\ LET found == LookupFails
         k == Step.k
         input == [e |-> Op.e, g |-> truth.list[k].objs, t |-> truth.list[k].ts]
         bad == IF k \in DOMAIN truth.list THEN AddFails(conf, input, Step) ELSE {}
         usable == k \in DOMAIN truth.list /\ Step.st = "ok" /\ Step.len = Len(frames) + 1
                   /\ InputsOK(conf, Op.e, truth.list[k].objs, Step.fr)
     IN /\ Report(Run, found \cup bad)
        /\ IF found = {} /\ k = Nothing THEN Skip(Op.at) /\ Onward
           ELSE IF found = {} /\ bad = {} THEN Evaluate(Op.at, Op.e, k, Step.fr) /\ Onward
           ELSE IF usable THEN /\ frames' = Append(frames, Entry(Op.e, truth.list[k].objs, Step.fr))
                               /\ UNCHANGED <<conf, truth>>
                               /\ Onward
           ELSE UNCHANGED <<conf, truth, frames>> /\ GiveUp

TraceQuery ==
  /\ Running /\ j >= 2 /\ Step.op = "query"
  /\ AskScores
  /\ Report(Run, QueryFails(conf, Step, Shows))
  /\ Onward

(* The next run starts from nothing. *)
TraceNextRun ==
  /\ i <= Len(Trace) /\ ~Running
  /\ Report(Run, IF Run.st # "ok" THEN {"completes"} ELSE {})
  /\ i' = i + 1 /\ j' = 0
  /\ conf' = NoConf /\ truth' = NotLoaded /\ frames' = <<>>

End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1 /\ UNCHANGED <<j, conf, truth, frames>>

TraceSpec == TraceInit /\ [][TraceConfigure \/ TraceLoad \/ TraceFrame \/ TraceQuery \/ TraceNextRun \/ End]_tvars
=============================================================================
