---------------------------- MODULE Trace_Dataset ----------------------------
(* Loading of a dataset, its iterators and links, its boxes and ground-truth  *)
(* frames against Dataset and GroundTruth (C15, C16, C17).                    *)
EXTENDS TraceKit, TruthChecks

Tables == {"attribute", "visibility", "category", "sensor", "cs", "ego", "log", "map", "instance", "scene",
           "sample", "ann", "sd"}

(* ---------------- C17 ---------------- *)
LinkRec(list, t) == list[CHOOSE k \in DOMAIN list : list[k].t = t]
Covers(list, S) == Len(list) = Cardinality(S) /\ {list[k].t : k \in DOMAIN list} = S

LinkFailures(d, o) ==
  LET L == o.links
      same(list, table, pred(_, _)) ==
        Covers(list, Toks(d, table)) /\ \A k \in DOMAIN list : pred(Rec(d, table, list[k].t), list[k])
  IN Failing(
    "C17.once" :> (\A t \in Tables : Lists(o.it[t], Toks(d, t)))
    @@ "C17.timeOrder" :> (\A t \in Timed : Lists(o.it[t], Toks(d, t)) => InTimeOrder(d, t, o.it[t]))
    @@ "C17.sample" :> same(L.sample, "sample", LAMBDA r, x :
          x.prev = r.prev /\ x.next = r.next /\ x.scene = r.scene /\ x.ts = r.ts)
    @@ "C17.sampleLists" :> same(L.sample, "sample", LAMBDA r, x :
          Lists(x.anns, AnnsOf(d, r.t)) /\ Lists(x.sds, SdsOf(d, r.t)))
    @@ "C17.annotation" :> same(L.ann, "ann", LAMBDA r, x :
          /\ x.prev = r.prev /\ x.next = r.next /\ x.sample = r.sample /\ x.inst = r.inst
          /\ x.vis = r.vis /\ x.pts = r.pts)
    @@ "C17.attributes" :> same(L.ann, "ann", LAMBDA r, x :
          Len(x.attrs) = Len(r.attrs) /\ \A t \in RangeOf(x.attrs) \cup RangeOf(r.attrs) :
             Cardinality({k \in DOMAIN x.attrs : x.attrs[k] = t}) = Cardinality({k \in DOMAIN r.attrs : r.attrs[k] = t}))
    @@ "C17.sampleData" :> same(L.sd, "sd", LAMBDA r, x :
          /\ x.prev = r.prev /\ x.next = r.next /\ x.sample = r.sample /\ x.ego = r.ego /\ x.cs = r.cs
          /\ x.key = r.key /\ x.sensor = SensorOf(d, r.t))
    @@ "C17.instance" :> same(L.instance, "instance", LAMBDA r, x :
          x.cat = r.cat /\ x.name = Rec(d, "category", r.cat).name)
    @@ "C17.instanceChain" :> same(L.instance, "instance", LAMBDA r, x :
          x.anns = Chain(Links(d, "ann", "next"), r.first, r.n))
    @@ "C17.scene" :> same(L.scene, "scene", LAMBDA r, x : x.log = r.log)
    @@ "C17.sceneChain" :> same(L.scene, "scene", LAMBDA r, x :
          x.samples = Chain(Links(d, "sample", "next"), r.first, r.n))
    @@ "C17.sensor" :> same(L.cs, "cs", LAMBDA r, x : x.sensor = r.sensor)
    @@ "C17.where" :> o.where
    @@ "C17.log" :> same(L.log, "log", LAMBDA r, x : x.open = r.open)
    @@ "C17.map" :> same(L.map, "map", LAMBDA r, x :
          (RangeOf(r.logs) \subseteq Toks(d, "log")) => x.logs = r.logs))

(* ---------------- C16 ---------------- *)
(* The boxes are those of the annotations S, each once, posed by pose(a).     *)
BoxesOK(d, list, S, posed(_, _)) ==
  /\ Covers([k \in DOMAIN list |-> [t |-> list[k].tok]], S)
  /\ \A k \in DOMAIN list : LET x == list[k]  a == Rec(d, "ann", x.tok) IN
       /\ x.inst = a.inst /\ x.pts = a.pts /\ x.name = CategoryOf(d, a)
       /\ posed(x, a)

BoxFailures(d, o) ==
  LET sds == o.raw
      each(pred(_, _)) == \A k \in DOMAIN sds : pred(Rec(d, "sd", sds[k].t), sds[k])
  IN Failing(
    "C16.single" :> (/\ o.single.st = "ok"
                     /\ BoxesOK(d, o.single.list, Toks(d, "ann"), LAMBDA b, a : PoseOK(b, a.p, 1, a.q, a.s)))
    @@ "C16.rawBoxes" :> (/\ Covers(sds, Toks(d, "sd"))
                       /\ each(LAMBDA r, x : x.st = "ok" /\ x.path))
    @@ "C16.global" :> each(LAMBDA r, x : x.st = "ok" => BoxesOK(d, x.global, AnnsOf(d, r.sample),
          LAMBDA b, a : PoseOK(b, a.p, 1, a.q, a.s)))
    @@ "C16.ego" :> each(LAMBDA r, x : x.st = "ok" => BoxesOK(d, x.ego, AnnsOf(d, r.sample),
          LAMBDA b, a : LET e == Rec(d, "ego", r.ego) IN PoseOK(b, EgoPos(a, e), Norm(e.q), EgoQuat(a, e), a.s)))
    @@ "C16.sensor" :> each(LAMBDA r, x : x.st = "ok" => BoxesOK(d, x.sensor, AnnsOf(d, r.sample),
          LAMBDA b, a : LET e == Rec(d, "ego", r.ego)  s == Rec(d, "cs", r.cs) IN
             PoseOK(b, SensorPos(a, e, s), Norm(e.q) * Norm(s.q), SensorQuat(a, e, s), a.s))))

FrameFailures(d, frame, o) == TruthFailing(d, o.frames.list, frame)

(* ---------------- C15 ---------------- *)
Agrees(verdict, st) == (verdict = "yes" => st = "ok") /\ (verdict = "no" => st = "err")

Failures(r) ==
  IF r.st # "ok" THEN {"C15.terminates"}
  ELSE LET d == r.c  o == r.o  want == TLCEval(Loads(d)) IN
    Failing("C15.load" :> Agrees(want, o.load)
            @@ "C15.loadDataset" :> Agrees(want, o.frames.st)
            @@ "C15.noCrash" :> (o.load # "panic" /\ o.frames.st # "panic")
                  @@ "C15.complete" :> (o.load = "ok" /\ FilesOK(d) => "sample" \in DOMAIN o.it /\ \A t \in Tables : Lists(o.it[t], Toks(d, t))))
    \cup (IF want # "yes" \/ ~d.deep \/ o.load # "ok" THEN {}
          ELSE (IF o.sts # "ok" THEN {"C17.follows"} ELSE LinkFailures(d, o))
               \cup (IF o.stb # "ok" THEN {"C16.boxes"} ELSE BoxFailures(d, o))
               \cup (IF o.frames.st # "ok" THEN {"C16.loads"} ELSE FrameFailures(d, d.frame, o)))

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
