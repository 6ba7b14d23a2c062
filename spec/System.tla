------------------------------- MODULE System -------------------------------
(* The whole system: a configuration built from a scenario file, ground truth *)
(* built from a dataset, frames looked up by time, evaluated and accumulated, *)
(* and scores of what has been accumulated (C05 to C10, C15, C16, C18, C22).  *)
(*                                                                            *)
(* Lengths are parts of a metre, f.den of them as in the scenario file; the   *)
(* dataset is given in quarters of a metre, so f.den is a multiple of 4.      *)
EXTENDS Scenario, TruthChecks, Lookup, Manager

VARIABLES conf,      \* the configuration, or NoConf
          truth      \* the ground-truth frames, or NotLoaded

NoConf == [st |-> "none"]
NotLoaded == [ready |-> FALSE, list |-> <<>>]
Loaded(list) == [ready |-> TRUE, list |-> list]
Fresh == conf = NoConf /\ truth = NotLoaded /\ frames = <<>>

ConfigOf(f) ==
  [labels |-> LabelsIn(f), mx |-> f.mx, my |-> f.my, mp |-> f.mp, uuids |-> f.uuids,
   tc |-> f.tc, tp |-> f.tp, task |-> TaskOf(f.task)]

(* -------- ground truths as the evaluation sees them -------- *)

(* Yaw (see Geometry) of a turn by a multiple of 90 degrees about z. *)
QuarterTurn(q) ==
  LET m == RotMat(q)  n == Norm(q) IN
  CASE m[1] = n -> 24 [] m[4] = n -> 6 [] m[1] = -n -> 12 [] m[4] = -n -> 18

RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN "" ELSE "0" \o Zeros(k - 1)
InstanceText(n) == LET t == ToString(n) IN "1f1f1f1f1f1f1f1f1f1f1f1f" \o Zeros(8 - Len(t)) \o t

(* The object of the annotation a seen from the ego pose e; only quarter      *)
(* turns, so that positions are integers.  They are rounded in being turned:  *)
(* q marks that no estimate is an exact copy of one.                          *)
ObjectOf(d, a, e, ts, frame, den) ==
  LET pos == EgoPos(a, e)  n == Norm(e.q)  k == den \div 4 IN
  [l |-> LabelOf(CategoryOf(d, a)), p |-> [c \in 1..3 |-> k * (pos[c] \div n)],
   q |-> <<0, 0, 0, 0>>, h |-> QuarterTurn(EgoQuat(a, e)), s |-> [c \in 1..3 |-> k * a.s[c]],
   c |-> 1000, n |-> a.pts, id |-> InstanceText(a.inst), t |-> ts, f |-> frame, v |-> <<>>]

AnnotationsAt(d, s) == {r \in Recs(d, "ann") : r.sample = s.t}
EgoAt(d, s) == Rec(d, "ego", (CHOOSE r \in Filling(d, s) : TRUE).ego)

(* The objects of a sample in a given order of instances. *)
ObjectsIn(d, s, insts, frame, den) ==
  [k \in DOMAIN insts |->
     ObjectOf(d, CHOOSE a \in AnnotationsAt(d, s) : a.inst = insts[k], EgoAt(d, s), s.ts, frame, den)]

(* The datasets considered here: an instance is annotated once in a sample,   *)
(* one recording fills it, samples differ in time, turns are quarter turns.   *)
Upright(q) == q[2] = 0 /\ q[3] = 0 /\ (q[1] = 0 \/ q[4] = 0 \/ Abs(q[1]) = Abs(q[4]))
Plain(d) ==
  /\ \A a, b \in Recs(d, "ann") : (a.sample = b.sample /\ a.inst = b.inst) => a = b
  /\ \A s \in Recs(d, "sample") : Cardinality(Filling(d, s)) <= 1
  /\ \A s, z \in Recs(d, "sample") : s.ts = z.ts => s = z
  /\ \A x \in Recs(d, "ann") \cup Recs(d, "ego") : Upright(x.q)

(* All instances of a sample, in any order. *)
InstancesAt(d, s) == IF Filling(d, s) = {} THEN {} ELSE {a.inst : a \in AnnotationsAt(d, s)}
Orders(S) == {o \in [1..Cardinality(S) -> S] : IsInjective(o)}

(* The ground-truth frames a load may produce (times of samples are distinct, *)
(* at most one recording fills a sample).                                     *)
RECURSIVE ByTime(_)
ByTime(S) == IF S = {} THEN <<>>
             ELSE LET s == CHOOSE x \in S : \A y \in S : x.ts <= y.ts IN <<s>> \o ByTime(S \ {s})
FrameOptions(d, s, frame, den) ==
  {[ts |-> s.ts, objs |-> ObjectsIn(d, s, o, frame, den)] : o \in Orders(InstancesAt(d, s))}
RECURSIVE Sequences(_)
Sequences(opts) ==
  IF opts = <<>> THEN {<<>>} ELSE {<<x>> \o t : x \in Head(opts), t \in Sequences(Tail(opts))}
Truths(d, frame, den) ==
  LET ss == ByTime(Recs(d, "sample")) IN Sequences([k \in DOMAIN ss |-> FrameOptions(d, ss[k], frame, den)])

(* -------- actions -------- *)

(* Configuration from a scenario file; a file that says nothing leads nowhere. *)
Configure(f) ==
  /\ conf = NoConf /\ FileVerdict(f) # "err"
  /\ conf' = ConfigOf(f)
  /\ UNCHANGED <<truth, frames>>

(* Loading ground truth, in the frame of the scenario. *)
LoadTruth(list) ==
  /\ conf # NoConf /\ ~truth.ready
  /\ truth' = Loaded(list)
  /\ UNCHANGED <<conf, frames>>

Times == [k \in DOMAIN truth.list |-> truth.list[k].ts]

(* Estimates of the time at are evaluated against the ground truth of that time. *)
Evaluate(at, ests, k, fr) ==
  /\ truth.ready
  /\ TRUE = (k \in Allowed(Times, at) /\ k # Nothing)
  /\ AddFrame(conf, ests, truth.list[k].objs, truth.list[k].ts, fr)
  /\ UNCHANGED <<conf, truth>>

(* There is none: nothing is evaluated. *)
Skip(at) ==
  /\ truth.ready
  /\ TRUE = (Nothing \in Allowed(Times, at))
  /\ UNCHANGED <<conf, truth, frames>>

AskScores == Query(conf) /\ UNCHANGED <<conf, truth>>
=============================================================================
