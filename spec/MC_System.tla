------------------------------ MODULE MC_System ------------------------------
(* Design check of the whole system in a small world: scenario files (good    *)
(* and bad), a dataset of two samples and two instances seen from poses that  *)
(* differ by quarter turns, lookups around the limits, estimates near and far *)
(* from the ground truth, score requests at any point.                        *)
EXTENDS System

CONSTANTS MaxFrames, Ats, Files, EstLists

VARIABLES file, asked        \* the scenario file; the time of the last evaluation (or -1)
vars == <<file, conf, truth, frames, asked>>

R(t) == [t |-> t]
World ==
  [files |-> [sample |-> "ok", ann |-> "ok"],
   tables |-> [
     attribute |-> <<>>, visibility |-> <<>>, map |-> <<>>,
     category |-> <<[t |-> 1, name |-> "vehicle.car"], [t |-> 2, name |-> "bus"]>>,
     sensor |-> <<[t |-> 1, mod |-> "lidar"], [t |-> 2, mod |-> "camera"]>>,
     cs |-> <<[t |-> 1, sensor |-> 1, q |-> <<1, 0, 0, 0>>, tr |-> <<0, 0, 0>>],
              [t |-> 2, sensor |-> 2, q |-> <<1, 0, 0, 0>>, tr |-> <<0, 0, 0>>]>>,
     ego |-> <<[t |-> 1, ts |-> 0, q |-> <<1, 0, 0, 1>>, p |-> <<4, 0, 0>>],
               [t |-> 2, ts |-> 100000, q |-> <<0, 0, 0, 1>>, p |-> <<8, 4, 0>>]>>,
     log |-> <<R(1)>>,
     scene |-> <<[t |-> 1, log |-> 1, n |-> 2, first |-> 1, last |-> 2]>>,
     sample |-> <<[t |-> 1, ts |-> 0, scene |-> 1, prev |-> 0, next |-> 2],
                  [t |-> 2, ts |-> 100000, scene |-> 1, prev |-> 1, next |-> 0]>>,
     instance |-> <<[t |-> 1, cat |-> 1, n |-> 2, first |-> 1, last |-> 2],
                    [t |-> 2, cat |-> 2, n |-> 1, first |-> 3, last |-> 3]>>,
     ann |-> <<[t |-> 1, sample |-> 1, inst |-> 1, attrs |-> <<>>, vis |-> 0, p |-> <<4, 8, 0>>, q |-> <<1, 0, 0, 1>>,
                s |-> <<2, 4, 2>>, pts |-> 3, prev |-> 0, next |-> 2],
               [t |-> 2, sample |-> 2, inst |-> 1, attrs |-> <<>>, vis |-> 0, p |-> <<4, 4, 0>>, q |-> <<1, 0, 0, 0>>,
                s |-> <<2, 4, 2>>, pts |-> 3, prev |-> 1, next |-> 0],
               [t |-> 3, sample |-> 2, inst |-> 2, attrs |-> <<>>, vis |-> 0, p |-> <<8, 12, 0>>, q |-> <<1, 0, 0, 0>>,
                s |-> <<3, 9, 3>>, pts |-> 0, prev |-> 0, next |-> 0]>>,
     sd |-> <<[t |-> 1, sample |-> 1, ego |-> 1, cs |-> 1, ts |-> 0, key |-> TRUE, prev |-> 0, next |-> 0],
              [t |-> 2, sample |-> 2, ego |-> 2, cs |-> 1, ts |-> 100000, key |-> TRUE, prev |-> 0, next |-> 0],
              [t |-> 3, sample |-> 2, ego |-> 1, cs |-> 2, ts |-> 100000, key |-> TRUE, prev |-> 0, next |-> 0]>>]]

File(fault, task, labels, mp) ==
  [fault |-> fault, task |-> task, frame |-> "base_link", labels |-> labels, den |-> 4, mx |-> 41, my |-> 41, mp |-> mp,
   uuids |-> [on |-> FALSE, ids |-> <<>>], tc |-> 3, tp |-> 5, t2 |-> 500, t3 |-> 500,
   sets |-> <<[path |-> "d", version |-> "v"]>>]
FilesDef == { File("", "detection", <<"car">>, -1), File("", "Detection", <<"bus", "car", "vehicle.car">>, 1),
              File("", "tracking", <<"car">>, -1), File("no frame_id", "detection", <<"car">>, -1),
              File("", "sensing", <<"car">>, -1) }
AtsDef == {-75000, -74000, 0, 49999, 50000, 150000, 174999, 175000}

Est(l, x, y, h, c) ==
  [l |-> l, p |-> <<x, y, 0>>, q |-> <<1, 0, 0, 0>>, h |-> h, s |-> <<2, 4, 2>>, c |-> c, n |-> -1,
   id |-> "", t |-> 0, f |-> "BaseLink", v |-> <<>>]
EstListsDef == { <<>>, <<Est("Car", 8, 0, 24, 900)>>, <<Est("Car", 5, 0, 12, 700), Est("Bus", 0, -8, 12, 600)>> }

Init == file \in Files /\ Fresh /\ asked = -1

ReadFile == Configure(file) /\ UNCHANGED <<file, asked>>
ReadData == /\ Loads(World) # "no"
            /\ \E list \in Truths(World, FrameOf(file.frame), file.den) : LoadTruth(list)
            /\ UNCHANGED <<file, asked>>
Feed ==
  /\ truth.ready /\ Len(frames) < MaxFrames
  /\ \E at \in Ats, e \in EstLists, k \in DOMAIN truth.list :
       /\ TRUE = (k \in Allowed(Times, at))
       /\ \E fr \in FramesFor(conf, e, truth.list[k].objs, truth.list[k].ts) : Evaluate(at, e, k, fr)
       /\ asked' = at
  /\ UNCHANGED file
Pass == \E at \in Ats : Skip(at) /\ UNCHANGED <<file, asked>>
Ask == truth.ready /\ QueryStatus(conf) = "ok" /\ AskScores /\ UNCHANGED <<file, asked>>
Next == ReadFile \/ ReadData \/ Feed \/ Pass \/ Ask
Spec == Init /\ [][Next]_vars

(* The world is consistent. *)
ASSUME Loads(World) = "yes" /\ Plain(World)

(* Nothing is evaluated without a configuration and ground truth.             *)
InOrderOfSetup ==
  /\ truth.ready => conf # NoConf
  /\ frames # <<>> => truth.ready
  /\ conf # NoConf => FileVerdict(file) # "err"

(* Every accumulated frame is a ground-truth frame, and the last one is less  *)
(* than 75 ms (and a part of one) from the time asked for.                    *)
FromTruth ==
  \A n \in DOMAIN frames : \E k \in DOMAIN truth.list :
    /\ frames[n].g = truth.list[k].objs /\ frames[n].fr.gtt = truth.list[k].ts
    /\ n = Len(frames) => Abs(truth.list[k].ts - asked) < 75000 + 1000

(* ... and none of the other frames is nearer, in whole milliseconds. *)
NearestUsed ==
  frames # <<>> => \A k \in DOMAIN truth.list :
    Abs(Milli(truth.list[k].ts) - Milli(asked)) >= Abs(Milli(frames[Len(frames)].fr.gtt) - Milli(asked))

(* The same world object keeps its instance, label and size, wherever it is   *)
(* seen from, and every annotation of a sample is seen.                       *)
SameObject ==
  truth.ready =>
    /\ \A j, k \in DOMAIN truth.list : \A x \in Range(truth.list[j].objs), y \in Range(truth.list[k].objs) :
         x.id = y.id => x.l = y.l /\ x.s = y.s
    /\ [k \in DOMAIN truth.list |-> Len(truth.list[k].objs)] = <<1, 2>>

(* Seen from the vehicle: ahead in both samples, turned by the difference.    *)
Seen ==
  truth.ready =>
    LET car(k) == CHOOSE x \in Range(truth.list[k].objs) : x.l = "Car" IN
    /\ car(1).p = <<8, 0, 0>> /\ car(1).h = 24
    /\ car(2).p = <<4, 0, 0>> /\ car(2).h = 12

Balance ==
  \A k \in DOMAIN frames : LET f == frames[k].fr IN Len(f.tp) + Len(f.fn) = Len(f.gt)
InRange ==
  truth.ready => \A m \in {"center", "plane"} : LET s == Scores(conf, m) IN
    \A k \in DOMAIN s : LET e == s[k].n + 2 IN
      /\ s[k].ap = NotANumber \/ s[k].ap \in 0..One + e
      /\ s[k].aph = NotANumber \/ s[k].aph \in 0..s[k].ap + e
(* Two names of one label ask for the same score. *)
SameLabelSameScore ==
  truth.ready => \A m \in {"center", "plane"} : LET s == Scores(conf, m) IN
    \A j, k \in DOMAIN s : conf.labels[j] = conf.labels[k] => s[j] = s[k]

(* The configuration and the ground truth never change once they are there.   *)
Settled == [][(conf # NoConf => conf' = conf) /\ (truth.ready => truth' = truth)]_vars
=============================================================================
