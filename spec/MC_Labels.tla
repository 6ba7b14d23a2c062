----------------------------- MODULE MC_Labels ------------------------------
(* Design check of the tables: every name in every simple letter case.        *)
EXTENDS Labels
VARIABLES name, steps
vars == <<name, steps>>
Init == name \in KnownNames /\ steps = 0
(* Any single letter changes its case. *)
Flip(s, k) ==
  LET c == CharAt(s, k)
      d == IF Upper(c) = c THEN Lower(c) ELSE Upper(c)
  IN SubSeq(s, 1, k - 1) \o d \o SubSeq(s, k + 1, Len(s))
Next == /\ steps = 0
        /\ \E k \in 1..Len(name) : name' = Flip(name, k)
        /\ steps' = 1
Spec == Init /\ [][Next]_vars

OneLabel == LabelOf(name) \in EvalLabels
CaseIsIgnored == [][LabelOf(name') = LabelOf(name)]_vars
LabelsShowThemselves == \A l \in EvalLabels : LabelOf(l) = l
TasksUnique == \A a, b \in DOMAIN TaskSpellings : a # b => TaskSpellings[a] \cap TaskSpellings[b] = {}
FramesUnique == \A a, b \in DOMAIN FrameSpellings : a # b => FrameSpellings[a] \cap FrameSpellings[b] = {}
ShownIsAccepted == /\ \A a \in DOMAIN TaskSpellings : TaskOf(a) = a
                   /\ \A a \in DOMAIN FrameSpellings : FrameOf(a) = a
Disjoint == Cardinality(KnownNames) =
  Cardinality(CarNames) + Cardinality(TruckNames) + Cardinality(BusNames) + Cardinality(BicycleNames)
  + Cardinality(MotorbikeNames) + Cardinality(PedestrianNames) + Cardinality(AnimalNames) + Cardinality(UnknownNames)
=============================================================================
