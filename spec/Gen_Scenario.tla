----------------------------- MODULE Gen_Scenario -----------------------------
(* A plain scenario and every scenario that differs from it in one value or   *)
(* has one fault, and all combinations of the optional limits.                *)
EXTENDS Scenario, Json, IOUtils, SequencesExt

Plain == [fault |-> "", task |-> "detection", frame |-> "base_link", labels |-> <<"car", "bicycle", "pedestrian", "motorbike">>,
          den |-> 4, mx |-> 41, my |-> 23, mp |-> -1, uuids |-> [on |-> FALSE, ids |-> <<>>], tc |-> 4, tp |-> 9, t2 |-> 250, t3 |-> 125,
          sets |-> <<[path |-> "tests/sample_data", version |-> "annotation"]>>, absent |-> "absent"]
Near(s) == {s \o "x", Upper(s), " " \o s, SubSeq(s, 1, Len(s) - 1), s \o " "}
Spellings(sp) == UNION {sp[n] : n \in DOMAIN sp}
Tasks == LET s == Spellings(TaskSpellings) IN s \cup UNION {Near(x) : x \in s} \cup {"", "null", "none", "sensing"}
Frames == LET s == Spellings(FrameSpellings) IN s \cup UNION {Near(x) : x \in s} \cup {"", "null", "lidar", "cam"}
LabelLists == {<<>>, <<"car">>, <<"bus", "car">>, <<"car", "bus">>, <<"pedestrian", "car", "truck", "bus", "bicycle", "motorbike", "animal", "unknown">>,
               <<"vehicle.car", "CAR">>, <<"spaceship", "car">>, <<"Human.Pedestrian.Adult">>}
Optional == {[mp |-> m, uuids |-> u, absent |-> a] : m \in {-1, 0, 1, 5},
               u \in {[on |-> FALSE, ids |-> <<>>], [on |-> TRUE, ids |-> <<>>], [on |-> TRUE, ids |-> <<"a">>], [on |-> TRUE, ids |-> <<"dd", "a">>]},
               a \in {"absent", "null"}}
With(f, v) == [Plain EXCEPT ![f] = v]
Cases == {With("task", t) : t \in Tasks} \cup {With("frame", t) : t \in Frames} \cup {With("labels", l) : l \in LabelLists}
         \cup {[Plain EXCEPT !.mp = o.mp, !.uuids = o.uuids, !.absent = o.absent] : o \in Optional}
         \cup {With("fault", x) : x \in Fatal \cup Minor}
         \cup {With("mx", v) : v \in {0, 1, 40, 4000}} \cup {With("my", v) : v \in {0, 1, 40, 4000}}
         \cup {With("tc", v) : v \in {0, 1, 40}} \cup {With("tp", v) : v \in {0, 1, 40}}
         \cup {With("t2", v) : v \in {0, 500, 1000}} \cup {With("t3", v) : v \in {0, 500, 1000}}
         \cup {With("sets", s) : s \in {<<>>, <<[path |-> "/abs/data", version |-> "v1.0-mini"]>>, <<[path |-> "x", version |-> ""]>>,
                 <<[path |-> "./a b/c.d", version |-> "1"]>>}}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
