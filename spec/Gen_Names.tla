------------------------------ MODULE Gen_Names ------------------------------
(* Every known name in several letter cases, and every name that differs from *)
(* a known one in one place; the same for tasks and frames.                   *)
EXTENDS Labels, Json, IOUtils, SequencesExt
CONSTANT Odd
OddDef == {"", " ", "x", "car ", " car", "vehicle", "vehicle.", "pedestrian.", "human", "cars", "wheelchair", "static_object",
           "CAR.VEHICLE", "vehicle car", "vehicle.car.", "carr", "true", "null", "0"}
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Doubled(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k, Len(s))
Swapped(s, k) == SubSeq(s, 1, k - 1) \o CharAt(s, k + 1) \o CharAt(s, k) \o SubSeq(s, k + 2, Len(s))
RECURSIVE AlterTo(_, _)
AlterTo(s, k) == IF k = 0 THEN "" ELSE AlterTo(s, k - 1) \o (IF k % 2 = 0 THEN Upper(CharAt(s, k)) ELSE CharAt(s, k))
Cases1(s) == {s, Upper(s), Lower(s), Upper(CharAt(s, 1)) \o SubSeq(s, 2, Len(s)), AlterTo(s, Len(s))}
Near(s) == {Without(s, k) : k \in 1..Len(s)} \cup {Doubled(s, k) : k \in 1..Len(s)}
           \cup {Swapped(s, k) : k \in 1..(Len(s) - 1)} \cup {s \o " ", " " \o s, s \o "s", "_" \o s}
(* Other separators between the words. *)
Marks == {".", "_", " ", "-", "/", "&", "(", ")", ":"}
RECURSIVE EachTo(_, _, _, _)
EachTo(s, k, a, b) == IF k = 0 THEN "" ELSE EachTo(s, k - 1, a, b) \o (IF CharAt(s, k) = a THEN b ELSE CharAt(s, k))
Respelt(s) == {EachTo(s, Len(s), a, b) : a \in Marks, b \in Marks \cup {"", "  "}}
              \cup {SubSeq(s, 1, k - 1) \o b \o SubSeq(s, k + 1, Len(s)) : k \in {j \in 1..Len(s) : CharAt(s, j) \in Marks}, b \in Marks}
Names == UNION {Respelt(s) : s \in KnownNames} \cup UNION {Cases1(s) : s \in KnownNames \cup EvalLabels} \cup UNION {Near(s) : s \in KnownNames} \cup Odd
Spelt(t) == UNION {UNION {Cases1(s) \cup Near(s) \cup Respelt(s) : s \in t[n]} : n \in DOMAIN t} \cup Odd
Cases == {[what |-> "name", text |-> s] : s \in Names}
         \cup {[what |-> "task", text |-> s] : s \in Spelt(TaskSpellings)}
         \cup {[what |-> "frame", text |-> s] : s \in Spelt(FrameSpellings)}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
