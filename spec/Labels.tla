------------------------------- MODULE Labels -------------------------------
(* Names of categories, tasks and coordinate frames (property C19).           *)
(* The tables are part of the specification; they are not derived from the    *)
(* implementation at check time.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EvalLabels == {"Unknown", "Car", "Truck", "Bus", "Bicycle", "Motorbike", "Pedestrian", "Animal"}

CarNames == {
  "car",
  "vehicle.car",
  "vehicle.construction",
  "vehicle.emergency (ambulance & police)",
  "vehicle.police",
  "vehicle.fire",
  "vehicle.ambulance"}
TruckNames == {
  "truck",
  "vehicle.truck",
  "trailer",
  "vehicle.trailer"}
BusNames == {
  "bus",
  "vehicle.bus",
  "vehicle.bus (bendy & rigid)",
  "vehicle.bus.rigid",
  "vehicle.bus.bendy"}
BicycleNames == {
  "bicycle",
  "vehicle.bicycle"}
MotorbikeNames == {
  "motorbike",
  "vehicle.motorcycle"}
PedestrianNames == {
  "pedestrian",
  "pedestrian.adult",
  "pedestrian.child",
  "pedestrian.construction_worker",
  "pedestrian.personal_mobility",
  "pedestrian.police_officer",
  "pedestrian.stroller",
  "pedestrian.wheelchair",
  "human.pedestrian.adult",
  "human.pedestrian.child",
  "human.pedestrian.construction_worker",
  "human.pedestrian.personal_mobility",
  "human.pedestrian.police_officer",
  "human.pedestrian.stroller",
  "human.pedestrian.wheelchair"}
AnimalNames == {
  "animal"}
UnknownNames == {
  "unknown",
  "movable_object.barrier",
  "movable_object.debris",
  "movable_object.pushable_pullable",
  "movable_object.trafficcone",
  "movable_object.traffic_cone",
  "static_object.bicycle_rack",
  "static_object.bollard"}

KnownNames == CarNames \cup TruckNames \cup BusNames \cup BicycleNames \cup MotorbikeNames
              \cup PedestrianNames \cup AnimalNames \cup UnknownNames

(* -------- letters -------- *)
UpperLetters == << "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z" >>
LowerLetters == << "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z" >>
Letter(c, from, to) ==
  IF \E k \in 1..26 : from[k] = c THEN to[CHOOSE k \in 1..26 : from[k] = c] ELSE c
CharAt(s, k) == SubSeq(s, k, k)
RECURSIVE MapTo(_, _, _, _)
MapTo(s, from, to, k) ==
  IF k = 0 THEN "" ELSE MapTo(s, from, to, k - 1) \o Letter(CharAt(s, k), from, to)
Lower(s) == MapTo(s, UpperLetters, LowerLetters, Len(s))
Upper(s) == MapTo(s, LowerLetters, UpperLetters, Len(s))

(* -------- meaning of a category name -------- *)
LabelOf(name) ==
  LET n == Lower(name) IN
  CASE n \in CarNames -> "Car"
    [] n \in TruckNames -> "Truck"
    [] n \in BusNames -> "Bus"
    [] n \in BicycleNames -> "Bicycle"
    [] n \in MotorbikeNames -> "Motorbike"
    [] n \in PedestrianNames -> "Pedestrian"
    [] n \in AnimalNames -> "Animal"
    [] OTHER -> "Unknown"

(* -------- tasks and frames: name -> spellings -------- *)
TaskSpellings == [Detection |-> {"Detection", "detection"},
                  Tracking |-> {"Tracking", "tracking"},
                  Prediction |-> {"Prediction", "prediction"}]
FrameSpellings == [
  BaseLink |-> {"BaseLink", "base_link"},
  Map |-> {"Map", "map"},
  CamBack |-> {"CamBack", "cam_back"},
  CamBackLeft |-> {"CamBackLeft", "cam_back_left"},
  CamBackRight |-> {"CamBackRight", "cam_back_right"},
  CamFront |-> {"CamFront", "cam_front"},
  CamFrontLeft |-> {"CamFrontLeft", "cam_front_left"},
  CamFrontRight |-> {"CamFrontRight", "cam_front_right"},
  CamTrafficLightNear |-> {"CamTrafficLightNear", "cam_traffic_light_near"},
  CamTrafficLightFar |-> {"CamTrafficLightFar", "cam_traffic_light_far"}]

Named(spellings, text) ==
  LET hits == {n \in DOMAIN spellings : text \in spellings[n]}
  IN IF hits = {} THEN "error" ELSE CHOOSE n \in hits : TRUE
TaskOf(text) == Named(TaskSpellings, text)
FrameOf(text) == Named(FrameSpellings, text)
=============================================================================
