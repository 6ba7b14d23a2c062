------------------------------- MODULE Scenario -------------------------------
(* Scenario files and the configuration they describe (property C18).         *)
(*                                                                            *)
(* A file has a fault ("" for none) and the values written in it: names of    *)
(* task and frame, category names of the labels, limits mx and my (in parts *)
(* of a metre: den of them), the optional point limit mp (-1: absent or null), *)
(* the optional instance IDs, thresholds tc, tp (in the same parts of a metre) *)
(* and t2, t3 (thousandths) and its datasets.  Lengths may be infinite.        *)
EXTENDS Filtering, Labels

(* Faults after which the file does not describe an evaluation.               *)
Fatal == {"missing", "directory", "empty", "garbled", "list", "binary",
          "no Evaluation", "no Datasets", "no PerceptionEvaluationConfig", "no evaluation_config_dict", "no Version",
          "empty dataset", "null datasets",
          "no evaluation_task", "no frame_id", "no target_labels", "no max_x_position", "no max_y_position",
          "no center_distance_threshold", "no plane_distance_threshold", "no iou_2d_threshold", "no iou_3d_threshold",
          "text max_x_position", "text max_y_position", "text center_distance_threshold", "text plane_distance_threshold",
          "text iou_2d_threshold", "text iou_3d_threshold", "text target_labels", "text min_point_number", "text target_uuids",
          "negative min_point_number", "fraction min_point_number"}
(* Faults in parts that the configuration does not use: either answer is right. *)
Minor == {"no ScenarioName", "no SensorModel", "no Conditions", "no VehicleId", "no LocalMapPath", "no ScenarioFormatVersion"}

FileVerdict(f) ==
  IF f.fault \in Fatal THEN "err"
  ELSE IF f.sets = <<>> THEN "err"
  ELSE IF TaskOf(f.task) = "error" \/ FrameOf(f.frame) = "error" THEN "err"
  ELSE IF f.fault \in Minor THEN "?" ELSE "ok"

LabelsIn(f) == [k \in DOMAIN f.labels |-> LabelOf(f.labels[k])]
Limits(f) == [labels |-> LabelsIn(f), mx |-> f.mx, my |-> f.my, mp |-> f.mp, uuids |-> f.uuids]

(* Thresholds per target label, and lengths in thousandths of a metre. *)
Thousandths(f, x) == IF x >= Infinite THEN 1000000000 ELSE (1000 \div f.den) * x
Millionths(f, x) == IF x >= Infinite THEN 2000000000 ELSE 1000 * Thousandths(f, x)
PerLabel(f, x) == [k \in DOMAIN f.labels |-> x]
=============================================================================
