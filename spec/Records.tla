------------------------------- MODULE Records -------------------------------
(* Records of the thirteen dataset tables as written in their files           *)
(* (property C20): what each field of a written record means.                 *)
(*                                                                            *)
(* A written value is: a token, text or enumeration: its string; a time:      *)
(* <<day, second of the day, microsecond>>; numbers: sequences of integers    *)
(* (eighths); a matrix: the sequence of its rows.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Labels

Rejected == "(rejected)"
Missing == "(none)"

HexDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f",
              "A", "B", "C", "D", "E", "F"}
IsToken(s) == Len(s) = 32 /\ \A k \in 1..32 : CharAt(s, k) \in HexDigits
Token(s) == IF IsToken(s) THEN Lower(s) ELSE Rejected

(* Enumerations: written spelling (or alias) -> value. *)
FileFormats == [bin |-> "Bin", pcd |-> "Bin", jpeg |-> "Jpeg", jpg |-> "Jpeg", png |-> "Png"]
Modalities == [camera |-> "Camera", lidar |-> "Lidar", radar |-> "Radar"]
VisibilityLevels == ("v0-40" :> "None") @@ ("none" :> "None") @@ ("v40-60" :> "Partial") @@ ("partial" :> "Partial")
                    @@ ("v60-80" :> "Most") @@ ("most" :> "Most") @@ ("v80-100" :> "Full") @@ ("full" :> "Full")
Channels == [CAM_BACK |-> "CamBack", CAM_BACK_LEFT |-> "CamBackLeft", CAM_BACK_RIGHT |-> "CamBackRight",
             CAM_FRONT |-> "CamFront", CAM_FRONT_LEFT |-> "CamFrontLeft", CAM_FRONT_RIGHT |-> "CamFrontRight",
             CAM_FRONT_ZOOMED |-> "CamFrontZoomed", LIDAR_TOP |-> "LidarTop", LIDAR_CONCAT |-> "LidarTop",
             RADAR_BACK_LEFT |-> "RadarBackLeft", RADAR_BACK_RIGHT |-> "RadarBackRight",
             RADAR_FRONT |-> "RadarFront", RADAR_FRONT_LEFT |-> "RadarFrontLeft",
             RADAR_FRONT_RIGHT |-> "RadarFrontRight", CAM_TRAFFIC_LIGHT_NEAR |-> "CamTrafficLightNear",
             CAM_TRAFFIC_LIGHT_FAR |-> "CamTrafficLightFar"]

(* Fields of the tables and their kinds. *)
Schema == [
  attribute |-> [token |-> "token", name |-> "text", description |-> "text"],
  calibrated_sensor |-> [token |-> "token", sensor_token |-> "token", rotation |-> "n4",
                         translation |-> "n3", camera_intrinsic |-> "matrix"],
  category |-> [token |-> "token", name |-> "text", description |-> "text"],
  ego_pose |-> [token |-> "token", timestamp |-> "time", rotation |-> "n4", translation |-> "n3"],
  instance |-> [token |-> "token", nbr_annotations |-> "count", category_token |-> "token",
                first_annotation_token |-> "token", last_annotation_token |-> "token"],
  log |-> [token |-> "token", location |-> "text", vehicle |-> "text", date_captured |-> "text", logfile |-> "file"],
  map |-> [token |-> "token", category |-> "text", filename |-> "text", log_tokens |-> "tokens"],
  sample |-> [token |-> "token", next |-> "link", prev |-> "link", scene_token |-> "token", timestamp |-> "time"],
  sample_annotation |-> [token |-> "token", num_lidar_pts |-> "count", num_radar_pts |-> "count", size |-> "n3",
                         rotation |-> "n4", translation |-> "n3", sample_token |-> "token",
                         instance_token |-> "token", attribute_tokens |-> "tokens", visibility_token |-> "file",
                         next |-> "link", prev |-> "link"],
  sample_data |-> [token |-> "token", fileformat |-> "format", is_key_frame |-> "flag", filename |-> "text",
                   timestamp |-> "time", sample_token |-> "token", ego_pose_token |-> "token",
                   calibrated_sensor_token |-> "token", next |-> "link", prev |-> "link"],
  scene |-> [token |-> "token", name |-> "text", description |-> "text", log_token |-> "token",
             nbr_samples |-> "count", first_sample_token |-> "token", last_sample_token |-> "token"],
  sensor |-> [token |-> "token", modality |-> "modality", channel |-> "channel"],
  visibility |-> [token |-> "text", level |-> "level", description |-> "text"] ]

RECURSIVE Flat(_)
Flat(rows) == IF rows = <<>> THEN <<>> ELSE Head(rows) \o Flat(Tail(rows))

EnumOf(kind) == CASE kind = "format" -> FileFormats [] kind = "modality" -> Modalities
                  [] kind = "level" -> VisibilityLevels [] kind = "channel" -> Channels
IsEnum(kind) == kind \in {"format", "modality", "level", "channel"}

(* What a reader must see for a written value. *)
Meaning(kind, w) ==
  CASE kind = "token" -> Token(w)
    [] kind = "tokens" -> IF \A k \in DOMAIN w : IsToken(w[k]) THEN [k \in DOMAIN w |-> Token(w[k])] ELSE Rejected
    [] kind = "link" -> IF w = "" THEN "" ELSE Token(w)
    [] kind = "file" -> IF w = "" THEN Missing ELSE w
    [] kind = "matrix" -> Flat(w)
    [] IsEnum(kind) -> IF w \in DOMAIN EnumOf(kind) THEN EnumOf(kind)[w] ELSE Rejected
    [] OTHER -> w

(* Values that a field of the kind cannot have: tokens that are not 32        *)
(* hexadecimal digits, unknown spellings, vectors and matrices of other sizes. *)
BadValue(kind, w) ==
  CASE kind = "token" -> ~IsToken(w)
    [] kind = "tokens" -> \E k \in DOMAIN w : ~IsToken(w[k])
    [] kind = "link" -> w # "" /\ ~IsToken(w)
    [] kind = "n3" -> Len(w) # 3
    [] kind = "n4" -> Len(w) # 4
    [] kind = "matrix" -> Len(w) # 0 /\ (Len(w) # 3 \/ \E k \in DOMAIN w : Len(w[k]) # 3)
    [] IsEnum(kind) -> w \notin DOMAIN EnumOf(kind)
    [] OTHER -> FALSE

(* A written record need not have the date at all; every other field must be  *)
(* there and have a value (nulls: the fields written as null).                *)
MayMiss == {"date_captured"}
Complete(table, rec, nulls) ==
  /\ (DOMAIN Schema[table]) \ (DOMAIN rec) \subseteq MayMiss
  /\ nulls \subseteq MayMiss
Readable(table, rec, nulls) ==
  /\ Complete(table, rec, nulls)
  /\ \A f \in (DOMAIN rec) \ nulls : ~BadValue(Schema[table][f], rec[f])

Read(table, rec, nulls) ==
  [f \in DOMAIN Schema[table] |-> IF f \in DOMAIN rec /\ f \notin nulls THEN Meaning(Schema[table][f], rec[f]) ELSE ""]
=============================================================================
