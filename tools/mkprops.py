#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Estimates and ground truths are paired one-to-one",
 "For any lists of estimated and ground-truth objects, matching returns exactly one result per estimated object and uses every ground truth in at most one result. A result carries a ground truth only when both objects have the same label; an estimate that gets none is reported with no ground truth. The objects in the results are unmodified copies of the inputs.",
 ["inputs"], "All finite lists of estimates and ground truths, any sizes, labels, positions (including ties, empty lists and co-located objects).",
 "The only matching test feeds one estimate and one ground truth and asserts nothing about the result; double use of an object needs at least two objects on one side.",
 ["src/result/object.rs"], [("get_perception_results", "src/result/object.rs"), ("get_score_table", "src/result/object.rs"), ("get_fp_perception_results", "src/result/object.rs")],
 ["get_perception_results return value", "PerceptionEvaluationManager.frame_results[..].results()"])

prop("C02", "Matching always pairs the closest same-label objects first",
 "Matching is greedy on the 3D distance between centers: whenever an estimate and a ground truth of the same label are not paired with each other, at least one of the two is paired with a partner no farther away than their mutual distance. In particular an estimate stays without ground truth only if every same-label ground truth was taken by an estimate at least as close to it.",
 ["inputs"], "All finite lists of estimates and ground truths; at equal distances any choice is allowed.",
 "No test has two competing candidates, so neither the order in which pairs are chosen nor the distance used is exercised.",
 ["src/result/object.rs", "src/matching.rs", "src/utils/point.rs"], [("get_perception_results", "src/result/object.rs"), ("CenterDistanceMatching", "src/matching.rs"), ("distance_points", "src/utils/point.rs")],
 ["get_perception_results return value"])

prop("C03", "Results split into true and false positives by their label's threshold",
 "Evaluating a frame puts every result whose estimated label is a target label into exactly one of the true-positive and false-positive lists, in the original order, and every other result into neither. A result is a true positive exactly when it has a ground truth and its matching score is strictly better than the threshold listed for the estimate's label: smaller for the two distance criteria, larger for the two overlap criteria. The threshold of a label is the one at the position of the label's first occurrence in the target list.",
 ["inputs", "configurations"], "All result lists, target-label lists (subsets, permutations, duplicates), per-label threshold lists and all four matching criteria, including scores equal to the threshold.",
 "Tests call the criterion on one identical pair; no test builds a frame result, uses per-label thresholds in a frame, or hits a score equal to the threshold.",
 ["src/result/frame.rs", "src/result/object.rs", "src/threshold.rs", "src/matching.rs"], [("separate_tp_fp_results", "src/result/frame.rs"), ("is_result_correct", "src/result/object.rs"), ("get_label_threshold", "src/threshold.rs"), ("is_better_than", "src/matching.rs")],
 ["PerceptionFrameResult::new, tp_results(), fp_results()", "PerceptionResult::is_result_correct", "get_label_threshold"])

prop("C04", "Every ground truth of a frame is either detected or missed, exactly once",
 "In every evaluated frame whose pairing is one-to-one, each ground-truth object of the frame is either the ground truth of a true positive or listed as a false negative, never both and never neither, and the false-negative list contains nothing else. Hence true positives plus false negatives equals the number of ground truths, even when ground truths share a pose and label and differ only in their instance ID (some difference in time, frame, pose, label or ID is assumed). The frame keeps its full list of results and its ground truth unchanged.",
 ["inputs"], "All frames with a one-to-one pairing over ground truths that differ in timestamp, frame, pose, label or instance ID.",
 "No test constructs a frame result; the false-negative path is never executed by the suite.",
 ["src/result/frame.rs", "src/object/object3d.rs"], [("extract_fn_objects / is_fn_object", "src/result/frame.rs"), ("PartialEq for DynamicObject", "src/object/object3d.rs")],
 ["PerceptionFrameResult::new, fn_objects(), results(), frame_ground_truth()"])

prop("C05", "Filtering keeps exactly the admissible objects",
 "Filtering returns, in input order and unmodified, exactly the objects whose label is a target label and whose |x| and |y| are strictly below the configured maxima. For ground truths it additionally requires at least the configured number of points (an object with unknown point count passes) and, if an ID list is given, an instance ID contained in it (an object without ID fails); neither condition is applied to estimates.",
 ["inputs", "configurations"], "All object lists, ground truth or estimate, and all filter parameters including absent or empty optional lists, duplicates and values exactly on a bound.",
 "One doc-test drops one estimate by distance and one unit test keeps one object; point counts, IDs, bounds and the estimate/ground-truth asymmetry are not sampled.",
 ["src/filter.rs", "src/config.rs", "src/manager.rs"], [("filter_objects / is_target_object", "src/filter.rs"), ("FilterParams::new", "src/config.rs")],
 ["filter_objects return value", "frame_ground_truth() of a frame result"])

prop("C06", "AP is the interpolated precision-recall area over confidence ranking",
 "The AP reported for a label is the area under the interpolated precision-recall curve of all results of that label ranked by descending confidence (equal ones in any order), where precision at a rank is the best precision at that or any later rank and recall is relative to the label's number of ground truths. It lies in [0, 1], does not depend on the order in which results of different confidence were produced, is 0 when there are ground truths but no result, and is NaN only when the label has neither results nor ground truths.",
 ["inputs", "histories"], "All sequences of frames, for both distance criteria; results of a label with equal confidence may be ranked in any order.",
 "No test computes an AP value; the metrics module is covered only by two calls returning the weight of one result.",
 ["src/metrics/detection.rs", "src/metrics/tp_metrics.rs", "src/metrics/score.rs", "src/filter.rs"], [("Ap::calculate_ap and helpers", "src/metrics/detection.rs"), ("TPMetricsAP", "src/metrics/tp_metrics.rs"), ("hash_results / hash_num_objects", "src/filter.rs")],
 ["get_metrics_score"])

prop("C07", "APH weights every true positive by its heading agreement",
 "APH is computed like AP except that each true positive counts 1 - d/pi, where d in [0, pi] is the smaller angle between the headings of estimate and ground truth; false positives count 0. So APH lies in [0, 1] and never exceeds AP, equals AP when all headings agree (whatever quaternion sign represents them), and a true positive facing the opposite way contributes nothing.",
 ["inputs", "histories"], "All frames of yaw-rotated boxes, all pairs of headings including ones on both sides of the +-pi wrap and both quaternion signs.",
 "The single APH test uses two identity orientations, for which any angle formula gives weight 1.",
 ["src/metrics/tp_metrics.rs", "src/metrics/detection.rs", "src/object/object3d.rs", "src/utils/math.rs"], [("TPMetricsAPH", "src/metrics/tp_metrics.rs"), ("heading", "src/object/object3d.rs"), ("quaternion2euler", "src/utils/math.rs")],
 ["get_metrics_score"])

prop("C08", "Scores pool exactly the frames added so far",
 "Adding a frame appends exactly one frame result, computed from the filtered inputs, and leaves earlier ones untouched. A score request uses every accumulated frame exactly once per label, counting each label's results and ground truths once even if the label is listed twice, gives the same answer when repeated or (up to ties in confidence) when frames were added in another order, and changes nothing. Frames that the caller takes out of the manager's list or rearranges in it are gone or moved for the next score, too. For tasks other than detection it returns an error instead of a score, and no finite input makes either operation fail abruptly. Managers are independent: what one holds and answers does not depend on other managers used before, in between or at the same time in other threads; a clone goes on from what the original held and neither sees what is added to the other afterwards.",
 ["histories", "inputs", "configurations"], "All interleavings of adding frames and requesting scores, any number of frames (also zero, also frames with no estimates or no ground truths), all task kinds and label lists; several managers of equal or different configurations interleaved, cloned, or in threads of their own.",
 "No test adds a frame or requests a score; the manager doc-test only constructs the manager.",
 ["src/manager.rs", "src/filter.rs", "src/metrics/score.rs"], [("add_frame_result / get_metrics_score", "src/manager.rs"), ("evaluate_detection", "src/metrics/score.rs"), ("hash_results, hash_num_objects", "src/filter.rs")],
 ["PerceptionEvaluationManager.frame_results", "get_metrics_score"],
 [dict(name="frame_results", meaning="sequence of evaluated frames", where="src/manager.rs")])

prop("C09", "Perfect detections score 1, missing detections score 0",
 "If in every frame the estimates are exact copies of the ground truths and all ground truths pass the filter at distinct positions, then every estimate is a true positive, nothing is missed, and AP and APH are 1 for every label that has ground truth, for any positive distance thresholds. If there are no estimates, every ground truth is missed and AP and APH are 0 for those labels. Estimates of a label without ground truth never become true positives and leave the outcomes and scores of the other labels as they are.",
 ["inputs", "histories"], "All frame sequences of boxes with any finite pose; any label list; any positive thresholds.",
 "No test evaluates a frame end to end; the shipped example prints the score but asserts nothing.",
 ["src/manager.rs", "src/result/object.rs", "src/result/frame.rs", "src/metrics/detection.rs"], [("whole pipeline", "src/manager.rs"), ("calculate_ap", "src/metrics/detection.rs")],
 ["get_metrics_score", "frame_results"])

prop("C10", "Frame lookup returns a nearest frame within 75 ms or nothing",
 "Looking up the ground truth for a timestamp returns a stored frame, unmodified, such that no other stored frame is nearer to the timestamp, provided the distance is strictly less than 75 ms; times are compared at whole-millisecond resolution. If no stored frame is that close, or there are no frames, it returns nothing.",
 ["inputs"], "All frame lists (any order, duplicates, empty) and query timestamps, including exact 75 ms gaps and ties.",
 "No test calls the lookup; the example only queries timestamps that are present.",
 ["src/dataset.rs", "src/manager.rs"], [("get_current_frame", "src/dataset.rs"), ("get_frame_ground_truth", "src/manager.rs")],
 ["get_current_frame", "PerceptionEvaluationManager::get_frame_ground_truth"])

prop("C11", "Distance criteria measure center and nearest-plane distance",
 "The center-distance criterion scores a pair by the Euclidean 3D distance of the box centers. The plane-distance criterion scores it by the root mean square of the two ground-plane distances between the two box corners nearest to the ego origin, left corner against left corner and right against right; the left one of two points is the one counter-clockwise of the other as seen from the origin. Both are symmetric in the two boxes, never negative, 0 for identical boxes, and independent of labels, IDs, confidence and time.",
 ["inputs"], "All pairs of yaw-rotated boxes with finite pose and size anywhere around the ego; when corners are equally near, any of them may be chosen.",
 "Both criteria are tested on one identical pair only (score 0).",
 ["src/matching.rs", "src/utils/point.rs", "src/object/object3d.rs"], [("CenterDistanceMatching, PlaneDistanceMatching", "src/matching.rs"), ("get_point_left_right, distance_points(_bev)", "src/utils/point.rs"), ("footprint", "src/object/object3d.rs")],
 ["PerceptionResult::is_result_correct as a function of the threshold"])

prop("C12", "Overlap criteria equal intersection over union of the boxes",
 "The 2D overlap score is the area of the intersection of the two box footprints divided by the area of their union; the 3D score is the shared volume (footprint intersection times the overlap of the height intervals) divided by the volume of the union. Both lie in [0, 1], are symmetric, are 1 for identical boxes, and 0 for boxes that do not overlap in the plane or, for 3D, in height.",
 ["inputs"], "All pairs of yaw-rotated boxes, overlapping, nested, touching, disjoint, and stacked above one another; also boxes without extent in some direction, whose overlap with others is 0.",
 "Each overlap criterion is tested on one identical pair only, where union and intersection coincide.",
 ["src/matching.rs", "src/object/object3d.rs"], [("Iou2dMatching, Iou3dMatching, get_intersection_area, get_intersection_height", "src/matching.rs"), ("footprint, area, volume", "src/object/object3d.rs")],
 ["PerceptionResult::is_result_correct as a function of the threshold"])

prop("C13", "Rotations and translations behave as rigid-body algebra",
 "For unit quaternions, rotating a position applies the rotation the quaternion denotes (the same one as its rotation matrix), and inverse rotation and inverse translation exactly undo rotation and translation. Rotating an orientation composes rotations: rotating a position by the composed orientation equals rotating it first by the one and then by the other, and inverse composition undoes composition. The inverse of a quaternion denotes the inverse rotation, and is its multiplicative inverse even if its length is not 1. Moving a dataset box moves its position and, for rotations, its orientation in the same way and nothing else.",
 ["inputs"], "All unit quaternions (both signs, arbitrary axes) and all finite vectors, up to floating-point rounding.",
 "Every math test uses the identity quaternion, for which wrong rotation direction and wrong composition are invisible.",
 ["src/utils/math.rs", "src/dataset/nuscenes/box.rs"], [("rotate, rotate_inv, rotate_q, rotate_q_inv, translate, translate_inv, quaternion2rotation, inverse_quaternion", "src/utils/math.rs"), ("NuScenesBox methods", "src/dataset/nuscenes/box.rs")],
 ["public functions of utils::math", "NuScenesBox"])

prop("C14", "A box's footprint, size, heading and angles follow its pose",
 "The footprint of an object lists its four base-plane corners in cyclic order: the center plus half the length (second size entry) along and half the width (first size entry) across the box, turned by the object's orientation. The Euler angles reproduce the orientation, with the heading in [-pi, pi] equal to the yaw for every facing direction, and pitch defined even when pointing straight up or down. Area is width times length, volume is area times height, and the distance methods give 3D or ground-plane Euclidean distance from the origin or a given point. The state of an object consists of exactly its position, orientation, size and velocity.",
 ["inputs"], "All finite positions and sizes and all unit quaternions (both signs); Euler yaw and roll are only determined away from vertical pitch.",
 "Every object test uses the identity orientation and one position.",
 ["src/object/object3d.rs", "src/utils/math.rs", "src/utils/point.rs"], [("footprint, heading, euler, area, volume, distance*", "src/object/object3d.rs"), ("quaternion2euler, quaternion2rotation", "src/utils/math.rs"), ("distance_points, distance_points_bev", "src/utils/point.rs")],
 ["DynamicObject methods"])

prop("C15", "A dataset loads exactly when its tables are consistent",
 "Loading succeeds if every token reference between the tables (map-to-log references excepted) resolves, and each instance's annotations and each scene's samples form a doubly linked chain that starts at the declared first and ends at the declared last record with the declared length. If any table is missing or unreadable, any such reference dangles, or any chain is broken, cyclic or of the wrong length, loading returns an error. It always terminates without crashing and never returns a partial dataset; a sample without annotations or without sensor data is valid.",
 ["inputs", "fault_sequences"], "All datasets with distinct tokens per table and all combinations of dangling references, wrong links, cycles, wrong counts and missing or malformed files.",
 "Tests load a single consistent dataset with one sample, one instance and one annotation; no error path and no chain longer than one is executed.",
 ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/internal.rs"], [("NuScenes::load integrity checks", "src/dataset/nuscenes.rs"), ("InstanceInternal::from, SceneInternal::from", "src/dataset/nuscenes/internal.rs")],
 ["NuScenes::load result", "load_dataset result"])

prop("C16", "Ground-truth frames hold every annotation in the ego frame, once",
 "Loading a consistent dataset for evaluation yields one frame per sample, in non-decreasing time order, stamped with the sample's time. When a sample has one lidar recording at its own timestamp, its frame holds exactly one object per annotation of that sample, with the annotation's position and orientation expressed in the ego pose of that recording, its size, point count, instance ID and the label of its instance's category, confidence 1 and the requested frame; camera, radar and time-shifted recordings add nothing. The raw per-recording boxes can also be expressed in the sensor's own frame.",
 ["inputs"], "All consistent datasets with any poses (arbitrary unit quaternions), categories, sensors and numbers of samples, scenes and annotations.",
 "The one-annotation sample dataset is loaded but no value of any frame is asserted.",
 ["src/dataset.rs", "src/dataset/nuscenes.rs", "src/dataset/nuscenes/box.rs", "src/utils/math.rs"], [("load_dataset, sample_to_frame", "src/dataset.rs"), ("get_sample_data, get_boxes, get_box", "src/dataset/nuscenes.rs")],
 ["load_dataset", "NuScenes::get_sample_data"])

prop("C17", "Dataset iteration and links reproduce the tables' relations",
 "In a loaded dataset, iterating a table visits each of its records exactly once, and samples, sensor data, ego poses and scenes are visited in non-decreasing time order (a scene's time being that of its earliest sample). Following a link from a record (previous, next, sample, scene, instance, category, sensor, ego pose, log, attributes) reaches the record the table names; a scene lists its samples and an instance its annotations in chain order, and a sample lists exactly the annotations and sensor data that name it. Opening a log record opens the file it names below the dataset directory, or nothing when it names none.",
 ["inputs"], "All consistent datasets.",
 "No test iterates a loaded dataset or follows a link.",
 ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/iter_impl", "src/dataset/nuscenes/internal.rs"], [("*_iter, sorted token lists, relation groups", "src/dataset/nuscenes.rs"), ("WithDataset accessors", "src/dataset/nuscenes/iter_impl")],
 ["NuScenes iterators and record accessors"])

prop("C18", "A scenario file configures the evaluation it describes, or is rejected",
 "Building a configuration from a scenario file yields the dataset path and version, task, coordinate frame, result, log and visualization directories, and the filter limits and thresholds written in the file, each limit and each threshold applied alike to every target label in the listed order; absent optional limits impose nothing. A file that is missing, malformed, lacks a dataset or names an unknown task or frame gives an error, not a crash. Several configurations can be built in one process.",
 ["inputs", "configurations", "histories"], "All scenario files with distinct values for every field, every task, frame and label list, optional fields present or absent, all single-field corruptions, and sequences of several files in one process.",
 "Tests load one well-formed file once per process and assert nothing about the resulting values.",
 ["src/config.rs", "src/config/schema.rs", "src/utils/logger.rs", "src/label.rs"], [("PerceptionEvaluationConfig::from", "src/config.rs"), ("FilterParams::new, MetricsParams::new", "src/config.rs"), ("serde helpers", "src/config/schema.rs"), ("configure_logger", "src/utils/logger.rs")],
 ["PerceptionEvaluationConfig fields", "filtering and metrics behaviour under the built configuration"])

prop("C19", "Names map consistently to labels, tasks and coordinate frames",
 "Category names, in any letter case, map to one of the eight evaluation labels: vehicle names to car, truck, bus, bicycle or motorbike, person names to pedestrian, animals to animal, and obstacles and every unrecognized name to unknown; converting a list converts each entry in order and never fails. Task and coordinate-frame names are accepted in both their CamelCase and snake_case spelling and anything else is an error. Every label, task and frame converts back to itself from its displayed name, which is also the label name of an object; all tasks are 3D tasks.",
 ["inputs"], "All strings; all known names in all letter cases for labels; all tasks and frames in both spellings.",
 "Tests convert a handful of lower-case names; most table entries, case variants and error cases are not sampled.",
 ["src/label.rs", "src/evaluation_task.rs", "src/frame_id.rs"], [("LabelConverter, convert_labels", "src/label.rs"), ("FromStr / Display", "src/evaluation_task.rs"), ("FromStr / Display", "src/frame_id.rs")],
 ["LabelConverter::convert, convert_labels", "EvaluationTask::from_str, set_task", "FrameID::from_str", "to_string()"])

prop("C20", "Dataset records survive writing and reading back",
 "Reading a record keeps its microsecond timestamp, tokens, links, empty optional fields and enumerated values exactly as written in the file, and writing any record out and reading it back gives the same record. Tokens are 32 hexadecimal digits in either letter case, shown in lower case; any other token text is rejected with an error, and so is a record in which a field other than the capture date is missing or null, an enumerated value is none of the known spellings, or a vector or camera matrix has another size (camera matrices are empty or three by three).",
 ["inputs"], "All records of all thirteen tables with timestamps from the epoch up to year 2100 at microsecond resolution, any token bytes, present and absent optional fields, every enumerated value and alias; each field left out, null, misspelt or of another size.",
 "Tests read one dataset and never write a record or compare a timestamp.",
 ["src/dataset/nuscenes/schema.rs"], [("timestamp_serde, long/short/opt token serde, logfile_serde, camera_intrinsic_serde", "src/dataset/nuscenes/schema.rs")],
 ["serde_json on the public record types", "LongToken/ShortToken TryFrom and Display"])

prop("C21", "Sensor files are decoded value by value, bad files are rejected",
 "Loading a lidar recording returns one row of five values per 20-byte record of its file, in file order with the values in record order, every value with exactly the bits stored in the file (also infinities, NaNs, signed zeros and subnormals); raw loading returns the file's bytes. A file whose length is not a multiple of the record size, or that does not exist, gives an error instead of a cloud. Loading a camera recording (png or jpeg) returns the picture stored in its file: its width, height, channels and pixels; a file that is missing or not such a picture gives an error.",
 ["inputs", "fault_sequences"], "All lidar files of one or more records (stored, as the loader requires, in a directory named lidar), and every truncation or extension of them; 8-bit png pictures with one to four channels and grey jpeg pictures, and damaged ones.",
 "No test loads sensor data.",
 ["src/dataset/nuscenes/iter_impl/sample_data.rs"], [("SampleData load, load_raw, open", "src/dataset/nuscenes/iter_impl/sample_data.rs")],
 ["WithDataset<SampleData>::load, load_raw, open"])

prop("C22", "The printed report shows every label's scores and thresholds",
 "The printed metrics report has one section for the center-distance and one for the plane-distance criterion. Each section lists the target labels in configured order with the threshold used for each, one AP and one APH value per label in the same order to three decimals, and mAP and mAPH equal to the means of those values. The values are those of the accumulated frames for that criterion.",
 ["inputs", "histories", "configurations"], "All label lists (any length and order), thresholds and accumulated frames; the order of the AP and APH lines is free.",
 "No test prints a report; it is the only way a user can read the scores.",
 ["src/metrics/detection.rs", "src/metrics/score.rs"], [("Display for DetectionMetricsScore", "src/metrics/detection.rs"), ("Display for MetricsScore, evaluate_detection", "src/metrics/score.rs")],
 ["to_string() of the value returned by get_metrics_score"])

prop("C23", "Messages go to the log that was configured last",
 "Configuring the logger, directly or by building a configuration from a scenario file (which configures level Debug and the log directory of its results), can be done any number of times in one process. From then on each message of the configured level or a more severe one is written, once and in order, as a line naming its level to output.log of the directory configured last, and to no other; less severe messages are not written. What a log already holds stays there. A directory that cannot be used gives an error and leaves logging as it was.",
 ["histories"], "All sequences of configurations (usable and unusable directories, the same one repeatedly, levels Error to Debug), and messages of all levels.",
 "The logger is process-wide: a test run configures it once, so the second configuration and what becomes of the first are never exercised.",
 ["src/utils/logger.rs", "src/config.rs"], [("configure_logger", "src/utils/logger.rs"), ("PerceptionEvaluationConfig::from", "src/config.rs")],
 ["contents of <log_dir>/output.log", "result of configure_logger and PerceptionEvaluationConfig::from"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
