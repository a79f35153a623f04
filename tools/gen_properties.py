#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that the long texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Object filtering keeps exactly the objects that satisfy the criteria",
 "Filtering returns, unchanged and in input order, exactly those objects whose label is a target label and whose absolute x and y are strictly below that label's limits. For ground truth only, an object with a known point count must also reach its label's minimum number of points, and if a list of target ids is configured it must carry an id from that list. Estimated objects are never dropped because of point counts or ids.",
 ["inputs","configurations"],"every list of objects (any length, labels, positions, optional point counts and ids), both values of the ground-truth flag, every filter configuration",
 "The tests call the filter with one or two objects that sit well inside or outside of one limit; the quantifier is over lists, label positions in the target list, boundaries and the combination of five criteria.",
 ["src/filter.rs","src/config.rs"],[("filter_objects","src/filter.rs"),("is_target_object","src/filter.rs")],["perception_eval::filter::filter_objects","PerceptionEvaluationManager::add_frame_result"])
p("C02","Each label uses the threshold configured at its own position",
 "Looking up the threshold of a label returns the value at the position of that label's first occurrence in the target list, and nothing when the label is not a target. Parameter sets built from scalar settings hold, for every target label, exactly the scalar that was configured for that setting. Target labels keep the order and number of the configured names.",
 ["inputs","configurations"],"every label, every target list (including repeated labels and longer threshold lists), every threshold list and every scalar setting",
 "Tests look one label up at position 0 and never read the expanded per-label lists back.",
 ["src/threshold.rs","src/config.rs","src/label.rs"],[("get_label_threshold","src/threshold.rs"),("FilterParams::new","src/config.rs"),("MetricsParams::new","src/config.rs")],["perception_eval::threshold::get_label_threshold","LabelThreshold::get_threshold","MetricsParams Debug output"])
p("C03","Grouping by label neither loses, duplicates nor misfiles anything",
 "For every target label the per-label group of objects or results holds exactly the items carrying that label, unchanged and in input order, and the per-label count is the length of that group. Every target label has an entry even if it is empty, no other label has one, and items with other labels contribute nothing.",
 ["inputs"],"every list of objects or results and every list of target labels",
 "Two tests group a single object; the quantifier is over arbitrary lists and label sets.",
 ["src/filter.rs"],[("hash_objects / hash_num_objects / hash_results / hash_num_results","src/filter.rs")],["PerceptionEvaluationManager::get_metrics_score"])
p("C04","Matching is one-to-one, within a label, and loses no estimate",
 "Matching estimates against ground truth returns exactly one result per estimate, carrying that estimate unchanged. Every matched pair has equal labels, no ground truth object is used by two results, and an estimate is left unmatched only if every ground truth object of its label is already used by another result.",
 ["inputs"],"every list of estimates and ground truths, of any length, label mix and geometry, including duplicates and empty lists",
 "The only call in the tests matches one estimate to one ground truth and does not look at the result.",
 ["src/result/object.rs"],[("get_perception_results","src/result/object.rs"),("get_score_table","src/result/object.rs"),("get_fp_perception_results","src/result/object.rs")],["perception_eval::result::object::get_perception_results"])
p("C05","Matching is nearest first: no closer pair is passed over",
 "For every estimate and ground truth object of the same label, if they are not matched to each other then at least one of them is matched to a partner whose centre is at most as far away as theirs. So the closest remaining same-label pair is always matched first.",
 ["inputs"],"every list of estimates and ground truths with finite coordinates",
 "Needs at least two candidates competing for a partner; no test has two candidates.",
 ["src/result/object.rs","src/matching.rs"],[("get_perception_results","src/result/object.rs"),("CenterDistanceMatching","src/matching.rs")],["perception_eval::result::object::get_perception_results"])
p("C06","TP, FP and FN partition the outcome of a frame",
 "A frame result keeps its results and its ground truth unchanged. Each result whose estimate has a target label is listed exactly once, in order, as TP if it has a ground truth and its score passes the threshold of that label and as FP otherwise; other results are in neither list. The FN list is exactly the ground truth objects equal to no TP's ground truth, in order.",
 ["inputs","configurations"],"every list of results, ground truth, target labels, matching mode and thresholds",
 "No test constructs a frame result directly and inspects its lists.",
 ["src/result/frame.rs","src/result/object.rs"],[("PerceptionFrameResult::new","src/result/frame.rs"),("separate_tp_fp_results","src/result/frame.rs"),("is_fn_object","src/result/frame.rs"),("PerceptionResult::is_result_correct","src/result/object.rs")],["PerceptionFrameResult::{tp_results,fp_results,fn_objects}"])
p("C07","Distance scores are true distances and smaller is better",
 "The centre distance of two objects is the Euclidean distance of their positions and the bird's-eye distance ignores height. The plane distance is the root mean square of the distances between the left and between the right ends of the two faces nearest to ego, so it is zero for an object compared with itself, symmetric and non-negative. A distance score passes a threshold exactly if it is strictly smaller, and a result without ground truth never passes.",
 ["inputs"],"every pair of objects with finite geometry and every threshold",
 "Tests evaluate the scores for two identical axis-aligned objects only.",
 ["src/matching.rs","src/utils/point.rs","src/object/object3d.rs","src/result/object.rs"],[("distance_points, distance_points_bev, get_point_left_right","src/utils/point.rs"),("CenterDistanceMatching, PlaneDistanceMatching","src/matching.rs")],["PerceptionResult::is_result_correct","DynamicObject::{distance,distance_bev,distance_from,distance_bev_from}"])
p("C08","IoU lies in [0,1], is symmetric, and larger is better",
 "The 2D IoU of two boxes is their bird's-eye overlap area divided by the area of their union, the 3D IoU multiplies areas by heights with the overlap height being the length of the common part of the vertical extents. Both lie between 0 and 1, do not depend on the order of the boxes, are 1 for identical boxes of positive size and 0 for disjoint ones. An IoU score passes a threshold exactly if it is strictly larger.",
 ["inputs"],"every pair of boxes with finite pose and positive size, and every threshold",
 "Tests evaluate IoU for two identical axis-aligned boxes only; the interesting inputs are partial overlaps and boxes that overlap in plan but not in height.",
 ["src/matching.rs","src/object/object3d.rs"],[("Iou2dMatching, Iou3dMatching","src/matching.rs"),("get_intersection_area, get_intersection_height, get_intersection_volume","src/matching.rs"),("area, volume","src/object/object3d.rs")],["PerceptionResult::is_result_correct with MatchingMode::Iou2d/Iou3d"])
p("C09","AP is the area under the interpolated precision-recall curve",
 "With results ranked by descending confidence, AP is the sum over ranks of the increase of recall times the best precision reached at that or any later rank. It does not depend on the order in which equally well specified results were added, lies in [0,1] whenever no ground truth is matched twice, is 1 for a perfect detector, 0 when there is ground truth but no correct result, and undefined (NaN) exactly when there is neither ground truth nor any result.",
 ["inputs","histories"],"every list of results (any length, confidences, TP/FP pattern) and every number of ground truths",
 "No test looks at an AP value; a handful of examples cannot cover all precision-recall curves.",
 ["src/metrics/detection.rs","src/metrics/score.rs"],[("Ap::calculate_ap","src/metrics/detection.rs"),("Ap::calculate_tp_fp","src/metrics/detection.rs"),("Ap::calculate_precision_recall","src/metrics/detection.rs"),("Ap::interpolate_precision_recall","src/metrics/detection.rs")],["PerceptionEvaluationManager::get_metrics_score"])
p("C10","Heading accuracy weight is a normalised circular distance",
 "The weight a matched pair contributes to APH is 1 minus the smaller angle between the two headings divided by pi: it lies in [0,1], is 1 exactly for equal headings and 0 for opposite ones, is symmetric, and does not jump where the angle wraps around. A result without ground truth contributes 0, and AP weighs every matched pair with 1, so APH never exceeds AP.",
 ["inputs"],"every pair of headings (any yaw of the two quaternions) and every result",
 "Tests compare two objects with the identity orientation only.",
 ["src/metrics/tp_metrics.rs","src/object/object3d.rs"],[("TPMetricsAP, TPMetricsAPH","src/metrics/tp_metrics.rs"),("DynamicObject::heading","src/object/object3d.rs")],["PerceptionEvaluationManager::get_metrics_score (APH column)"])
p("C11","Metrics cover exactly the frames added so far",
 "The metrics score is computed from all results and all filtered ground truth of every frame added so far, each counted once under its own label, with the thresholds configured for that mode and label. Adding a frame appends one frame result built from the filtered estimates and filtered ground truth and leaves earlier frames untouched; asking for the score changes nothing. Tasks other than detection are rejected with an error.",
 ["histories","configurations"],"every sequence of frames, including frames without objects, and every target label list",
 "Tests never add a frame; the quantifier is over histories of frames.",
 ["src/manager.rs","src/metrics/score.rs","src/metrics/detection.rs"],[("add_frame_result, get_metrics_score","src/manager.rs"),("evaluate_detection","src/metrics/score.rs"),("DetectionMetricsScore::new","src/metrics/detection.rs")],["PerceptionEvaluationManager::{add_frame_result,get_metrics_score,frame_results}"])
p("C12","Rigid transforms obey the algebra of rotations and translations",
 "Rotating a point by a unit quaternion applies the rotation that quaternion denotes (q p q*), preserves lengths and dot products, and rotating back restores the point; likewise translating and translating back. Rotating an orientation composes the two rotations, so rotating a point by the composed orientation equals rotating twice, and inverse rotation undoes it. The conversion to a matrix yields the proper rotation matrix of the quaternion.",
 ["inputs"],"every point, translation and unit quaternion (over the reals; rounding is idealised)",
 "All tests use the identity quaternion, for which transposed, inverted or componentwise versions agree.",
 ["src/utils/math.rs","src/dataset/nuscenes/box.rs"],[("quaternion2rotation, inverse_quaternion, translate, translate_inv, rotate, rotate_inv, rotate_q, rotate_q_inv","src/utils/math.rs"),("NuScenesBox::{translate,translate_inv,rotate,rotate_inv}","src/dataset/nuscenes/box.rs")],["perception_eval::utils::math","NuScenesBox methods"])
p("C13","Footprint corners are the rotated box corners around its centre",
 "The footprint of an object has four corners in ring order, each the centre plus the object's rotation applied to (plus or minus half length, plus or minus half width, 0). Opposite corners are symmetric about the centre, and for an object rotated about the vertical axis all corners lie at the object's height and span a length by width rectangle aligned with its heading. Area is length times width and volume is area times height.",
 ["inputs"],"every pose with unit quaternion and every size",
 "The only test uses the identity orientation and a square box, where rotation direction and the roles of length and width do not matter.",
 ["src/object/object3d.rs"],[("DynamicObject::footprint","src/object/object3d.rs"),("DynamicObject::{area,volume,rotation_matrix}","src/object/object3d.rs")],["DynamicObject::footprint"])
p("C14","Boxes are expressed in the ego frame of their own sample data",
 "The boxes of a sample data are one per annotation of its sample, in order, each with the annotation's size, token, instance, number of lidar points and the name of its instance's category. Their pose is the annotation's pose transformed by the inverse ego pose of that sample data and, only if the sensor frame is requested, further by the inverse pose of its calibrated sensor. An unknown token yields an error rather than a wrong record.",
 ["inputs"],"every loaded dataset, every sample data token and both frame choices",
 "The sample dataset is loaded once and no test looks at a box.",
 ["src/dataset/nuscenes.rs","src/dataset/nuscenes/box.rs"],[("get_sample_data, get_boxes, get_box","src/dataset/nuscenes.rs")],["NuScenes::{get_sample_data,get_boxes,get_box,get_sample_data_path}"])
p("C15","A dataset that loads has no dangling or inconsistent references",
 "If loading succeeds, every token stored in a record that is followed later (sensor, category, annotation, log, sample, scene, instance, attribute, visibility, ego pose, calibrated sensor, previous and next links) refers to an existing record. Instance and scene chains are consistent: first, last, backward links and stated counts all agree. A dataset that violates one of these is rejected with an error, and loading always terminates.",
 ["inputs"],"every dataset on disk, in particular with any single broken or cyclic reference",
 "Tests load one well-formed dataset; nothing exercises a corrupted one.",
 ["src/dataset/nuscenes.rs","src/dataset/nuscenes/internal.rs"],[("NuScenes::load","src/dataset/nuscenes.rs")],["NuScenes::load"])
p("C16","Chains, groups and time order of a loaded dataset are complete",
 "An instance lists its annotations and a scene its samples by following the next links from first to last, each exactly once. A sample lists exactly the annotations and the sample data that refer to it. Samples, sample data, ego poses and scenes are iterated in ascending order of time, each exactly once.",
 ["inputs"],"every loadable dataset",
 "No test reads back a chain, a group or an order.",
 ["src/dataset/nuscenes/internal.rs","src/dataset/nuscenes.rs"],[("InstanceInternal::from, SceneInternal::from, SampleInternal::from","src/dataset/nuscenes/internal.rs"),("NuScenes::load grouping and sorting","src/dataset/nuscenes.rs")],["NuScenes iterators","WithDataset iterators"])
p("C17","A frame's ground truth is the lidar keyframe's annotations, in time order",
 "Each sample becomes one frame with the sample's timestamp, holding one object per annotation of that sample for the lidar sample data taken at exactly that time and nothing for other sensors or times. An object has the box's pose in the ego frame, its size, its category converted to a label, its point count, its instance token as id, confidence 1 and the requested frame. Frames follow the order of the samples.",
 ["inputs"],"every loadable dataset, every requested frame",
 "No test inspects the frames.",
 ["src/dataset.rs"],[("sample_to_frame, load_dataset","src/dataset.rs")],["perception_eval::dataset::load_dataset"])
p("C18","The current frame is the nearest one within 75 ms, or none",
 "Looking up a timestamp returns a frame whose distance in whole milliseconds is minimal over all frames (the first such frame), provided this distance is below 75 ms, and nothing otherwise, also when there are no frames. The frame is returned unchanged.",
 ["inputs"],"every list of frames and every timestamp",
 "No test looks a frame up.",
 ["src/dataset.rs"],[("get_current_frame","src/dataset.rs")],["perception_eval::dataset::get_current_frame","PerceptionEvaluationManager::get_frame_ground_truth"])
p("C19","Label names convert totally, case-insensitively and consistently",
 "Conversion never fails: every known name, in any capitalisation, yields its documented label and every other name yields the unknown label. The name printed for a label converts back to that label. Converting a list of names yields one label per name in the same order, and an unsupported naming scheme is an error.",
 ["inputs"],"every string and every list of strings",
 "Three names are tested.",
 ["src/label.rs"],[("LabelConverter::new, convert, convert_labels","src/label.rs")],["perception_eval::label::{LabelConverter, convert_labels}"])
p("C20","Frame and task names round-trip and nothing else is accepted",
 "Parsing accepts exactly the two documented spellings of each frame id and each evaluation task, and yields that id or task; any other text is an error. Printing a value and parsing it back yields the same value. Every task is exactly one of 3D and 2D.",
 ["inputs"],"every string and every value",
 "Only the detection task is parsed in tests; no frame id is.",
 ["src/frame_id.rs","src/evaluation_task.rs"],[("FromStr / Display for FrameID","src/frame_id.rs"),("FromStr / Display / is_3d / is_2d / set_task for EvaluationTask","src/evaluation_task.rs")],["str::parse::<FrameID>","set_task"])
p("C21","Tokens parse exactly from hex of the right length and print back",
 "A token parses exactly from texts that are the hexadecimal form of 16 bytes, and any other text is an error, never a panic or a truncated token. Printing a parsed token and parsing it again yields an equal token, and tokens are equal exactly if their bytes are.",
 ["inputs"],"every string",
 "Tests only parse well-formed tokens through the sample dataset.",
 ["src/dataset/nuscenes/schema.rs"],[("TryFrom<&str> / Display for LongToken and ShortToken","src/dataset/nuscenes/schema.rs")],["LongToken::try_from","ShortToken::try_from","serde of records"])
p("C22","Record timestamps keep their microseconds through reading and writing",
 "A record's timestamp read from a number of microseconds (up to 2^53 in magnitude, that is until the year 2255) denotes exactly that instant, writing it back yields the same number, and reading what was written restores the record's timestamp. A number outside the representable range is an error.",
 ["inputs"],"every whole number of microseconds in the representable range",
 "No test writes a record.",
 ["src/dataset/nuscenes/schema.rs"],[("timestamp_serde","src/dataset/nuscenes/schema.rs")],["serde of EgoPose, Sample, SampleData"])
p("C23","Euler angles and heading recover the rotation over the full circle",
 "For a rotation about the vertical axis by an angle in (-pi, pi] the heading is that angle. For any unit quaternion away from the vertical-pitch singularity the roll, pitch, yaw angles denote the same rotation, roll and yaw lie in [-pi, pi] and pitch in [-pi/2, pi/2].",
 ["inputs"],"every unit quaternion",
 "Tests use the identity quaternion.",
 ["src/utils/math.rs","src/object/object3d.rs"],[("quaternion2euler","src/utils/math.rs"),("DynamicObject::heading, euler","src/object/object3d.rs")],["perception_eval::utils::math::quaternion2euler","DynamicObject::heading"])
p("C24","Navigating a loaded dataset follows references and never fails",
 "From any record of a loaded dataset, following one of its references (sample, scene, log, instance, category, sensor, ego pose, calibrated sensor, previous, next, attributes) yields the record with exactly that token. Following previous after next, or next after previous, along a chain returns to the start. Navigation never panics on a dataset that loaded.",
 ["inputs"],"every loadable dataset, every record and every sequence of navigation steps",
 "No test navigates.",
 ["src/dataset/nuscenes/iter_impl/sample.rs","src/dataset/nuscenes/iter_impl/sample_data.rs","src/dataset/nuscenes/iter_impl/sample_annotation.rs","src/dataset/nuscenes/iter_impl/scene.rs","src/dataset/nuscenes/iter_impl/instance.rs","src/dataset/nuscenes/iter_impl/calibrated_sensor.rs"],[("WithDataset accessors and Iter implementations","src/dataset/nuscenes/iter_impl")],["WithDataset methods"])
p("C25","A scenario file maps field by field to the evaluation settings",
 "Building the evaluation settings from a scenario takes the task, frame, dataset path and version, every filter limit and every matching threshold from the corresponding entry, and the log and visualisation folders lie under the given result folder. A scenario with an unknown task or frame, a missing entry or no dataset is an error, never a panic.",
 ["inputs","configurations"],"every scenario file",
 "Tests load one scenario and never read a field back.",
 ["src/config.rs","src/config/schema.rs"],[("PerceptionEvaluationConfig::from","src/config.rs"),("ConfigParams serde","src/config/schema.rs")],["PerceptionEvaluationConfig::from"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
