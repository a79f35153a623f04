"""What each check verifies.  mods: contract files; verify: those whose functions are verified (others are assumed stubs)."""
COMMON_TRUST = [
    "Verus 0.2026.09.13 and Z3",
    "tools/rs2v: the mechanical extraction of /repo/src into Verus' subset (what it drops and renames is listed in DESIGN.md)",
    "contracts/prelude.rs: contracts of std, chrono, nalgebra and geo operations (assumed)",
    "f64 is modelled as finite values with mathematical (unrounded) arithmetic plus an explicit not-finite case",
]
TRUST = {}
BETTER = [f"{m}Matching::is_better_than" for m in ("CenterDistance", "PlaneDistance", "Iou2d", "Iou3d")]
FOOT = ["quaternion2rotation", "DynamicObject::rotation_matrix", "DynamicObject::footprint"]
LOADING = ["serde_json returns records the file describes (De, uninterpreted for the records of the schema)", "the standard library's grouping and sorting glue (vgroup, vsort_by_key)", "progress bars do not change what an iterator yields", "no map has usize::MAX entries or more"]
PROPS = {
    "C01": {"mods": ["filter"], "note": "filter_objects returns Seq::filter of the criteria, for every input; fields of FilterParams of equal length are assumed here and established by C02"},
    "C03": {"mods": ["group"], "verify": ["group"], "note": "hash_objects, hash_results, hash_num_objects, hash_num_results: full functional contract for every input"},
    "C04": {"mods": ["match", "objeq"], "verify": ["match", "dist", "objeq", "PerceptionResult::new", "CenterDistanceMatching::calculate_matching_score"], "note": "get_perception_results: full functional contract (one result per estimate, injective, equal labels, maximal) for every input with finite scores"},
    "C05": {"mods": ["match", "objeq"], "verify": ["match", "dist", "objeq", "PerceptionResult::new", "CenterDistanceMatching::calculate_matching_score"], "note": "get_perception_results: the greedy nearest-first order is a postcondition, for every input with finite scores"},
    "C06": {"mods": ["frame", "objeq", "threshold"], "verify": ["frame", "result", "objeq", "threshold", *BETTER], "assumptions": ["calculate_matching_score is a function of its arguments"],
            "note": "PerceptionFrameResult::new and its helpers: TP, FP and FN lists are Seq::filter of the criteria, for every input; the lists of thresholds and labels having equal length is assumed here and established by C02"},
    "C02": {"mods": ["config", "threshold", "label"], "verify": ["config", "threshold", "label"], "note": "get_label_threshold and convert_labels: full functional contracts; FilterParams::new and MetricsParams::new: every list is the scalar repeated once per target label"},
    "C07": {"mods": ["plane", "result"], "verify": [["dist", "get_point_left_right", *[f"{m}DistanceMatching::calculate_matching_score" for m in ("Center", "Plane")]], ["result", *BETTER[:2]], FOOT],
            "note": "distances, get_point_left_right, PlaneDistanceMatching, is_result_correct: exact real-valued contracts for every pair of objects with finite pose; self-distance, symmetry and strict thresholds are lemmas over the contracts"},
    "C08": {"mods": ["iou", "result"], "verify": [["iou", *[f"Iou{m}Matching::calculate_matching_score" for m in ("2d", "3d")]], ["result", *BETTER[2:]], [*FOOT, "DynamicObject::area", "DynamicObject::volume"]],
            "trust": ["geo polygon intersection: the overlap of two parallelograms is symmetric, between 0 and either area, the area itself for a polygon with itself, 0 for separated ones (axiom ax_olap); geo's own panics are outside the contract (known finding)"],
            "note": "get_intersection_area/height/volume, Iou2dMatching, Iou3dMatching, is_result_correct: exact real-valued contracts for every pair of objects with finite pose; range, symmetry, extreme values are lemmas over the contracts for upright objects"},
    "C09": {"mods": ["apthm"], "verify": [["ap", "apthm", "TPMetricsAP::get_value"], ["result", *BETTER]], "assumptions": ["calculate_matching_score is a function of its arguments"],
            "note": "Ap::calculate_ap and its helpers: the returned number is the area under the interpolated curve of a ranking by descending confidence, for every list of results; bounds, extreme values and order independence are lemmas over that contract"},
    "C10": {"mods": ["apthm"], "verify": ["tp", "apthm"], "assumptions": ["heading() is a function of the object; its range is established by C23"],
            "note": "TPMetricsAPH::get_value and TPMetricsAP::get_value: exact weight for every pair of objects with finite orientation; range, symmetry, extreme values, wrap around and APH <= AP are lemmas over the contracts"},
    "C11": {"mods": ["manager"], "verify": [["manager"], ["group", "filter", "threshold"], ["ap", "TPMetricsAP::get_value", "TPMetricsAPH::get_value"], ["frame", "result"]], "assumptions": ["calculate_matching_score is a function of its arguments", "the number of ground truths of a label fits into usize"],
            "note": "add_frame_result, get_metrics_score, evaluate_detection, DetectionMetricsScore::new: for every history of frames the score is AP/APH of all results and ground truths of the frames so far; equal lengths of the configured lists are assumed here and established by C02; the matching is C04"},
    "C12": {"mods": ["rot"], "verify": ["quaternion2rotation", "inverse_quaternion", "translate", "translate_inv", "rotate", "rotate_inv", "rotate_q", "rotate_q_inv", "rot"],
            "note": "utils::math and NuScenesBox transforms: exact real-valued contracts for every point and unit quaternion; isometry, inverse, composition, sandwich product and proper rotation are lemmas over the contracts (polynomial identities by Z3 QF_NRA)"},
    "C13": {"mods": ["foot"], "verify": ["quaternion2rotation", "DynamicObject::rotation_matrix", "DynamicObject::footprint", "DynamicObject::area", "DynamicObject::volume"],
            "note": "footprint, area, volume: exact real-valued contracts for every object with unit orientation; symmetry and the aligned rectangle are lemmas over the contracts"},
    "C14": {"mods": ["nusc"], "verify": ["nusc", "inverse_quaternion", "translate_inv", "rotate_inv", "rotate_q_inv", "NuScenesBox::translate_inv", "NuScenesBox::rotate_inv"],
            "assumptions": ["the tables hold each annotation under its own token, and samples list known annotations: proved of every dataset that loads (lemma_loads, C15; lemma_wf, C17)"],
            "note": "get_sample_data, get_boxes, get_box, get_sample_data_path: one box per annotation of the sample, in order, with exact record and real-valued pose, for every dataset and token; an unknown token is an error"},
    "C23": {"mods": ["head"], "verify": ["head"], "note": "quaternion2euler, DynamicObject::euler and heading: exact angles for every unit quaternion away from the singularity; that they denote the same rotation and that a heading is recovered are lemmas over the contracts"},
    "C15": {"mods": ["load"], "verify": [["load"]], "hang": True, "scale": 5, "assumptions": LOADING,
            "note": "NuScenes::load and its helpers: if it returns a dataset, every reference of it resolves and the chains, their backward links and counts agree (`loads`, from which lemma_loads derives `wf`), for every content of the files; every loop terminates and nothing panics"},
    "C16": {"mods": ["load"], "verify": [["load"], [*[f"{k} iterator" for k in ("SampleInternal", "SceneInternal", "EgoPose", "SampleData", "SampleAnnotation")], *[f"NuScenes::{k}_iter" for k in ("sample", "scene", "ego_pose", "sample_data", "refer")], "SceneInternal::sample_iter", "InstanceInternal::sample_annotation_iter", "SampleInternal::sample_annotation_iter", "SampleInternal::sample_data_iter", "WithDataset::refer_iter", "WithDataset::refer", "Iter::refer", "WithDataset::deref"]],
            "scale": 6, "hang": True, "assumptions": [*LOADING, "a for loop over an iterator of the crate performs successive calls of its next method"],
            "note": "NuScenes::load, InstanceInternal::from, SceneInternal::from, SampleInternal::from: the lists of a loaded dataset are exactly the chains, the groups and the sorted tokens of its records, for every content of the files; the iterators yield them in that order"},
    "C17": {"mods": ["frames"], "verify": [["frames", "SampleInternal::sample_data_iter", "NuScenes::sample_iter", "SampleInternal iterator", "SampleData iterator", "NuScenes::refer_iter", "WithDataset::refer_iter", "WithDataset::refer", "Iter::refer", "WithDataset::deref", "LongToken::fmt", "label"], ["nusc", "inverse_quaternion", "translate_inv", "rotate_inv", "rotate_q_inv", "NuScenesBox::translate_inv", "NuScenesBox::rotate_inv"]],
            "assumptions": ["NuScenes::load returns what C15 and C16 prove of it (its contract, assumed in this run)", "a for loop over an iterator of the crate performs successive calls of its next method", "writing to a String does not fail", "progress bars do not change what an iterator yields"],
            "note": "sample_to_frame and load_dataset: the exact list of objects of every frame, and the frames in the order of the samples, for every dataset that loads; a dataset that loads never fails here"},
    "C24": {"mods": ["nav"], "verify": ["nav"],
            "assumptions": ["the invariant `wf` required of the dataset is proved of every dataset that loads (lemma_loads, C15)", "a for loop over an iterator of the crate performs successive calls of its next method"],
            "note": "every accessor and iterator of WithDataset and NuScenes: the record with exactly the referenced token, without panic, for every well-formed dataset; the round trips along the chains are lemmas over the contracts"},
    "C25": {"mods": ["scenario"], "verify": ["scenario", "label", "FilterParams::new", "MetricsParams::new", "EvaluationTask::from_str", "FrameID::from_str"],
            "assumptions": ["the logger can be set up (first settings of the process, writable result folder)", "serde_yaml returns a value the document describes under the serde attributes (De, generated from the attributes of the structs on every run)"],
            "note": "PerceptionEvaluationConfig::from, load_yaml and the task and frame deserialisers: every setting is the entry of the document, for every document; no panic; an undescribed document is an error"},
    "C18": {"mods": ["current"], "note": "get_current_frame: full functional contract for every list of frames and every timestamp"},
    "C19": {"mods": ["label"], "note": "label conversion and printing: full table per naming scheme as postcondition, and the round trip as a lemma over the two contracts"},
    "C20": {"mods": ["names"], "note": "FrameID and EvaluationTask from_str / Display: exact table of accepted spellings, and the round trips as lemmas over the contracts"},
    "C21": {"mods": ["token"], "note": "LongToken parsing, printing and serde: exact acceptance and round trip for every text"},
    "C22": {"mods": ["time"], "note": "timestamp_serde: exact instants and round trips for every number of microseconds up to 2^53"},
}
NOT_APPLICABLE = {}
