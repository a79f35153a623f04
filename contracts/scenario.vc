//@needs config names
//@rename_p String::deserialize vde_string
//@rename_p Error::custom verr1
//@rename_p serde_yaml::from_reader vfrom_reader
//@rename_p Path::new vpath
//@type config.rs ConfigError
//@type config.rs PerceptionEvaluationConfig
//@type config/schema.rs Scenario de
//@type config/schema.rs Evaluation de
//@type config/schema.rs UseCase de
//@type config/schema.rs Dataset de
//@type config/schema.rs Conditions de
//@type config/schema.rs EvaluationConfig de
//@type config/schema.rs ConfigParams de
pub open spec fn evaluation_task_serde_de(t: VTok, v: EvaluationTask) -> bool { t is Str && doc_task(t->Str_0) == Some(v) }
pub open spec fn frame_id_serde_de(t: VTok, v: FrameID) -> bool { t is Str && doc_frame(t->Str_0) == Some(v) }
pub enum Level { Error, Warn, Info, Debug, Trace }
/// The entries of a scenario document.
pub open spec fn s_eval(d: VTok) -> VTok { d_get(d, "Evaluation"@) }
pub open spec fn s_par(d: VTok, k: &str) -> VTok { d_get(d_get(d_get(s_eval(d), "PerceptionEvaluationConfig"@), "evaluation_config_dict"@), k@) }
pub open spec fn s_first(d: VTok) -> VTok { d_list(d_get(s_eval(d), "Datasets"@))[0] }
pub open spec fn lab_doc(t: VTok, l: Label) -> bool { t is Str && l == name_label(t->Str_0) }
/// One entry per target label, each with the value of the document.
pub open spec fn per_label<T: De>(t: VTok, n: int, v: Seq<T>) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> T::de(t, #[trigger] v[i]) }
pub open spec fn opt_per_label(t: VTok, n: int, v: Option<Vec<usize>>) -> bool { match v { None => t is Nul || t is Absent, Some(x) => !(t is Nul) && per_label(t, n, x@) } }
pub open spec fn labels_doc(t: VTok, v: Seq<Label>) -> bool { v.len() == d_list(t).len() && forall|i: int| 0 <= i < v.len() ==> lab_doc(d_list(t)[i], #[trigger] v[i]) }
pub open spec fn cfg_task(d: VTok, c: PerceptionEvaluationConfig) -> bool { evaluation_task_serde_de(s_par(d, "evaluation_task"), c.evaluation_task) && frame_id_serde_de(s_par(d, "frame_id"), c.frame_id) }
pub open spec fn cfg_set(d: VTok, c: PerceptionEvaluationConfig) -> bool { d_list(d_get(s_eval(d), "Datasets"@)).len() > 0 && d_ents(s_first(d)).len() > 0
  && (d_ents(s_first(d)).len() == 1 ==> c.dataset_path.pt() == d_ents(s_first(d))[0].0 && String::de(d_get(d_ents(s_first(d))[0].1, "Version"@), c.version)) }
pub open spec fn cfg_filter(d: VTok, c: PerceptionEvaluationConfig) -> bool { let f = c.filter_params; let n = f.target_labels@.len() as int;
  labels_doc(s_par(d, "target_labels"), f.target_labels@) && per_label(s_par(d, "max_x_position"), n, f.max_x_positions@) && per_label(s_par(d, "max_y_position"), n, f.max_y_positions@)
  && opt_per_label(s_par(d, "min_point_number"), n, f.min_point_numbers) && Option::<Vec<String>>::de(s_par(d, "target_uuids"), f.target_uuids) }
pub open spec fn cfg_metrics(d: VTok, c: PerceptionEvaluationConfig) -> bool { let m = c.metrics_params; let n = m.target_labels@.len() as int;
  labels_doc(s_par(d, "target_labels"), m.target_labels@) && per_label(s_par(d, "center_distance_threshold"), n, m.center_distance_thresholds@) && per_label(s_par(d, "plane_distance_threshold"), n, m.plane_distance_thresholds@)
  && per_label(s_par(d, "iou_2d_threshold"), n, m.iou2d_thresholds@) && per_label(s_par(d, "iou_3d_threshold"), n, m.iou3d_thresholds@) }
pub open spec fn cfg_dirs(dir: Seq<char>, c: PerceptionEvaluationConfig) -> bool { c.result_dir.pt() == dir && c.log_dir.pt() == pjoin(dir, "log"@) && c.viz_dir.pt() == pjoin(dir, "visualize"@) }
pub open spec fn same_strs(a: Seq<&str>, b: Seq<String>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@ }
/// The names of a list of the document become the labels.
pub proof fn lemma_labels_doc() ensures forall|t: VTok, v: Vec<String>, n: Seq<&str>, l: Seq<Label>| #![trigger Vec::<String>::de(t, v), labels_of(l, n)] Vec::<String>::de(t, v) && n.len() == v@.len() && (forall|i: int| 0 <= i < n.len() ==> (#[trigger] n[i])@ == v@[i]@) && labels_of(l, n) ==> labels_doc(t, l) {
  assert forall|t: VTok, v: Vec<String>, n: Seq<&str>, l: Seq<Label>| #![trigger Vec::<String>::de(t, v), labels_of(l, n)] Vec::<String>::de(t, v) && n.len() == v@.len() && (forall|i: int| 0 <= i < n.len() ==> (#[trigger] n[i])@ == v@[i]@) && labels_of(l, n) implies labels_doc(t, l) by {
    assert forall|i: int| 0 <= i < l.len() implies lab_doc(d_list(t)[i], #[trigger] l[i]) by { assert(l[i] == name_label(n[i]@)); assert(String::de(d_list(t)[i], v@[i])); } } }
//@fn utils/logger.rs configure_logger(log_dir, level) -> r: Result<(), VErr> {{trusted}}
ensures r is Ok
//@end
//@fn config.rs load_yaml(path) -> r {{gen=P:&str;generics=<T: De>}}
ensures r is Ok ==> T::de(file_doc(path@), r->Ok_0), file_ok(path@) && (exists|v: T| T::de(file_doc(path@), v)) ==> r is Ok
//@end
//@fn config/schema.rs evaluation_task_serde::deserialize(deserializer: VDe) -> r: Result<EvaluationTask, VErr> {{gen=D:VDe;as=task_deserialize}}
ensures r is Ok ==> evaluation_task_serde_de(deserializer.tok(), r->Ok_0), (exists|v: EvaluationTask| evaluation_task_serde_de(deserializer.tok(), v)) ==> r is Ok
//@end
//@fn config/schema.rs frame_id_serde::deserialize(deserializer: VDe) -> r: Result<FrameID, VErr> {{gen=D:VDe;as=frame_deserialize}}
ensures r is Ok ==> frame_id_serde_de(deserializer.tok(), r->Ok_0), (exists|v: FrameID| frame_id_serde_de(deserializer.tok(), v)) ==> r is Ok
//@end
//@fn config.rs PerceptionEvaluationConfig::from(scenario, result_dir, load_raw_data) -> r
ensures r is Ok ==> cfg_task(file_doc(scenario@), r->Ok_0), r is Ok ==> cfg_set(file_doc(scenario@), r->Ok_0), r is Ok ==> cfg_filter(file_doc(scenario@), r->Ok_0),
 r is Ok ==> cfg_metrics(file_doc(scenario@), r->Ok_0), r is Ok ==> cfg_dirs(result_dir@, r->Ok_0) && r->Ok_0.load_raw_data == load_raw_data,
 file_ok(scenario@) && (exists|v: Scenario| Scenario::de(file_doc(scenario@), v)) && d_list(d_get(s_eval(file_doc(scenario@)), "Datasets"@)).len() > 0 && d_ents(s_first(file_doc(scenario@))).len() > 0 ==> r is Ok
inv (A:PathBuf) $i == 0 ==> $A.pt() == Seq::<char>::empty()
inv (A:PathBuf, V:Map) $i == 1 ==> $A.pt() == psetfn(Seq::empty(), $V.en()[0].0@)
inv (A:str, V:Map<str,Dataset>) $i > 0 ==> $A@ == $V.en()[$i - 1].1.version@
inv (A:Vec<str>) same_strs($A@, $s)
start lemma_labels_doc();
start ax_psetfn();
//@end
