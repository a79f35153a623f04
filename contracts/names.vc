//@needs core
//@type evaluation_task.rs EvaluationTask
//@type evaluation_task.rs EvaluationTaskError
//@type frame_id.rs FrameIdError
pub open spec fn is_s(s: Seq<char>, n: &str) -> bool { s == n@ }
/// The two documented spellings of each value.
pub open spec fn doc_frame(s: Seq<char>) -> Option<FrameID> {
  if is_s(s, "BaseLink") || is_s(s, "base_link") { Some(FrameID::BaseLink) } else
  if is_s(s, "Map") || is_s(s, "map") { Some(FrameID::Map) } else
  if is_s(s, "CamBack") || is_s(s, "cam_back") { Some(FrameID::CamBack) } else
  if is_s(s, "CamBackLeft") || is_s(s, "cam_back_left") { Some(FrameID::CamBackLeft) } else
  if is_s(s, "CamBackRight") || is_s(s, "cam_back_right") { Some(FrameID::CamBackRight) } else
  if is_s(s, "CamFront") || is_s(s, "cam_front") { Some(FrameID::CamFront) } else
  if is_s(s, "CamFrontLeft") || is_s(s, "cam_front_left") { Some(FrameID::CamFrontLeft) } else
  if is_s(s, "CamFrontRight") || is_s(s, "cam_front_right") { Some(FrameID::CamFrontRight) } else
  if is_s(s, "CamTrafficLightNear") || is_s(s, "cam_traffic_light_near") { Some(FrameID::CamTrafficLightNear) } else
  if is_s(s, "CamTrafficLightFar") || is_s(s, "cam_traffic_light_far") { Some(FrameID::CamTrafficLightFar) } else
  { None } }
pub proof fn lemma_frame_roundtrip(v: FrameID) ensures doc_frame(v.dbg()) == Some(v) {
  reveal_strlit("BaseLink");
  reveal_strlit("Map");
  reveal_strlit("CamBack");
  reveal_strlit("CamBackLeft");
  reveal_strlit("CamBackRight");
  reveal_strlit("CamFront");
  reveal_strlit("CamFrontLeft");
  reveal_strlit("CamFrontRight");
  reveal_strlit("CamTrafficLightNear");
  reveal_strlit("CamTrafficLightFar");
  reveal_strlit("base_link");
  reveal_strlit("map");
  reveal_strlit("cam_back");
  reveal_strlit("cam_back_left");
  reveal_strlit("cam_back_right");
  reveal_strlit("cam_front");
  reveal_strlit("cam_front_left");
  reveal_strlit("cam_front_right");
  reveal_strlit("cam_traffic_light_near");
  reveal_strlit("cam_traffic_light_far");
  assert("BaseLink"@[0] == 'B' && "CamFront"@[0] == 'C');
  assert("BaseLink"@[0] == 'B' && "cam_back"@[0] == 'c');
  assert("Map"@[0] == 'M' && "map"@[0] == 'm');
  assert("CamBackRight"@[3] == 'B' && "CamFrontLeft"@[3] == 'F');
  assert("CamFront"@[0] == 'C' && "BaseLink"@[0] == 'B');
  assert("CamFront"@[0] == 'C' && "cam_back"@[0] == 'c');
  assert("CamFrontLeft"@[3] == 'F' && "CamBackRight"@[3] == 'B');
  assert("CamFrontRight"@[0] == 'C' && "cam_back_left"@[0] == 'c');
  match v { FrameID::BaseLink => { assert(v.dbg() == "BaseLink"@); assert(is_s(v.dbg(), "BaseLink")); } FrameID::Map => { assert(v.dbg() == "Map"@); assert(is_s(v.dbg(), "Map")); } FrameID::CamBack => { assert(v.dbg() == "CamBack"@); assert(is_s(v.dbg(), "CamBack")); } FrameID::CamBackLeft => { assert(v.dbg() == "CamBackLeft"@); assert(is_s(v.dbg(), "CamBackLeft")); } FrameID::CamBackRight => { assert(v.dbg() == "CamBackRight"@); assert(is_s(v.dbg(), "CamBackRight")); } FrameID::CamFront => { assert(v.dbg() == "CamFront"@); assert(is_s(v.dbg(), "CamFront")); } FrameID::CamFrontLeft => { assert(v.dbg() == "CamFrontLeft"@); assert(is_s(v.dbg(), "CamFrontLeft")); } FrameID::CamFrontRight => { assert(v.dbg() == "CamFrontRight"@); assert(is_s(v.dbg(), "CamFrontRight")); } FrameID::CamTrafficLightNear => { assert(v.dbg() == "CamTrafficLightNear"@); assert(is_s(v.dbg(), "CamTrafficLightNear")); } FrameID::CamTrafficLightFar => { assert(v.dbg() == "CamTrafficLightFar"@); assert(is_s(v.dbg(), "CamTrafficLightFar")); } }
}
//@fn frame_id.rs FrameID::from_str(input) -> r: Result<FrameID, FrameIdError> {{trait=FromStr}}
ensures doc_frame(input@) is Some ==> r is Ok && r->Ok_0 == doc_frame(input@)->0, doc_frame(input@) is None ==> r is Err
start reveal_strlit("BaseLink"); reveal_strlit("Map"); reveal_strlit("CamBack"); reveal_strlit("CamBackLeft"); reveal_strlit("CamBackRight"); reveal_strlit("CamFront"); reveal_strlit("CamFrontLeft"); reveal_strlit("CamFrontRight"); reveal_strlit("CamTrafficLightNear"); reveal_strlit("CamTrafficLightFar"); reveal_strlit("base_link"); reveal_strlit("map"); reveal_strlit("cam_back"); reveal_strlit("cam_back_left"); reveal_strlit("cam_back_right"); reveal_strlit("cam_front"); reveal_strlit("cam_front_left"); reveal_strlit("cam_front_right"); reveal_strlit("cam_traffic_light_near"); reveal_strlit("cam_traffic_light_far");
start assert("BaseLink"@[0] == 'B' && "CamFront"@[0] == 'C'); assert("BaseLink"@[0] == 'B' && "cam_back"@[0] == 'c'); assert("Map"@[0] == 'M' && "map"@[0] == 'm'); assert("CamBackRight"@[3] == 'B' && "CamFrontLeft"@[3] == 'F'); assert("CamFront"@[0] == 'C' && "cam_back"@[0] == 'c'); assert("CamFrontRight"@[0] == 'C' && "cam_back_left"@[0] == 'c'); assert("base_link"@[0] == 'b' && "cam_front"@[0] == 'c'); assert("cam_back_right"@[4] == 'b' && "cam_front_left"@[4] == 'f');
//@end
//@fn frame_id.rs FrameID::fmt(f: &mut VFmt) -> r: Result<(), VErr> {{trait=Display}}
ensures r is Ok ==> final(f)@ == old(f)@ + self.dbg()
//@end
/// The two documented spellings of each value.
pub open spec fn doc_task(s: Seq<char>) -> Option<EvaluationTask> {
  if is_s(s, "Detection") || is_s(s, "detection") { Some(EvaluationTask::Detection) } else
  if is_s(s, "Tracking") || is_s(s, "tracking") { Some(EvaluationTask::Tracking) } else
  if is_s(s, "Prediction") || is_s(s, "prediction") { Some(EvaluationTask::Prediction) } else
  { None } }
pub proof fn lemma_task_roundtrip(v: EvaluationTask) ensures doc_task(v.dbg()) == Some(v) {
  reveal_strlit("Detection");
  reveal_strlit("Tracking");
  reveal_strlit("Prediction");
  reveal_strlit("detection");
  reveal_strlit("tracking");
  reveal_strlit("prediction");
  assert("Detection"@[0] == 'D' && "detection"@[0] == 'd');
  assert("Tracking"@[0] == 'T' && "tracking"@[0] == 't');
  assert("Prediction"@[0] == 'P' && "prediction"@[0] == 'p');
  match v { EvaluationTask::Detection => { assert(v.dbg() == "Detection"@); assert(is_s(v.dbg(), "Detection")); } EvaluationTask::Tracking => { assert(v.dbg() == "Tracking"@); assert(is_s(v.dbg(), "Tracking")); } EvaluationTask::Prediction => { assert(v.dbg() == "Prediction"@); assert(is_s(v.dbg(), "Prediction")); } }
}
//@fn evaluation_task.rs EvaluationTask::from_str(input) -> r: Result<EvaluationTask, EvaluationTaskError> {{trait=FromStr}}
ensures doc_task(input@) is Some ==> r is Ok && r->Ok_0 == doc_task(input@)->0, doc_task(input@) is None ==> r is Err
start reveal_strlit("Detection"); reveal_strlit("Tracking"); reveal_strlit("Prediction"); reveal_strlit("detection"); reveal_strlit("tracking"); reveal_strlit("prediction");
start assert("Detection"@[0] == 'D' && "detection"@[0] == 'd'); assert("Tracking"@[0] == 'T' && "tracking"@[0] == 't'); assert("Prediction"@[0] == 'P' && "prediction"@[0] == 'p');
//@end
//@fn evaluation_task.rs EvaluationTask::fmt(f: &mut VFmt) -> r: Result<(), VErr> {{trait=Display}}
ensures r is Ok ==> final(f)@ == old(f)@ + self.dbg()
//@end
//@fn evaluation_task.rs EvaluationTask::is_3d() -> r
ensures r == (self is Detection || self is Tracking || self is Prediction)
//@end
//@fn evaluation_task.rs EvaluationTask::is_2d() -> r
ensures r == !(self is Detection || self is Tracking || self is Prediction)
//@end
//@fn evaluation_task.rs set_task(task_name) -> r
ensures doc_task(task_name@) is Some ==> r is Ok && r->Ok_0 == doc_task(task_name@)->0, doc_task(task_name@) is None ==> r is Err
//@end
