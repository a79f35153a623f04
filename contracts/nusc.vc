//@needs rot token
//@type dataset/nuscenes/schema.rs Attribute
//@type dataset/nuscenes/schema.rs CalibratedSensor
//@type dataset/nuscenes/schema.rs Category
//@type dataset/nuscenes/schema.rs EgoPose
//@type dataset/nuscenes/schema.rs Instance
//@type dataset/nuscenes/schema.rs Log
//@type dataset/nuscenes/schema.rs Map
//@type dataset/nuscenes/schema.rs Sample
//@type dataset/nuscenes/schema.rs SampleAnnotation
//@type dataset/nuscenes/schema.rs SampleData
//@type dataset/nuscenes/schema.rs Scene
//@type dataset/nuscenes/schema.rs Sensor
//@type dataset/nuscenes/schema.rs Visibility
//@type dataset/nuscenes/schema.rs Modality
//@type dataset/nuscenes/schema.rs FileFormat
//@type dataset/nuscenes/schema.rs VisibilityLevel
//@type dataset/nuscenes/schema.rs Channel
//@type dataset/nuscenes/internal.rs SampleInternal
//@type dataset/nuscenes/internal.rs InstanceInternal
//@type dataset/nuscenes/internal.rs SceneInternal
//@type dataset/nuscenes.rs NuScenes
pub struct NaiveDate { pub v: u8 }
/// The boxes of one sample data (C14).
pub open spec fn box_ok(n: NuScenes, t: LongToken) -> bool { n.sample_annotation_map@.contains_key(t) && n.instance_map@.contains_key(n.sample_annotation_map@[t].instance_token)
  && n.category_map@.contains_key(n.instance_map@[n.sample_annotation_map@[t].instance_token].category_token) }
/// Everything but the pose.
pub open spec fn box_rec(n: NuScenes, t: LongToken, b: NuScenesBox) -> bool { let a = n.sample_annotation_map@[t];
  b.size == a.size && b.name@ == n.category_map@[n.instance_map@[a.instance_token].category_token].name@ && b.instance == a.instance_token && b.num_lidar_pts == a.num_lidar_pts && b.token == a.token }
pub open spec fn is_box(n: NuScenes, t: LongToken, b: NuScenesBox) -> bool { let a = n.sample_annotation_map@[t]; box_ok(n, t) && box_rec(n, t, b) && b.position == a.translation && b.orientation == a.rotation }
pub open spec fn sample_of(n: NuScenes, sd: LongToken) -> SampleInternal { n.sample_map@[n.sample_data_map@[sd].sample_token] }
pub open spec fn sd_ok(n: NuScenes, sd: LongToken) -> bool { n.sample_data_map@.contains_key(sd) && n.sample_map@.contains_key(n.sample_data_map@[sd].sample_token) }
pub open spec fn anns_of(n: NuScenes, sd: LongToken) -> Seq<LongToken> { sample_of(n, sd).annotation_tokens@ }
pub open spec fn boxes_upto(n: NuScenes, ts: Seq<LongToken>, v: Seq<NuScenesBox>, k: int) -> bool { v.len() == k && forall|j: int| 0 <= j < k ==> is_box(n, ts[j], #[trigger] v[j]) }
pub open spec fn recs_upto(n: NuScenes, ts: Seq<LongToken>, v: Seq<&SampleAnnotation>, k: int) -> bool { v.len() == k && forall|j: int| 0 <= j < k ==> *(#[trigger] v[j]) == n.sample_annotation_map@[ts[j]] }
pub open spec fn all_box_ok(n: NuScenes, ts: Seq<LongToken>) -> bool { forall|j: int| 0 <= j < ts.len() ==> box_ok(n, #[trigger] ts[j]) }
/// Records are stored under their own token, and samples list known annotations (established by loading).
pub open spec fn ann_wf(n: NuScenes) -> bool { (forall|t: LongToken| #[trigger] n.sample_annotation_map@.contains_key(t) ==> n.sample_annotation_map@[t].token == t)
  && (forall|s: LongToken, j: int| #![trigger n.sample_map@[s].annotation_tokens@[j]] n.sample_map@.contains_key(s) && 0 <= j < n.sample_map@[s].annotation_tokens@.len() ==> n.sample_annotation_map@.contains_key(n.sample_map@[s].annotation_tokens@[j])) }
/// `r` is `p` seen from a frame with pose (t, q): the inverse transform.
pub open spec fn inv_pos(r: Seq<F>, p: Seq<F>, t: Seq<F>, q: Seq<F>) -> bool { exists|d: Seq<F>| #[trigger] is_diff(d, p, t) && is_rp_conj(r, q, d) }
pub proof fn lemma_inv_pos() ensures forall|r: Seq<F>, p: Seq<F>, t: Seq<F>, q: Seq<F>, d: Seq<F>| #![trigger is_diff(d, p, t), is_rp_conj(r, q, d)] is_diff(d, p, t) && is_rp_conj(r, q, d) ==> inv_pos(r, p, t, q) { }
pub open spec fn fin_poses(n: NuScenes, sd: LongToken, sf: bool, t: LongToken) -> bool { let s = n.sample_data_map@[sd]; let a = n.sample_annotation_map@[t]; let e = n.ego_pose_map@[s.ego_pose_token]; let c = n.calibrated_sensor_map@[s.calibrated_sensor_token];
  fin3(a.translation@) && fin4(a.rotation@) && fin3(e.translation@) && unit(e.rotation@) && (sf ==> fin3(c.translation@) && unit(c.rotation@)) }
pub open spec fn seen_pos(n: NuScenes, sd: LongToken, sf: bool, t: LongToken, r: Seq<F>) -> bool { let s = n.sample_data_map@[sd]; let a = n.sample_annotation_map@[t]; let e = n.ego_pose_map@[s.ego_pose_token]; let c = n.calibrated_sensor_map@[s.calibrated_sensor_token];
  if sf { exists|m: Seq<F>| #[trigger] inv_pos(m, a.translation@, e.translation@, e.rotation@) && inv_pos(r, m, c.translation@, c.rotation@) } else { inv_pos(r, a.translation@, e.translation@, e.rotation@) } }
pub open spec fn seen_rot(n: NuScenes, sd: LongToken, sf: bool, t: LongToken, r: Seq<F>) -> bool { let s = n.sample_data_map@[sd]; let a = n.sample_annotation_map@[t]; let e = n.ego_pose_map@[s.ego_pose_token]; let c = n.calibrated_sensor_map@[s.calibrated_sensor_token];
  if sf { exists|m: Seq<F>| #[trigger] is_hm_conj(m, e.rotation@, a.rotation@) && is_hm_conj(r, c.rotation@, m) } else { is_hm_conj(r, e.rotation@, a.rotation@) } }
/// The box of annotation `t` seen from the ego frame (`sf`: the sensor frame) of sample data `sd`.
pub open spec fn seen_box(n: NuScenes, sd: LongToken, sf: bool, t: LongToken, b: NuScenesBox) -> bool { box_ok(n, t) && box_rec(n, t, b) && (fin_poses(n, sd, sf, t) ==> seen_pos(n, sd, sf, t, b.position@) && seen_rot(n, sd, sf, t, b.orientation@)) }
pub open spec fn seen_upto(n: NuScenes, sd: LongToken, sf: bool, v: Seq<NuScenesBox>, k: int) -> bool { v.len() == anns_of(n, sd).len() && (forall|j: int| 0 <= j < k ==> seen_box(n, sd, sf, anns_of(n, sd)[j], #[trigger] v[j]))
  && (forall|j: int| k <= j < v.len() ==> is_box(n, anns_of(n, sd)[j], #[trigger] v[j])) }
pub open spec fn sd_known(n: NuScenes, sd: LongToken) -> bool { sd_ok(n, sd) && n.ego_pose_map@.contains_key(n.sample_data_map@[sd].ego_pose_token) && n.calibrated_sensor_map@.contains_key(n.sample_data_map@[sd].calibrated_sensor_token) }
//@fn dataset/nuscenes.rs NuScenes::get_sample_data_path(sample_data_token) -> r
ensures r is Ok <==> self.sample_data_map@.contains_key(*sample_data_token), r is Ok ==> r->Ok_0.pt() == pjoin(self.dataset_dir.pt(), self.sample_data_map@[*sample_data_token].filename.pt())
//@end
//@fn dataset/nuscenes.rs NuScenes::get_box(sample_annotation_token) -> r
ensures r is Ok <==> box_ok(*self, *sample_annotation_token), r is Ok ==> is_box(*self, *sample_annotation_token, r->Ok_0)
//@end
//@fn dataset/nuscenes.rs NuScenes::get_boxes(sample_data_token) -> r
requires ann_wf(*self)
ensures r is Ok <==> sd_ok(*self, *sample_data_token) && all_box_ok(*self, anns_of(*self, *sample_data_token)),
 r is Ok ==> boxes_upto(*self, anns_of(*self, *sample_data_token), r->Ok_0@, anns_of(*self, *sample_data_token).len() as int)
inv (A:Vec<NuScenesBox>) boxes_upto(*self, anns_of(*self, *sample_data_token), $A@, $i as int)
inv (A:Vec<SampleAnnotation>) recs_upto(*self, anns_of(*self, *sample_data_token), $A@, $i as int)
inv forall|j: int| 0 <= j < $i ==> box_ok(*self, #[trigger] anns_of(*self, *sample_data_token)[j])
//@end
//@fn dataset/nuscenes.rs NuScenes::get_sample_data(sample_data_token, use_sensor_frame) -> r
requires ann_wf(*self)
ensures r is Ok <==> sd_known(*self, *sample_data_token) && all_box_ok(*self, anns_of(*self, *sample_data_token)),
 r is Ok ==> seen_upto(*self, *sample_data_token, *use_sensor_frame, (r->Ok_0).1@, anns_of(*self, *sample_data_token).len() as int),
 r is Ok ==> (r->Ok_0).0.pt() == pjoin(self.dataset_dir.pt(), self.sample_data_map@[*sample_data_token].filename.pt())
inv (A:Vec<NuScenesBox>) seen_upto(*self, *sample_data_token, *use_sensor_frame, $A@, $i as int)
start lemma_inv_pos();
//@end
