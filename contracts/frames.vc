//@needs load label current names
/// The blanket `to_string` of std: Display::fmt into an empty buffer, which does not fail.
impl LongToken { pub fn vto_string(&self) -> (r: String) ensures r@ == hex_enc(self.0@) { let mut f = VFmt::vnew(); let k = self.fmt(&mut f); assume(k is Ok); let r = f.vdone(); assert(r@ =~= hex_enc(self.0@)); r } }
/// Sample data `d` was taken by a lidar exactly at the time of sample `s`.
pub open spec fn is_key(n: NuScenes, s: SampleInternal, d: LongToken) -> bool { let x = n.sample_data_map@[d]; n.sensor_map@[n.calibrated_sensor_map@[x.calibrated_sensor_token].sensor_token].modality == Modality::Lidar && x.timestamp == s.timestamp }
/// Everything but the pose of the object of annotation `t`.
pub open spec fn obj_rec(n: NuScenes, s: SampleInternal, t: LongToken, fid: FrameID, o: DynamicObject) -> bool { let a = n.sample_annotation_map@[t];
  o.timestamp == s.timestamp && o.size == a.size && o.confidence.ok() && o.confidence.rv() == 1real && o.label == name_label(n.category_map@[n.instance_map@[a.instance_token].category_token].name@) && o.velocity is None && o.frame_id == fid
  && o.pointcloud_num == Some(a.num_lidar_pts) && o.uuid is Some && (o.uuid->0)@ == hex_enc(a.instance_token.0@) }
/// The object of annotation `t` of sample `s`, seen from the ego frame of sample data `d`.
pub open spec fn is_obj(n: NuScenes, s: SampleInternal, d: LongToken, t: LongToken, fid: FrameID, o: DynamicObject) -> bool { obj_rec(n, s, t, fid, o) && (fin_poses(n, d, false, t) ==> seen_pos(n, d, false, t, o.position@) && seen_rot(n, d, false, t, o.orientation@)) }
/// The number of objects of the first `k` sample data of `s`.
pub open spec fn nobj(n: NuScenes, s: SampleInternal, k: int) -> int decreases k { if k <= 0 { 0 } else { nobj(n, s, k - 1) + if is_key(n, s, s.sample_data_tokens@[k - 1]) { s.annotation_tokens@.len() as int } else { 0 } } }
/// The objects of sample data `k` of `s` are in `v`, the first `m` of them.
pub open spec fn objs_at(n: NuScenes, s: SampleInternal, fid: FrameID, v: Seq<DynamicObject>, k: int, m: int) -> bool { let d = s.sample_data_tokens@[k]; forall|j: int, i: int| #![trigger s.annotation_tokens@[j], v[i]] 0 <= j < m && i == nobj(n, s, k) + j ==> is_obj(n, s, d, s.annotation_tokens@[j], fid, v[i]) }
pub open spec fn objs_upto(n: NuScenes, s: SampleInternal, fid: FrameID, v: Seq<DynamicObject>, k: int) -> bool { v.len() == nobj(n, s, k) && forall|q: int| 0 <= q < k && is_key(n, s, s.sample_data_tokens@[q]) ==> #[trigger] objs_at(n, s, fid, v, q, s.annotation_tokens@.len() as int) }
pub open spec fn objs_part(n: NuScenes, s: SampleInternal, fid: FrameID, v: Seq<DynamicObject>, k: int, m: int) -> bool { v.len() == nobj(n, s, k) + m && objs_at(n, s, fid, v, k, m) && forall|q: int| 0 <= q < k && is_key(n, s, s.sample_data_tokens@[q]) ==> #[trigger] objs_at(n, s, fid, v, q, s.annotation_tokens@.len() as int) }
/// The frame of a sample (C17).
pub open spec fn is_frame(n: NuScenes, s: SampleInternal, fid: FrameID, f: FrameGroundTruth) -> bool { f.timestamp == s.timestamp && objs_upto(n, s, fid, f.objects@, s.sample_data_tokens@.len() as int) }
pub open spec fn frames_upto(n: NuScenes, fid: FrameID, v: Seq<FrameGroundTruth>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> is_frame(n, n.sample_map@[n.sorted_sample_tokens@[i]], fid, #[trigger] v[i]) }
pub proof fn lemma_nobj(n: NuScenes, s: SampleInternal, a: int, b: int) requires 0 <= a <= b ensures 0 <= nobj(n, s, a) <= nobj(n, s, b), a < b && is_key(n, s, s.sample_data_tokens@[a]) ==> nobj(n, s, a) + s.annotation_tokens@.len() <= nobj(n, s, b) decreases b, a { if b > a { lemma_nobj(n, s, a, b - 1); } else if a > 0 { lemma_nobj(n, s, a - 1, a - 1); } }
/// Adding the object of box `m` of sample data `k`.
pub proof fn lemma_push(n: NuScenes, s: SampleInternal, fid: FrameID, v: Seq<DynamicObject>, k: int, m: int, o: DynamicObject)
  requires 0 <= k, 0 <= m < s.annotation_tokens@.len(), objs_part(n, s, fid, v, k, m), is_obj(n, s, s.sample_data_tokens@[k], s.annotation_tokens@[m], fid, o)
  ensures objs_part(n, s, fid, v.push(o), k, m + 1)
{ assert forall|q: int| 0 <= q < k && is_key(n, s, s.sample_data_tokens@[q]) implies #[trigger] objs_at(n, s, fid, v.push(o), q, s.annotation_tokens@.len() as int) by { lemma_nobj(n, s, q, k); assert(objs_at(n, s, fid, v, q, s.annotation_tokens@.len() as int)); } }
pub proof fn lemma_pushes(n: NuScenes, s: SampleInternal, fid: FrameID) ensures forall|v: Seq<DynamicObject>, k: int, m: int, o: DynamicObject| #![trigger objs_part(n, s, fid, v, k, m), v.push(o)] 0 <= k && 0 <= m < s.annotation_tokens@.len() && objs_part(n, s, fid, v, k, m) && is_obj(n, s, s.sample_data_tokens@[k], s.annotation_tokens@[m], fid, o) ==> objs_part(n, s, fid, v.push(o), k, m + 1)
{ assert forall|v: Seq<DynamicObject>, k: int, m: int, o: DynamicObject| #![trigger objs_part(n, s, fid, v, k, m), v.push(o)] 0 <= k && 0 <= m < s.annotation_tokens@.len() && objs_part(n, s, fid, v, k, m) && is_obj(n, s, s.sample_data_tokens@[k], s.annotation_tokens@[m], fid, o) implies objs_part(n, s, fid, v.push(o), k, m + 1) by { lemma_push(n, s, fid, v, k, m, o); } }
/// What C14 says about a loaded dataset follows from its invariant.
pub proof fn lemma_wf(n: NuScenes) requires wf(n) ensures ann_wf(n), forall|s: LongToken| #[trigger] n.sample_map@.contains_key(s) ==> all_box_ok(n, n.sample_map@[s].annotation_tokens@), forall|d: LongToken| #[trigger] n.sample_data_map@.contains_key(d) ==> sd_known(n, d)
{ assert forall|s: LongToken| #[trigger] n.sample_map@.contains_key(s) implies all_box_ok(n, n.sample_map@[s].annotation_tokens@) by { let ts = n.sample_map@[s].annotation_tokens@; assert(sample_refs(n, n.sample_map@[s])); assert forall|j: int| 0 <= j < ts.len() implies box_ok(n, #[trigger] ts[j]) by { assert(n.sample_annotation_map@.contains_key(ts[j])); assert(ann_refs(n, n.sample_annotation_map@[ts[j]])); let i = n.sample_annotation_map@[ts[j]].instance_token; assert(n.instance_map@.contains_key(i)); assert(inst_refs(n, n.instance_map@[i])); } }
  assert forall|d: LongToken| #[trigger] n.sample_data_map@.contains_key(d) implies sd_known(n, d) by { assert(sd_refs(n, n.sample_data_map@[d])); let c = n.sample_data_map@[d].calibrated_sensor_token; assert(n.calibrated_sensor_map@.contains_key(c)); assert(cs_refs(n, n.calibrated_sensor_map@[c])); } }
pub proof fn lemma_key(n: NuScenes, d: LongToken) requires wf(n), n.sample_data_map@.contains_key(d) ensures n.calibrated_sensor_map@.contains_key(n.sample_data_map@[d].calibrated_sensor_token), n.sensor_map@.contains_key(n.calibrated_sensor_map@[n.sample_data_map@[d].calibrated_sensor_token].sensor_token) { assert(sd_refs(n, n.sample_data_map@[d])); let c = n.sample_data_map@[d].calibrated_sensor_token; assert(cs_refs(n, n.calibrated_sensor_map@[c])); }
pub proof fn lemma_keys(n: NuScenes) requires wf(n) ensures forall|d: LongToken| #![trigger n.sample_data_map@.contains_key(d)] n.sample_data_map@.contains_key(d) ==> n.calibrated_sensor_map@.contains_key(n.sample_data_map@[d].calibrated_sensor_token) && n.sensor_map@.contains_key(n.calibrated_sensor_map@[n.sample_data_map@[d].calibrated_sensor_token].sensor_token)
{ assert forall|d: LongToken| #![trigger n.sample_data_map@.contains_key(d)] n.sample_data_map@.contains_key(d) implies n.calibrated_sensor_map@.contains_key(n.sample_data_map@[d].calibrated_sensor_token) && n.sensor_map@.contains_key(n.calibrated_sensor_map@[n.sample_data_map@[d].calibrated_sensor_token].sensor_token) by { lemma_key(n, d); } }
pub uninterp spec fn unreadable(version: Seq<char>, dir: Seq<char>) -> bool;
//@extend NuScenes::load
pure r is Err ==> unreadable(version@, dir.pt())
//@end
//@fn dataset.rs sample_to_frame(nusc, sample, frame_id) -> r
requires wf(*nusc), grouped(*nusc), *sample.dataset == *nusc, is_sample(*nusc, *sample.inner)
ensures r is Ok, is_frame(*nusc, *sample.inner, *frame_id, r->Ok_0)
start lemma_wf(*nusc); lemma_keys(*nusc); lemma_pushes(*nusc, *sample.inner, *frame_id);
inv@0 (A:Vec<DynamicObject>) objs_upto(*nusc, *sample.inner, *frame_id, $A@, $i as int)
inv@1 (A:Vec<DynamicObject>) objs_part(*nusc, *sample.inner, *frame_id, $A@, $oi as int - 1, $i as int)
//@end
//@fn dataset.rs load_dataset(version, data_root, evaluation_task, frame_id) -> r
ensures r is Ok ==> exists|n: NuScenes| #[trigger] loads(version@, data_root.pt(), n) && wf(n) && grouped(n) && frames_upto(n, *frame_id, r->Ok_0@, n.sorted_sample_tokens@.len() as int),
 r is Err ==> unreadable(version@, data_root.pt())
start lemma_loads();
inv (A:Vec<FrameGroundTruth>, U:NuScenes) frames_upto($U, *frame_id, $A@, $i as int)
//@end
