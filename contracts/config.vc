//@needs filter label
//@type config.rs MetricsParams
pub open spec fn mp_wf(p: MetricsParams) -> bool { p.center_distance_thresholds@.len() == p.target_labels@.len() && p.plane_distance_thresholds@.len() == p.target_labels@.len() && p.iou2d_thresholds@.len() == p.target_labels@.len() && p.iou3d_thresholds@.len() == p.target_labels@.len() }
pub open spec fn all_is<T>(s: Seq<T>, n: int, v: T) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] s[i] == v }
/// One label per name, in order.
pub open spec fn labels_of(ls: Seq<Label>, names: Seq<&str>) -> bool { ls.len() == names.len() && forall|i: int| 0 <= i < names.len() ==> #[trigger] ls[i] == name_label(names[i]@) }
//@fn config.rs FilterParams::new(target_labels, max_x_position, max_y_position, min_point_number, target_uuids) -> r
ensures r is Ok, fp_wf(r->Ok_0), labels_of(r->Ok_0.target_labels@, target_labels@), all_is(r->Ok_0.max_x_positions@, target_labels@.len() as int, max_x_position), all_is(r->Ok_0.max_y_positions@, target_labels@.len() as int, max_y_position),
 min_point_number is Some == r->Ok_0.min_point_numbers is Some, min_point_number is Some ==> all_is(r->Ok_0.min_point_numbers->0@, target_labels@.len() as int, min_point_number->0), r->Ok_0.target_uuids == target_uuids
//@end
//@fn config.rs MetricsParams::new(target_labels, center_distance_threshold, plane_distance_threshold, iou2d_threshold, iou3d_threshold) -> r
ensures r is Ok, mp_wf(r->Ok_0), labels_of(r->Ok_0.target_labels@, target_labels@), all_is(r->Ok_0.center_distance_thresholds@, target_labels@.len() as int, center_distance_threshold), all_is(r->Ok_0.plane_distance_thresholds@, target_labels@.len() as int, plane_distance_threshold), all_is(r->Ok_0.iou2d_thresholds@, target_labels@.len() as int, iou2d_threshold), all_is(r->Ok_0.iou3d_thresholds@, target_labels@.len() as int, iou3d_threshold)
//@end
