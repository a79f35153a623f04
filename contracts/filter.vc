//@needs threshold
//@type config.rs FilterParams
pub open spec fn fp_wf(p: FilterParams) -> bool { p.max_x_positions@.len() == p.target_labels@.len() && p.max_y_positions@.len() == p.target_labels@.len() && (p.min_point_numbers is Some ==> p.min_point_numbers->0@.len() == p.target_labels@.len()) }
/// The filter criteria of the property.
pub open spec fn keep(o: DynamicObject, ls: Seq<Label>, mx: Seq<F>, my: Seq<F>, mp: Option<Vec<usize>>, uu: Option<Vec<String>>) -> bool {
  lab_in(ls, o.label) && flt(s_abs(o.position@[0]), mx[first_at(ls, o.label)]) && flt(s_abs(o.position@[1]), my[first_at(ls, o.label)])
  && (mp is Some && o.pointcloud_num is Some ==> mp->0@[first_at(ls, o.label)] <= o.pointcloud_num->0)
  && (uu is Some ==> o.uuid is Some && exists|i: int| 0 <= i < uu->0@.len() && (#[trigger] uu->0@[i])@ == o.uuid->0@)
}
pub open spec fn keep_f(p: FilterParams, is_gt: bool) -> spec_fn(DynamicObject) -> bool { |o: DynamicObject| keep(o, p.target_labels@, p.max_x_positions@, p.max_y_positions@, if is_gt { p.min_point_numbers } else { None }, if is_gt { p.target_uuids } else { None }) }
pub proof fn lemma_filter_step<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool) requires 0 <= i < s.len() ensures s.take(i + 1).filter(p) == (if p(s[i]) { s.take(i).filter(p).push(s[i]) } else { s.take(i).filter(p) })
{ reveal(Seq::filter); assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn lemma_filter_zero<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures s.take(0).filter(p) == Seq::<T>::empty(), s.take(s.len() as int) == s
{ reveal(Seq::filter); assert(s.take(0).filter(p) =~= Seq::<T>::empty()); assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_seq_has_str(s: Seq<String>, x: String) ensures seq_has(s, x) == exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x@
{ if seq_has(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].eqs(&x); assert(s[i]@ == x@); }
  if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x@ { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x@; assert(s[i].eqs(&x)); } }
//@fn filter.rs is_target_object(object, target_labels, max_x_positions, max_y_positions, min_point_numbers, target_uuids) -> r {{optional}}
requires max_x_positions@.len() == target_labels@.len(), max_y_positions@.len() == target_labels@.len(), min_point_numbers is Some ==> min_point_numbers->0@.len() == target_labels@.len()
ensures r == keep(*object, target_labels@, max_x_positions@, max_y_positions@, *min_point_numbers, *target_uuids)
start lemma_first_at(target_labels@, object.label); lemma_seq_has_label(target_labels@, object.label);
start if target_uuids is Some && object.uuid is Some { lemma_seq_has_str(target_uuids->0@, object.uuid->0); }
//@end
//@fn filter.rs filter_objects(objects, is_gt, filter_params) -> r
requires fp_wf(*filter_params)
ensures r@ == objects.vs().filter(keep_f(*filter_params, is_gt))
start lemma_filter_zero(objects.vs(), keep_f(*filter_params, is_gt));
begin@0 lemma_filter_step(objects.vs(), $i - 1, keep_f(*filter_params, is_gt));
inv (A:Vec) $A@ == objects.vs().take($i as int).filter(keep_f(*filter_params, is_gt))
begin lemma_first_at(filter_params.target_labels@, $x.label); lemma_seq_has_label(filter_params.target_labels@, $x.label);
begin if filter_params.target_uuids is Some && $x.uuid is Some { lemma_seq_has_str(filter_params.target_uuids->0@, $x.uuid->0); }
//@end
