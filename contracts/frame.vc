//@needs result current
//@type result/frame.rs PerceptionFrameResult
pub open spec fn tp(ls: Seq<Label>, m: MatchingMode, ts: Seq<F>) -> spec_fn(PerceptionResult) -> bool { |r: PerceptionResult| lab_in(ls, r.estimated_object.label) && correct(r, m, ts[first_at(ls, r.estimated_object.label)]) }
pub open spec fn fp(ls: Seq<Label>, m: MatchingMode, ts: Seq<F>) -> spec_fn(PerceptionResult) -> bool { |r: PerceptionResult| lab_in(ls, r.estimated_object.label) && !correct(r, m, ts[first_at(ls, r.estimated_object.label)]) }
/// Some of the first `n` results has a ground truth equal to `g`.
pub open spec fn used(rs: Seq<PerceptionResult>, n: int, g: DynamicObject) -> bool { exists|k: int| 0 <= k < n && (#[trigger] rs[k]).ground_truth_object is Some && rs[k].ground_truth_object->0.eqs(&g) }
pub open spec fn missed(rs: Seq<PerceptionResult>) -> spec_fn(DynamicObject) -> bool { |g: DynamicObject| !used(rs, rs.len() as int, g) }
pub open spec fn frame_of(f: PerceptionFrameResult, rs: Seq<PerceptionResult>, g: FrameGroundTruth, ls: Seq<Label>, m: MatchingMode, ts: Seq<F>) -> bool {
  f.results@ == rs && f.frame_ground_truth == g && f.tp_results@ == rs.filter(tp(ls, m, ts)) && f.fp_results@ == rs.filter(fp(ls, m, ts)) && f.fn_objects@ == g.objects@.filter(missed(f.tp_results@)) }
/// Every result with a target label is in exactly one of the two lists, all others in neither.
pub proof fn lemma_partition(rs: Seq<PerceptionResult>, ls: Seq<Label>, m: MatchingMode, ts: Seq<F>)
  ensures rs.filter(tp(ls, m, ts)).len() + rs.filter(fp(ls, m, ts)).len() == rs.filter(|r: PerceptionResult| lab_in(ls, r.estimated_object.label)).len()
  decreases rs.len()
{ reveal(Seq::filter); if rs.len() > 0 { lemma_partition(rs.drop_last(), ls, m, ts); } }
//@fn result/frame.rs separate_tp_fp_results(results, target_labels, matching_mode, matching_thresholds) -> r {{optional}}
requires matching_thresholds@.len() >= target_labels@.len()
ensures r is Ok, (r->Ok_0).0@ == results@.filter(tp(target_labels@, *matching_mode, matching_thresholds@)), (r->Ok_0).1@ == results@.filter(fp(target_labels@, *matching_mode, matching_thresholds@))
start lemma_filter_zero(results@, tp(target_labels@, *matching_mode, matching_thresholds@)); lemma_filter_zero(results@, fp(target_labels@, *matching_mode, matching_thresholds@));
begin@0 lemma_filter_step(results@, $i - 1, tp(target_labels@, *matching_mode, matching_thresholds@)); lemma_filter_step(results@, $i - 1, fp(target_labels@, *matching_mode, matching_thresholds@));
inv (A:Vec<PerceptionResult) $A@ == results@.take($i as int).filter(tp(target_labels@, *matching_mode, matching_thresholds@))
inv (A:Vec<PerceptionResult) $A@ == results@.take($i as int).filter(fp(target_labels@, *matching_mode, matching_thresholds@))
//@end
//@fn result/frame.rs is_fn_object(ground_truth, tp_results) -> r {{optional}}
ensures r == !used(tp_results@, tp_results@.len() as int, *ground_truth)
inv !used(tp_results@, $i as int, *ground_truth)
begin assert(tp_results@[$i - 1].ground_truth_object is Some && tp_results@[$i - 1].ground_truth_object->0.eqs(ground_truth) ==> used(tp_results@, tp_results@.len() as int, *ground_truth));
//@end
//@fn result/frame.rs extract_fn_objects(ground_truths, tp_results) -> r {{optional}}
ensures r@ == ground_truths@.filter(missed(tp_results@))
start lemma_filter_zero(ground_truths@, missed(tp_results@));
begin@0 lemma_filter_step(ground_truths@, $i - 1, missed(tp_results@));
inv (A:Vec<DynamicObject) $A@ == ground_truths@.take($i as int).filter(missed(tp_results@))
//@end
//@fn result/frame.rs PerceptionFrameResult::new(results, frame_ground_truth, target_labels, matching_mode, matching_thresholds) -> r
requires matching_thresholds@.len() >= target_labels@.len()
ensures r is Ok, frame_of(r->Ok_0, results@, frame_ground_truth, target_labels@, matching_mode, matching_thresholds@)
start lemma_filter_zero(results@, tp(target_labels@, matching_mode, matching_thresholds@)); lemma_filter_zero(results@, fp(target_labels@, matching_mode, matching_thresholds@));
begin@0 lemma_filter_step(results@, $i - 1, tp(target_labels@, matching_mode, matching_thresholds@)); lemma_filter_step(results@, $i - 1, fp(target_labels@, matching_mode, matching_thresholds@));
inv (A:Vec<PerceptionResult) $A@ == results@.take($i as int).filter(tp(target_labels@, matching_mode, matching_thresholds@))
inv (A:Vec<PerceptionResult) $A@ == results@.take($i as int).filter(fp(target_labels@, matching_mode, matching_thresholds@))
pre@0 (U:Vec<PerceptionResult) lemma_filter_zero(frame_ground_truth.objects@, missed($U@));
begin@0 (U:Vec<PerceptionResult) lemma_filter_step(frame_ground_truth.objects@, $i - 1, missed($U@));
inv@0 (A:Vec<DynamicObject,U:Vec<PerceptionResult) $A@ == frame_ground_truth.objects@.take($i as int).filter(missed($U@))
inv@1 (U:Vec<PerceptionResult) !used($U@, $i as int, $ox)
//@end
//@fn result/frame.rs PerceptionFrameResult::results() -> r
ensures *r == self.results
//@end
//@fn result/frame.rs PerceptionFrameResult::frame_ground_truth() -> r
ensures *r == self.frame_ground_truth
//@end
//@fn result/frame.rs PerceptionFrameResult::tp_results() -> r
ensures *r == self.tp_results
//@end
//@fn result/frame.rs PerceptionFrameResult::fp_results() -> r
ensures *r == self.fp_results
//@end
//@fn result/frame.rs PerceptionFrameResult::fn_objects() -> r
ensures *r == self.fn_objects
//@end
