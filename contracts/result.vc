//@needs group score
//@type matching.rs MatchingError
pub open spec fn correct(r: PerceptionResult, m: MatchingMode, t: F) -> bool { r.ground_truth_object is Some && passes(m, score(m, r.estimated_object, r.ground_truth_object->0), t) }
//@fn result/object.rs PerceptionResult::new(estimated_object, ground_truth_object) -> r
ensures r.estimated_object == estimated_object, r.ground_truth_object == ground_truth_object
//@end
//@fn result/object.rs PerceptionResult::is_label_correct() -> r
ensures r == (self.ground_truth_object is Some && self.estimated_object.label == self.ground_truth_object->0.label)
//@end
//@fn result/object.rs PerceptionResult::is_result_correct(matching_mode, threshold) -> r
ensures r is Ok, r->Ok_0 == correct(*self, *matching_mode, *threshold)
//@end
