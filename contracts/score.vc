//@needs dist
//@type matching.rs MatchingMode
//@type matching.rs CenterDistanceMatching
//@type matching.rs PlaneDistanceMatching
//@type matching.rs Iou2dMatching
//@type matching.rs Iou3dMatching
/// The score of a pair: what calculate_matching_score returns (it is a function of its arguments).
pub uninterp spec fn score(m: MatchingMode, e: DynamicObject, g: DynamicObject) -> F;
/// Smaller distances and larger overlaps are better; the threshold itself does not pass.
pub open spec fn passes(m: MatchingMode, s: F, t: F) -> bool { match m { MatchingMode::CenterDistance | MatchingMode::PlaneDistance => flt(s, t), MatchingMode::Iou2d | MatchingMode::Iou3d => flt(t, s) } }
pub trait MatchingMethod { spec fn mode(&self) -> MatchingMode;
  fn calculate_matching_score(&self, estimated_object: &DynamicObject, ground_truth_object: &DynamicObject) -> (r: F);
  fn is_better_than(&self, estimated_object: &DynamicObject, ground_truth_object: &DynamicObject, threshold: &F) -> (r: bool) ensures r == passes(self.mode(), score(self.mode(), *estimated_object, *ground_truth_object), *threshold); }
//@fn matching.rs CenterDistanceMatching::calculate_matching_score(estimated_object, ground_truth_object) -> r {{trait=MatchingMethod;impl=impl MatchingMethod for CenterDistanceMatching}}
impl open spec fn mode(&self) -> MatchingMode { MatchingMode::CenterDistance }
pure r == score(MatchingMode::CenterDistance, *estimated_object, *ground_truth_object)
ensures fin3(estimated_object.position@) && fin3(ground_truth_object.position@) ==> score_ok(r, *estimated_object, *ground_truth_object)
start lemma_d2(estimated_object.position@, ground_truth_object.position@);
//@end
//@fn matching.rs CenterDistanceMatching::is_better_than(estimated_object, ground_truth_object, threshold) -> r {{trait=MatchingMethod;impl=impl MatchingMethod for CenterDistanceMatching}}
//@end
//@fn matching.rs PlaneDistanceMatching::calculate_matching_score(estimated_object, ground_truth_object) -> r {{trait=MatchingMethod;impl=impl MatchingMethod for PlaneDistanceMatching}}
impl open spec fn mode(&self) -> MatchingMode { MatchingMode::PlaneDistance }
pure r == score(MatchingMode::PlaneDistance, *estimated_object, *ground_truth_object)
//@end
//@fn matching.rs PlaneDistanceMatching::is_better_than(estimated_object, ground_truth_object, threshold) -> r {{trait=MatchingMethod;impl=impl MatchingMethod for PlaneDistanceMatching}}
//@end
//@fn matching.rs Iou2dMatching::calculate_matching_score(estimated_object, ground_truth_object) -> r {{trait=MatchingMethod;impl=impl MatchingMethod for Iou2dMatching}}
impl open spec fn mode(&self) -> MatchingMode { MatchingMode::Iou2d }
pure r == score(MatchingMode::Iou2d, *estimated_object, *ground_truth_object)
//@end
//@fn matching.rs Iou2dMatching::is_better_than(estimated_object, ground_truth_object, threshold) -> r {{trait=MatchingMethod;impl=impl MatchingMethod for Iou2dMatching}}
//@end
//@fn matching.rs Iou3dMatching::calculate_matching_score(estimated_object, ground_truth_object) -> r {{trait=MatchingMethod;impl=impl MatchingMethod for Iou3dMatching}}
impl open spec fn mode(&self) -> MatchingMode { MatchingMode::Iou3d }
pure r == score(MatchingMode::Iou3d, *estimated_object, *ground_truth_object)
//@end
//@fn matching.rs Iou3dMatching::is_better_than(estimated_object, ground_truth_object, threshold) -> r {{trait=MatchingMethod;impl=impl MatchingMethod for Iou3dMatching}}
//@end
