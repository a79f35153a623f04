//@needs ap head
//@type metrics/tp_metrics.rs TPMetricsAP
//@type metrics/tp_metrics.rs TPMetricsAPH
pub open spec fn absr(a: real) -> real { if a < 0real { -a } else { a } }
/// The smaller angle between two headings in [-pi, pi].
pub open spec fn angd(a: real, b: real) -> real { let d = absr(a - b); if r_pi() < d { 2real * r_pi() - d } else { d } }
pub open spec fn aphw(a: real, b: real) -> real { 1real - angd(a, b) / r_pi() }
//@nra lemma_aphw(d, pi)
requires pi > 3real, 0real <= d <= pi
ensures 0real <= 1real - d / pi <= 1real, 0real <= d / pi <= 1real, 1real - d / pi == (pi - d) / pi, (1real - d / pi == 1real) == (d == 0real), (1real - d / pi == 0real) == (d == pi), d / pi == d * (1real / pi)
//@end
/// C10: the weight is in [0, 1], is symmetric, 1 exactly for equal headings, 0 for opposite ones.
pub proof fn theorem_aphw(a: real, b: real) requires -r_pi() <= a <= r_pi(), -r_pi() <= b <= r_pi()
  ensures 3real < r_pi() < 4real, 0real <= angd(a, b) <= r_pi(), 0real <= aphw(a, b) <= 1real, 0real <= angd(a, b) / r_pi() <= 1real, aphw(a, b) == aphw(b, a), (aphw(a, b) == 1real) == (a == b || absr(a - b) == 2real * r_pi()), absr(a - b) == r_pi() ==> aphw(a, b) == 0real, aphw(a, b) == (r_pi() - angd(a, b)) / r_pi()
{ ax_pi(); lemma_aphw(angd(a, b), r_pi()); }
/// C10: the smaller angle does not jump: it changes by no more than the heading turns, also across pi.
pub proof fn theorem_no_jump(a: real, b: real, c: real) requires -r_pi() <= a <= r_pi(), -r_pi() <= b <= r_pi(), -r_pi() <= c <= r_pi() ensures absr(angd(a, b) - angd(c, b)) <= angd(a, c), angd(a, c) <= absr(a - c), angd(a, c) <= 2real * r_pi() - absr(a - c)
{ ax_pi(); }
pub open spec fn has_gt(r: PerceptionResult) -> bool { r.ground_truth_object is Some }
pub open spec fn h_est(r: PerceptionResult) -> F { hd(r.estimated_object) }
pub open spec fn h_gt(r: PerceptionResult) -> F { hd(r.ground_truth_object->0) }
//@fn metrics/tp_metrics.rs TPMetricsAP::get_value(result) -> r {{trait=TPMetrics;impl=impl TPMetrics for TPMetricsAP}}
impl open spec fn fine(&self, r: PerceptionResult) -> bool { true }
impl open spec fn w(&self, r: PerceptionResult) -> real { if has_gt(r) { 1real } else { 0real } }
//@end
//@fn metrics/tp_metrics.rs TPMetricsAPH::get_value(result) -> r {{trait=TPMetrics;impl=impl TPMetrics for TPMetricsAPH}}
impl open spec fn fine(&self, r: PerceptionResult) -> bool { has_gt(r) ==> fin4(r.estimated_object.orientation@) && fin4(r.ground_truth_object->0.orientation@) }
impl open spec fn w(&self, r: PerceptionResult) -> real { if has_gt(r) { aphw(h_est(r).rv(), h_gt(r).rv()) } else { 0real } }
start if has_gt(*result) && inpi(h_est(*result)) && inpi(h_gt(*result)) { theorem_aphw(h_est(*result).rv(), h_gt(*result).rv()); }
//@end
