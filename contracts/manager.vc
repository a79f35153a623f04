//@needs match frame tp config
//@type evaluation_task.rs EvaluationTask
//@type metrics/error.rs MetricsError
//@type config.rs PerceptionEvaluationConfig
//@type metrics/detection.rs DetectionMetricsScore
//@type metrics/score.rs MetricsScore
//@type manager.rs PerceptionEvaluationManager
/// The score of one label: not a number if there is nothing to count, else its average precision.
pub open spec fn score_is<T: TPMetrics>(x: F, rs: Seq<PerceptionResult>, g: int, tm: T, m: MatchingMode, t: F) -> bool { if rs.len() == 0 && g == 0 { !x.ok() && x.nan_s() } else { wok(rs, tm) ==> x.ok() && ap_is(x.rv(), rs, g, tm, m, t) } }
/// The first `n` entries of a list of scores are those of the labels at their positions, with the thresholds at their positions.
pub open spec fn listed<T: TPMetrics>(l: Seq<F>, n: int, rf: spec_fn(Label) -> Seq<PerceptionResult>, gf: spec_fn(Label) -> int, ls: Seq<Label>, tm: T, m: MatchingMode, ts: Seq<F>) -> bool { l.len() == ls.len() && forall|i: int| 0 <= i < n && i < ls.len() ==> score_is(#[trigger] l[i], rf(ls[i]), gf(ls[i]), tm, m, ts[i]) }
pub open spec fn has_list<T: TPMetrics>(s: Map<String, Vec<F>>, name: Seq<char>, rf: spec_fn(Label) -> Seq<PerceptionResult>, gf: spec_fn(Label) -> int, ls: Seq<Label>, tm: T, m: MatchingMode, ts: Seq<F>) -> bool { exists|k: String| #[trigger] s.contains_key(k) && k@ == name && listed(s[k]@, ls.len() as int, rf, gf, ls, tm, m, ts) }
pub open spec fn two_keys(s: Map<String, Vec<F>>) -> bool { forall|k: String| #[trigger] s.contains_key(k) ==> k@ == "AP"@ || k@ == "APH"@ }
pub open spec fn scored(d: DetectionMetricsScore, rf: spec_fn(Label) -> Seq<PerceptionResult>, gf: spec_fn(Label) -> int, ls: Seq<Label>, m: MatchingMode, ts: Seq<F>) -> bool { d.target_labels@ == ls && d.matching_mode == m && d.thresholds@ == ts && has_list(d.scores@, "AP"@, rf, gf, ls, TPMetricsAP, m, ts) && has_list(d.scores@, "APH"@, rf, gf, ls, TPMetricsAPH, m, ts) && two_keys(d.scores@) }
pub open spec fn rmap(m: Map<Label, Vec<PerceptionResult>>) -> spec_fn(Label) -> Seq<PerceptionResult> { |l: Label| m[l]@ }
pub open spec fn gmap(m: Map<Label, usize>) -> spec_fn(Label) -> int { |l: Label| m[l] as int }
/// Lists that agree on the labels agree on the scores.
pub proof fn lemma_listed<T: TPMetrics>(l: Seq<F>, rf: spec_fn(Label) -> Seq<PerceptionResult>, gf: spec_fn(Label) -> int, rg: spec_fn(Label) -> Seq<PerceptionResult>, gg: spec_fn(Label) -> int, ls: Seq<Label>, tm: T, m: MatchingMode, ts: Seq<F>)
  requires listed(l, ls.len() as int, rf, gf, ls, tm, m, ts), forall|i: int| 0 <= i < ls.len() ==> rf(#[trigger] ls[i]) == rg(ls[i]) && gf(ls[i]) == gg(ls[i]) ensures listed(l, ls.len() as int, rg, gg, ls, tm, m, ts) {}
pub proof fn lemma_has_list<T: TPMetrics>(s: Map<String, Vec<F>>, name: Seq<char>, rf: spec_fn(Label) -> Seq<PerceptionResult>, gf: spec_fn(Label) -> int, rg: spec_fn(Label) -> Seq<PerceptionResult>, gg: spec_fn(Label) -> int, ls: Seq<Label>, tm: T, m: MatchingMode, ts: Seq<F>)
  requires has_list(s, name, rf, gf, ls, tm, m, ts), forall|i: int| 0 <= i < ls.len() ==> rf(#[trigger] ls[i]) == rg(ls[i]) && gf(ls[i]) == gg(ls[i]) ensures has_list(s, name, rg, gg, ls, tm, m, ts)
{ let k = choose|k: String| #[trigger] s.contains_key(k) && k@ == name && listed(s[k]@, ls.len() as int, rf, gf, ls, tm, m, ts); lemma_listed(s[k]@, rf, gf, rg, gg, ls, tm, m, ts); assert(s.contains_key(k)); }
pub proof fn lemma_scored(d: DetectionMetricsScore, rf: spec_fn(Label) -> Seq<PerceptionResult>, gf: spec_fn(Label) -> int, rg: spec_fn(Label) -> Seq<PerceptionResult>, gg: spec_fn(Label) -> int, ls: Seq<Label>, m: MatchingMode, ts: Seq<F>)
  requires scored(d, rf, gf, ls, m, ts), forall|i: int| 0 <= i < ls.len() ==> rf(#[trigger] ls[i]) == rg(ls[i]) && gf(ls[i]) == gg(ls[i]) ensures scored(d, rg, gg, ls, m, ts)
{ lemma_has_list(d.scores@, "AP"@, rf, gf, rg, gg, ls, TPMetricsAP, m, ts); lemma_has_list(d.scores@, "APH"@, rf, gf, rg, gg, ls, TPMetricsAPH, m, ts); }
/// One score per mode, each with the thresholds configured for that mode.
pub open spec fn scored_all(s: Seq<DetectionMetricsScore>, rf: spec_fn(Label) -> Seq<PerceptionResult>, gf: spec_fn(Label) -> int, p: MetricsParams) -> bool { s.len() == 2 && scored(s[0], rf, gf, p.target_labels@, MatchingMode::CenterDistance, p.center_distance_thresholds@) && scored(s[1], rf, gf, p.target_labels@, MatchingMode::PlaneDistance, p.plane_distance_thresholds@) }
pub proof fn lemma_scored_all(s: Seq<DetectionMetricsScore>, rf: spec_fn(Label) -> Seq<PerceptionResult>, gf: spec_fn(Label) -> int, rg: spec_fn(Label) -> Seq<PerceptionResult>, gg: spec_fn(Label) -> int, p: MetricsParams)
  requires scored_all(s, rf, gf, p), forall|i: int| 0 <= i < p.target_labels@.len() ==> rf(#[trigger] p.target_labels@[i]) == rg(p.target_labels@[i]) && gf(p.target_labels@[i]) == gg(p.target_labels@[i]) ensures scored_all(s, rg, gg, p)
{ lemma_scored(s[0], rf, gf, rg, gg, p.target_labels@, MatchingMode::CenterDistance, p.center_distance_thresholds@); lemma_scored(s[1], rf, gf, rg, gg, p.target_labels@, MatchingMode::PlaneDistance, p.plane_distance_thresholds@); }
/// All results of a label in the first `n` frames, and the number of its ground truths.
pub open spec fn res_n(fs: Seq<PerceptionFrameResult>, n: int, l: Label) -> Seq<PerceptionResult> decreases n { if n <= 0 { Seq::empty() } else { res_n(fs, n - 1, l) + fs[n - 1].results@.filter(rl(l)) } }
pub open spec fn gts_n(fs: Seq<PerceptionFrameResult>, n: int, l: Label) -> int decreases n { if n <= 0 { 0 } else { gts_n(fs, n - 1, l) + fs[n - 1].frame_ground_truth.objects@.filter(ol(l)).len() } }
pub open spec fn res_f(fs: Seq<PerceptionFrameResult>) -> spec_fn(Label) -> Seq<PerceptionResult> { |l: Label| res_n(fs, fs.len() as int, l) }
pub open spec fn gts_f(fs: Seq<PerceptionFrameResult>) -> spec_fn(Label) -> int { |l: Label| gts_n(fs, fs.len() as int, l) }
pub open spec fn in_n(ls: Seq<Label>, n: int, l: Label) -> bool { exists|j: int| 0 <= j < n && #[trigger] ls[j] == l }
pub proof fn lemma_in_n(ls: Seq<Label>, n: int) requires 0 <= n < ls.len() ensures forall|l: Label| #[trigger] in_n(ls, n + 1, l) == (in_n(ls, n, l) || ls[n] == l), in_n(ls, n + 1, ls[n]), lab_in(ls, ls[n])
{ assert forall|l: Label| #[trigger] in_n(ls, n + 1, l) == (in_n(ls, n, l) || ls[n] == l) by { if in_n(ls, n + 1, l) { let j = choose|j: int| 0 <= j < n + 1 && #[trigger] ls[j] == l; if j < n { assert(in_n(ls, n, l)); } } if in_n(ls, n, l) { let j = choose|j: int| 0 <= j < n && #[trigger] ls[j] == l; assert(ls[j] == l); } }
  assert(ls[n] == ls[n]); }
pub proof fn lemma_in_ends(ls: Seq<Label>) ensures forall|l: Label| !#[trigger] in_n(ls, 0, l), forall|l: Label| #[trigger] in_n(ls, ls.len() as int, l) == lab_in(ls, l) {}
pub proof fn lemma_gts_mono(fs: Seq<PerceptionFrameResult>, n: int) requires n <= fs.len() ensures forall|l: Label| 0 <= #[trigger] gts_n(fs, n, l) <= gts_n(fs, fs.len() as int, l) decreases fs.len() - n
{ if n < fs.len() { lemma_gts_mono(fs, n + 1); } assert forall|l: Label| 0 <= #[trigger] gts_n(fs, n, l) <= gts_n(fs, fs.len() as int, l) by { lemma_gts_pos(fs, n, l); if n < fs.len() { assert(n + 1 > 0 ==> gts_n(fs, n + 1, l) == gts_n(fs, n, l) + fs[n].frame_ground_truth.objects@.filter(ol(l)).len()); lemma_gts_pos(fs, n + 1, l); } } }
pub proof fn lemma_gts_pos(fs: Seq<PerceptionFrameResult>, n: int, l: Label) ensures 0 <= gts_n(fs, n, l) decreases n { if n > 0 { lemma_gts_pos(fs, n - 1, l); } }
pub open spec fn countable(fs: Seq<PerceptionFrameResult>) -> bool { forall|l: Label| #[trigger] gts_n(fs, fs.len() as int, l) <= usize::MAX }
pub open spec fn keyed<V>(m: Map<Label, V>, ls: Seq<Label>, n: int) -> bool { forall|k: Label| #[trigger] m.contains_key(k) <==> in_n(ls, n, k) }
/// Frames up to `n` are counted for every label, the next one for the first `j` labels.
pub open spec fn acc_r(m: Map<Label, Vec<PerceptionResult>>, fs: Seq<PerceptionFrameResult>, n: int, ls: Seq<Label>, j: int) -> bool { forall|k: Label| #[trigger] m.contains_key(k) ==> m[k]@ == (if in_n(ls, j, k) { res_n(fs, n + 1, k) } else { res_n(fs, n, k) }) }
pub proof fn lemma_acc_zero(fs: Seq<PerceptionFrameResult>, ls: Seq<Label>) ensures forall|m: Map<Label, Vec<PerceptionResult>>| (forall|k: Label| #[trigger] m.contains_key(k) ==> m[k]@.len() == 0) ==> #[trigger] acc_r(m, fs, 0, ls, 0)
{ assert forall|m: Map<Label, Vec<PerceptionResult>>| (forall|k: Label| #[trigger] m.contains_key(k) ==> m[k]@.len() == 0) implies #[trigger] acc_r(m, fs, 0, ls, 0) by { assert forall|k: Label| #[trigger] m.contains_key(k) implies m[k]@ == res_n(fs, 0, k) by { assert(m[k]@ =~= Seq::empty()); } } }
pub open spec fn acc_g(m: Map<Label, usize>, fs: Seq<PerceptionFrameResult>, n: int, ls: Seq<Label>, j: int) -> bool { forall|k: Label| #[trigger] m.contains_key(k) ==> m[k] == (if in_n(ls, j, k) { gts_n(fs, n + 1, k) } else { gts_n(fs, n, k) }) }
/// Groups of a frame not yet moved.
pub open spec fn left_r(m: Map<Label, Vec<PerceptionResult>>, f: PerceptionFrameResult, ls: Seq<Label>, j: int) -> bool { forall|k: Label| lab_in(ls, k) && !#[trigger] in_n(ls, j, k) ==> m.contains_key(k) && m[k]@ == f.results@.filter(rl(k)) }
pub open spec fn left_g(m: Map<Label, usize>, f: PerceptionFrameResult, ls: Seq<Label>, j: int) -> bool { forall|k: Label| lab_in(ls, k) && !#[trigger] in_n(ls, j, k) ==> m.contains_key(k) && m[k] == f.frame_ground_truth.objects@.filter(ol(k)).len() }
pub open spec fn moved_r(m: Map<Label, Vec<PerceptionResult>>, ls: Seq<Label>, j: int) -> bool { forall|k: Label| #[trigger] in_n(ls, j, k) && m.contains_key(k) ==> m[k]@.len() == 0 }
pub open spec fn gone<V>(m: Map<Label, V>, ls: Seq<Label>, j: int) -> bool { forall|k: Label| #[trigger] in_n(ls, j, k) ==> !m.contains_key(k) }
pub proof fn lemma_frame_step(fs: Seq<PerceptionFrameResult>, n: int) requires 0 <= n < fs.len() ensures forall|k: Label| #[trigger] res_n(fs, n + 1, k) == res_n(fs, n, k) + fs[n].results@.filter(rl(k)), forall|k: Label| #[trigger] gts_n(fs, n + 1, k) == gts_n(fs, n, k) + fs[n].frame_ground_truth.objects@.filter(ol(k)).len() {}
pub proof fn lemma_all_frames(fs: Seq<PerceptionFrameResult>, p: MetricsParams) ensures forall|s: Seq<DetectionMetricsScore>, rm: Map<Label, Vec<PerceptionResult>>, gm: Map<Label, usize>| #[trigger] scored_all(s, rmap(rm), gmap(gm), p) && keyed(rm, p.target_labels@, p.target_labels@.len() as int) && keyed(gm, p.target_labels@, p.target_labels@.len() as int) && acc_r(rm, fs, fs.len() as int, p.target_labels@, 0) && acc_g(gm, fs, fs.len() as int, p.target_labels@, 0) ==> scored_all(s, res_f(fs), gts_f(fs), p)
{ let ls = p.target_labels@; assert forall|s: Seq<DetectionMetricsScore>, rm: Map<Label, Vec<PerceptionResult>>, gm: Map<Label, usize>| #[trigger] scored_all(s, rmap(rm), gmap(gm), p) && keyed(rm, ls, ls.len() as int) && keyed(gm, ls, ls.len() as int) && acc_r(rm, fs, fs.len() as int, ls, 0) && acc_g(gm, fs, fs.len() as int, ls, 0) implies scored_all(s, res_f(fs), gts_f(fs), p) by {
  assert forall|i: int| 0 <= i < ls.len() implies rmap(rm)(#[trigger] ls[i]) == res_f(fs)(ls[i]) && gmap(gm)(ls[i]) == gts_f(fs)(ls[i]) by { assert(in_n(ls, ls.len() as int, ls[i])); assert(rm.contains_key(ls[i]) && gm.contains_key(ls[i])); assert(!in_n(ls, 0, ls[i])); }
  lemma_scored_all(s, rmap(rm), gmap(gm), res_f(fs), gts_f(fs), p); } }
pub proof fn lemma_left(f: PerceptionFrameResult, ls: Seq<Label>) ensures forall|m: Map<Label, Vec<PerceptionResult>>| #[trigger] grouped_r(m, f.results@, ls) ==> left_r(m, f, ls, 0) && keyed(m, ls, ls.len() as int), forall|m: Map<Label, usize>| #[trigger] counted_o(m, f.frame_ground_truth.objects@, ls) ==> left_g(m, f, ls, 0) && keyed(m, ls, ls.len() as int)
{ lemma_in_ends(ls); assert forall|m: Map<Label, Vec<PerceptionResult>>| #[trigger] grouped_r(m, f.results@, ls) implies left_r(m, f, ls, 0) && keyed(m, ls, ls.len() as int) by { assert forall|k: Label| #[trigger] m.contains_key(k) <==> in_n(ls, ls.len() as int, k) by { assert(in_n(ls, ls.len() as int, k) == lab_in(ls, k)); } assert forall|k: Label| lab_in(ls, k) && !#[trigger] in_n(ls, 0, k) implies m.contains_key(k) && m[k]@ == f.results@.filter(rl(k)) by { assert(m.contains_key(k)); } }
  assert forall|m: Map<Label, usize>| #[trigger] counted_o(m, f.frame_ground_truth.objects@, ls) implies left_g(m, f, ls, 0) && keyed(m, ls, ls.len() as int) by { assert forall|k: Label| #[trigger] m.contains_key(k) <==> in_n(ls, ls.len() as int, k) by { assert(in_n(ls, ls.len() as int, k) == lab_in(ls, k)); } assert forall|k: Label| lab_in(ls, k) && !#[trigger] in_n(ls, 0, k) implies m.contains_key(k) && m[k] == f.frame_ground_truth.objects@.filter(ol(k)).len() by { assert(m.contains_key(k)); } } }
pub proof fn lemma_two() ensures forall|m: Map<String, Vec<F>>, k: String, v: Vec<F>| (#[trigger] m.insert(k, v)).contains_key(k), forall|m: Map<String, Vec<F>>, k: String, v: Vec<F>, k2: String, v2: Vec<F>| #![trigger m.insert(k, v).insert(k2, v2)] m.insert(k, v).insert(k2, v2).contains_key(k), "AP"@ != "APH"@
{ reveal_strlit("AP"); reveal_strlit("APH"); assert("AP"@.len() == 2 && "APH"@.len() == 3); }
//@fn metrics/detection.rs DetectionMetricsScore::new(results_map, num_gt_map, target_labels, matching_mode, matching_thresholds) -> r
requires forall|i: int| 0 <= i < target_labels@.len() ==> results_map@.contains_key(#[trigger] target_labels@[i]) && num_gt_map@.contains_key(target_labels@[i]), matching_thresholds@.len() >= target_labels@.len()
ensures scored(r, rmap(results_map@), gmap(num_gt_map@), target_labels@, *matching_mode, matching_thresholds@)
start lemma_two();
inv (A:Vec<F>) listed($A@, $i as int, rmap(results_map@), gmap(num_gt_map@), target_labels@, TPMetricsAP, *matching_mode, matching_thresholds@)
inv (A:Vec<F>) listed($A@, $i as int, rmap(results_map@), gmap(num_gt_map@), target_labels@, TPMetricsAPH, *matching_mode, matching_thresholds@)
//@end
//@fn metrics/score.rs MetricsScore::new(params) -> r
ensures r.params == *params, r.scores@.len() == 0
//@end
//@fn metrics/score.rs MetricsScore::evaluate_detection(results_map, num_gt_map)
requires mp_wf(old(self).params), old(self).scores@.len() == 0, forall|i: int| 0 <= i < old(self).params.target_labels@.len() ==> results_map@.contains_key(#[trigger] old(self).params.target_labels@[i]) && num_gt_map@.contains_key(old(self).params.target_labels@[i])
ensures final(self).params == old(self).params, scored_all(final(self).scores@, rmap(results_map@), gmap(num_gt_map@), old(self).params)
//@end
//@fn manager.rs PerceptionEvaluationManager::filter_frame_ground_truth(frame_ground_truth) -> r {{optional}}
requires fp_wf(self.config.filter_params)
ensures r.timestamp == frame_ground_truth.timestamp, r.objects@ == frame_ground_truth.objects@.filter(keep_f(self.config.filter_params, true))
//@end
//@fn manager.rs PerceptionEvaluationManager::add_frame_result(estimated_objects, frame_ground_truth) -> r
requires fp_wf(old(self).config.filter_params), old(self).config.metrics_params.plane_distance_thresholds@.len() >= old(self).config.filter_params.target_labels@.len()
ensures r is Ok, final(self).config == old(self).config, final(self).frame_ground_truths == old(self).frame_ground_truths, final(self).frame_results@.len() == old(self).frame_results@.len() + 1, forall|i: int| 0 <= i < old(self).frame_results@.len() ==> #[trigger] final(self).frame_results@[i] == old(self).frame_results@[i],
 added(final(self).frame_results@.last(), estimated_objects@, *frame_ground_truth, *old(self).config)
//@end
/// A frame result built from the filtered estimates and the filtered ground truth.
pub open spec fn added(f: PerceptionFrameResult, es: Seq<DynamicObject>, g: FrameGroundTruth, c: PerceptionEvaluationConfig) -> bool {
  f.frame_ground_truth.timestamp == g.timestamp && f.frame_ground_truth.objects@ == g.objects@.filter(keep_f(c.filter_params, true))
  && matched(f.results@, es.filter(keep_f(c.filter_params, false)), f.frame_ground_truth.objects@)
  && frame_of(f, f.results@, f.frame_ground_truth, c.filter_params.target_labels@, MatchingMode::PlaneDistance, c.metrics_params.plane_distance_thresholds@) }
//@fn manager.rs PerceptionEvaluationManager::get_frame_ground_truth(timestamp) -> r
ensures r is Some ==> exists|k: int| #[trigger] nearest(self.frame_ground_truths@, *timestamp, self.frame_ground_truths@.len() as int, k) && dist_ms(self.frame_ground_truths@[k], *timestamp) < 75 && r->0 == self.frame_ground_truths@[k]
ensures r is None ==> none_near(self.frame_ground_truths@, *timestamp)
//@end
//@fn manager.rs PerceptionEvaluationManager::get_metrics_score() -> r
requires mp_wf(self.config.metrics_params), countable(self.frame_results@)
ensures r is Ok <==> self.config.evaluation_task == EvaluationTask::Detection
ensures r is Ok ==> scored_all((r->Ok_0).scores@, res_f(self.frame_results@), gts_f(self.frame_results@), self.config.metrics_params)
start lemma_all_frames(self.frame_results@, self.config.metrics_params); lemma_acc_zero(self.frame_results@, self.config.metrics_params.target_labels@); lemma_in_ends(self.config.metrics_params.target_labels@);
begin if $i <= self.config.metrics_params.target_labels@.len() { lemma_in_n(self.config.metrics_params.target_labels@, $i - 1); }
begin if $i <= self.frame_results@.len() { lemma_left(self.frame_results@[$i - 1], self.config.metrics_params.target_labels@); lemma_frame_step(self.frame_results@, $i - 1); lemma_gts_mono(self.frame_results@, $i as int); }
begin lemma_frame_step(self.frame_results@, $oi - 1); lemma_gts_mono(self.frame_results@, $oi as int); if $i <= self.config.metrics_params.target_labels@.len() { assert(gts_n(self.frame_results@, $oi as int, self.config.metrics_params.target_labels@[$i - 1]) <= usize::MAX); }
inv@0 (A:Map) keyed($A@, self.config.metrics_params.target_labels@, $i as int)
inv@0 (A:Map<Label,Vec) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k]@.len() == 0
inv@0 (A:Map<Label,int) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k] == 0
inv@0 (A:Map<Label,usize) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k] == 0
inv (A:Map) keyed($A@, self.config.metrics_params.target_labels@, self.config.metrics_params.target_labels@.len() as int)
inv (A:Map<Label,Vec) acc_r($A@, self.frame_results@, $i as int, self.config.metrics_params.target_labels@, 0)
inv (A:Map<Label,int) acc_g($A@, self.frame_results@, $i as int, self.config.metrics_params.target_labels@, 0)
inv (A:Map<Label,usize) acc_g($A@, self.frame_results@, $i as int, self.config.metrics_params.target_labels@, 0)
inv (A:Map<Label,Vec) acc_r($A@, self.frame_results@, $oi - 1, self.config.metrics_params.target_labels@, $i as int)
inv (A:Map<Label,int) acc_g($A@, self.frame_results@, $oi - 1, self.config.metrics_params.target_labels@, $i as int)
inv (A:Map<Label,usize) acc_g($A@, self.frame_results@, $oi - 1, self.config.metrics_params.target_labels@, $i as int)
inv (A:Map<Label,Vec) left_r($A@, self.frame_results@[$oi - 1], self.config.metrics_params.target_labels@, $i as int)
inv (A:Map<Label,int) left_g($A@, self.frame_results@[$oi - 1], self.config.metrics_params.target_labels@, $i as int)
inv (A:Map<Label,usize) left_g($A@, self.frame_results@[$oi - 1], self.config.metrics_params.target_labels@, $i as int)
inv (A:Map<Label,Vec) moved_r($A@, self.config.metrics_params.target_labels@, $i as int)
inv (A:Map) gone($A@, self.config.metrics_params.target_labels@, $i as int)
//@end
