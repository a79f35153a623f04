//@needs tp
// What follows from the contract of calculate_ap: no reference to the code.
pub open spec fn unit(w: Seq<real>) -> bool { forall|i: int| 0 <= i < w.len() ==> 0real <= #[trigger] w[i] <= 1real }
//@nra lemma_div(x, y, n, w)
requires n > 0real, y == x + w
ensures y / n == x / n + w / n, w >= 0real ==> w / n >= 0real, x >= 0real ==> x / n >= 0real, x <= n ==> x / n <= 1real, x == n ==> x / n == 1real, x == 0real ==> x / n == 0real, x <= y ==> x / n <= y / n
//@end
//@nra lemma_mul(a, b, c, d)
requires 0real <= a <= b, 0real <= c <= d
ensures 0real <= a * c <= b * d, b == 1real ==> b * d == d
//@end
pub proof fn lemma_psum(w: Seq<real>, i: int) requires unit(w), 0 <= i <= w.len() ensures 0real <= psum(w, i) && psum(w, i) <= (i as real) decreases i
{ if i > 0 { lemma_psum(w, i - 1); assert(0real <= w[i - 1] <= 1real); assert(((i - 1) as real) + 1real == (i as real)); } }
pub proof fn lemma_env_bounds(w: Seq<real>, i: int) requires unit(w), 0 <= i < w.len() ensures 0real <= env(precs(w), i) <= 1real, 0real <= precs(w)[i] <= 1real decreases w.len() - i
{ lemma_psum(w, i + 1); lemma_div(psum(w, i + 1), psum(w, i + 1), (i + 1) as real, 0real); if i < w.len() - 1 { lemma_env_bounds(w, i + 1); } }
/// One step of the area: the weight at that rank over the number of ground truths, times the best precision.
pub proof fn lemma_step(w: Seq<real>, g: int, i: int) requires g > 0, 0 <= i < w.len() ensures step(precs(w), recs(w, g), i) == env(precs(w), i) * dv(w[i], g)
{ lemma_div(psum(w, i), psum(w, i + 1), g as real, w[i]); let r = recs(w, g); assert(at0(r, i) == dv(psum(w, i + 1), g)); lemma_div(0real, 0real, g as real, 0real); assert(psum(w, 0) == 0real); assert(at0(r, i - 1) == dv(psum(w, i), g)); }
pub proof fn lemma_area_bounds(w: Seq<real>, g: int, i: int) requires unit(w), g > 0, 0 <= i <= w.len() ensures 0real <= area_from(precs(w), recs(w, g), i) && area_from(precs(w), recs(w, g), i) <= dv(psum(w, w.len() as int), g) - dv(psum(w, i), g) decreases w.len() - i
{ if i < w.len() { lemma_area_bounds(w, g, i + 1); lemma_step(w, g, i); lemma_env_bounds(w, i); assert(w[i] >= 0real); lemma_div(psum(w, i), psum(w, i + 1), g as real, w[i]); lemma_mul(env(precs(w), i), 1real, dv(w[i], g), dv(w[i], g)); } }
/// C09: AP lies in [0, 1] when the weights of the matched ground truths sum up to no more than there are.
pub proof fn theorem_ap_bounds(w: Seq<real>, g: int) requires unit(w), g > 0, psum(w, w.len() as int) <= (g as real) ensures 0real <= ap_of(w, g) <= 1real
{ lemma_area_bounds(w, g, 0); lemma_psum(w, w.len() as int); let x = psum(w, w.len() as int); lemma_div(x, x, g as real, 0real); assert(psum(w, 0) == 0real); lemma_div(0real, 0real, g as real, 0real); }
pub proof fn lemma_area_zero(p: Seq<real>, r: Seq<real>, i: int) requires p.len() == r.len(), 0 <= i <= p.len(), forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == 0real ensures area_from(p, r, i) == 0real decreases p.len() - i
{ if i < p.len() { lemma_area_zero(p, r, i + 1); let e = env(p, i); assert(at0(r, i) == 0real); assert(at0(r, i - 1) == 0real); assert(e * 0real == 0real) by (nonlinear_arith); } }
pub proof fn lemma_psum_zeros(w: Seq<real>, i: int) requires 0 <= i <= w.len(), forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] == 0real ensures psum(w, i) == 0real decreases i { if i > 0 { lemma_psum_zeros(w, i - 1); assert(w[i - 1] == 0real); } }
/// C09: AP is 0 without a correct result, and when there is no ground truth to recall.
pub proof fn theorem_ap_zero(w: Seq<real>, g: int) requires g >= 0, (forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] == 0real) || g == 0 ensures ap_of(w, g) == 0real
{ let r = recs(w, g); assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] == 0real by { if g > 0 { lemma_psum_zeros(w, j + 1); lemma_div(0real, 0real, g as real, 0real); } } lemma_area_zero(precs(w), r, 0); }
pub proof fn lemma_psum_ones(w: Seq<real>, i: int) requires 0 <= i <= w.len(), forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] == 1real ensures psum(w, i) == (i as real) decreases i { if i > 0 { lemma_psum_ones(w, i - 1); assert(w[i - 1] == 1real); assert(((i - 1) as real) + 1real == (i as real)); } }
pub proof fn lemma_area_ones(p: Seq<real>, r: Seq<real>, i: int) requires p.len() == r.len(), 0 <= i < p.len(), forall|j: int| 0 <= j < p.len() ==> #[trigger] p[j] == 1real ensures area_from(p, r, i) == r[r.len() - 1] - at0(r, i - 1), env(p, i) == 1real decreases p.len() - i
{ let x = at0(r, i) - at0(r, i - 1); if i < p.len() - 1 { lemma_area_ones(p, r, i + 1); } else { assert(area_from(p, r, i + 1) == 0real); } assert(env(p, i) == 1real); assert(1real * x == x) by (nonlinear_arith); assert(step(p, r, i) == x); }
/// C09: AP is 1 for a perfect detector (every ground truth found, no false detection, full weight).
pub proof fn theorem_ap_perfect(w: Seq<real>, g: int) requires g > 0, w.len() == g, forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] == 1real ensures ap_of(w, g) == 1real
{ let p = precs(w); assert forall|j: int| 0 <= j < p.len() implies #[trigger] p[j] == 1real by { lemma_psum_ones(w, j + 1); lemma_div((j + 1) as real, (j + 1) as real, (j + 1) as real, 0real); }
  lemma_area_ones(p, recs(w, g), 0); lemma_psum_ones(w, g); lemma_div(g as real, g as real, g as real, 0real); }
pub open spec fn below(v: Seq<real>, w: Seq<real>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> 0real <= #[trigger] v[i] && v[i] <= w[i] }
pub proof fn lemma_psum_mono(v: Seq<real>, w: Seq<real>, i: int) requires below(v, w), 0 <= i <= w.len() ensures 0real <= psum(v, i) && psum(v, i) <= psum(w, i) decreases i { if i > 0 { lemma_psum_mono(v, w, i - 1); assert(0real <= v[i - 1] && v[i - 1] <= w[i - 1]); } }
pub proof fn lemma_env_mono(v: Seq<real>, w: Seq<real>, i: int) requires below(v, w), 0 <= i < w.len() ensures 0real <= env(precs(v), i) && env(precs(v), i) <= env(precs(w), i), 0real <= precs(v)[i] && precs(v)[i] <= precs(w)[i] decreases w.len() - i
{ lemma_psum_mono(v, w, i + 1); let x = psum(v, i + 1); let y = psum(w, i + 1); lemma_div(x, y, (i + 1) as real, y - x); if i < w.len() - 1 { lemma_env_mono(v, w, i + 1); } }
pub proof fn lemma_area_mono(v: Seq<real>, w: Seq<real>, g: int, i: int) requires below(v, w), g > 0, 0 <= i <= w.len() ensures area_from(precs(v), recs(v, g), i) <= area_from(precs(w), recs(w, g), i) decreases w.len() - i
{ if i < w.len() { lemma_area_mono(v, w, g, i + 1); lemma_step(v, g, i); lemma_step(w, g, i); lemma_env_mono(v, w, i); assert(0real <= v[i] && v[i] <= w[i]); lemma_div(v[i], w[i], g as real, w[i] - v[i]); lemma_mul(env(precs(v), i), env(precs(w), i), dv(v[i], g), dv(w[i], g)); } }
/// C10: with weights that are nowhere larger the area is not larger; so APH (weights in [0, 1]) never exceeds AP (weight 1).
pub proof fn theorem_ap_mono(v: Seq<real>, w: Seq<real>, g: int) requires below(v, w), g >= 0 ensures ap_of(v, g) <= ap_of(w, g)
{ if g > 0 { lemma_area_mono(v, w, g, 0); } else { theorem_ap_zero(v, g); theorem_ap_zero(w, g); } }
/// The value that heading() returns is in range when the orientation is finite (contract of DynamicObject::heading).
pub open spec fn hdok(q: Seq<PerceptionResult>) -> bool { forall|i: int| 0 <= i < q.len() && has_gt(#[trigger] q[i]) ==> -r_pi() <= h_est(q[i]).rv() <= r_pi() && -r_pi() <= h_gt(q[i]).rv() <= r_pi() }
pub proof fn theorem_aph_le_ap(q: Seq<PerceptionResult>, a: TPMetricsAP, h: TPMetricsAPH, m: MatchingMode, t: F, g: int) requires hdok(q), g >= 0
  ensures ap_of(wts(q, h, m, t), g) <= ap_of(wts(q, a, m, t), g), unit(wts(q, h, m, t)), unit(wts(q, a, m, t))
{ let v = wts(q, h, m, t); let w = wts(q, a, m, t); assert forall|i: int| 0 <= i < w.len() implies 0real <= #[trigger] v[i] && v[i] <= w[i] by { if has_gt(q[i]) { theorem_aphw(h_est(q[i]).rv(), h_gt(q[i]).rv()); } }
  assert forall|i: int| 0 <= i < v.len() implies 0real <= #[trigger] v[i] <= 1real by { if has_gt(q[i]) { theorem_aphw(h_est(q[i]).rv(), h_gt(q[i]).rv()); } } assert(below(v, w)); theorem_ap_mono(v, w, g); }
/// Pairwise different confidences.
pub open spec fn distinct(rs: Seq<PerceptionResult>) -> bool { forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < rs.len() && i != j ==> s_total(conf(#[trigger] rs[i]), conf(#[trigger] rs[j])) != Ordering::Equal }
pub proof fn lemma_onto(pi: Seq<int>, n: int, k: int) requires pi.len() == n, 0 <= k < n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pi[i] < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] pi[i] != #[trigger] pi[j]
  ensures exists|i: int| 0 <= i < n && #[trigger] pi[i] == k
{ assert(pi.no_duplicates()); pi.unique_seq_to_set(); let s = vstd::set_lib::set_int_range(0, n); vstd::set_lib::lemma_int_range(0, n);
  assert(pi.to_set().subset_of(s)) by { assert forall|x: int| pi.to_set().contains(x) implies s.contains(x) by { assert(pi.contains(x)); let i = choose|i: int| 0 <= i < pi.len() && pi[i] == x; assert(0 <= pi[i] < n); } }
  vstd::set_lib::lemma_subset_equality(pi.to_set(), s); assert(s.contains(k)); assert(pi.contains(k)); }
pub proof fn lemma_incr_id(sg: Seq<int>, i: int) requires 0 <= i < sg.len(), forall|i: int| 0 <= i < sg.len() ==> 0 <= #[trigger] sg[i] < sg.len(), forall|i: int, j: int| 0 <= i < j < sg.len() ==> #[trigger] sg[i] < #[trigger] sg[j] ensures sg[i] == i
{ lemma_incr_lo(sg, i); lemma_incr_hi(sg, i); }
pub proof fn lemma_incr_lo(sg: Seq<int>, i: int) requires 0 <= i < sg.len(), forall|i: int| 0 <= i < sg.len() ==> 0 <= #[trigger] sg[i] < sg.len(), forall|i: int, j: int| 0 <= i < j < sg.len() ==> #[trigger] sg[i] < #[trigger] sg[j] ensures sg[i] >= i decreases i { if i > 0 { lemma_incr_lo(sg, i - 1); assert(sg[i - 1] < sg[i]); } }
pub proof fn lemma_incr_hi(sg: Seq<int>, i: int) requires 0 <= i < sg.len(), forall|i: int| 0 <= i < sg.len() ==> 0 <= #[trigger] sg[i] < sg.len(), forall|i: int, j: int| 0 <= i < j < sg.len() ==> #[trigger] sg[i] < #[trigger] sg[j] ensures sg[i] <= i decreases sg.len() - i { if i < sg.len() - 1 { lemma_incr_hi(sg, i + 1); assert(sg[i] < sg[i + 1]); } }
/// C09: results of different confidences are ranked in one way only, in whatever order they were added; so the AP of both orders is the same.
pub proof fn theorem_order(rs: Seq<PerceptionResult>, rs2: Seq<PerceptionResult>, s: Seq<int>, q1: Seq<PerceptionResult>, q2: Seq<PerceptionResult>) requires distinct(rs), perm(rs, rs2, s), ranked(rs, q1), ranked(rs2, q2) ensures q1 =~= q2
{ let n = rs.len() as int; let p1 = choose|pi: Seq<int>| #[trigger] perm(rs, q1, pi) && desc(q1); let p2 = choose|pi: Seq<int>| #[trigger] perm(rs2, q2, pi) && desc(q2);
  let sg = Seq::new(n as nat, |i: int| choose|j: int| 0 <= j < n && #[trigger] p1[j] == s[p2[i]]);
  assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] sg[i] < n && p1[sg[i]] == s[p2[i]] && q2[i] == q1[sg[i]] by { lemma_onto(p1, n, s[p2[i]]); assert(q2[i] == rs2[p2[i]]); assert(rs2[p2[i]] == rs[s[p2[i]]]); assert(q1[sg[i]] == rs[p1[sg[i]]]); }
  assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] sg[i] < #[trigger] sg[j] by { let a = sg[i]; let b = sg[j]; assert(p2[i] != p2[j]); assert(s[p2[i]] != s[p2[j]]) by { if p2[i] < p2[j] { } else { assert(p2[j] < p2[i]); } } assert(p1[a] != p1[b]); assert(q2[i] == q1[a] && q2[j] == q1[b]);
    if a > b { assert(s_total(conf(q1[a]), conf(q1[b])) != Ordering::Greater); assert(s_total(conf(q2[j]), conf(q2[i])) != Ordering::Greater); assert(q1[a] == rs[p1[a]] && q1[b] == rs[p1[b]]); assert(s_total(conf(rs[p1[a]]), conf(rs[p1[b]])) != Ordering::Equal); assert(s_total(conf(rs[p1[b]]), conf(rs[p1[a]])) != Ordering::Equal); } }
  assert forall|i: int| 0 <= i < n implies q1[i] == q2[i] by { lemma_incr_id(sg, i); assert(sg[i] == i); } }
pub open spec fn once(q: Seq<PerceptionResult>, f: Seq<int>, g: int) -> bool { f.len() == q.len() && (forall|i: int| 0 <= i < q.len() && has_gt(q[i]) ==> 0 <= #[trigger] f[i] < g) && (forall|i: int, j: int| 0 <= i < j < q.len() && has_gt(q[i]) && has_gt(q[j]) ==> #[trigger] f[i] != #[trigger] f[j]) }
pub open spec fn used(q: Seq<PerceptionResult>, f: Seq<int>, i: int) -> Seq<int> decreases i { if i <= 0 { Seq::empty() } else if has_gt(q[i - 1]) { used(q, f, i - 1).push(f[i - 1]) } else { used(q, f, i - 1) } }
pub proof fn lemma_used(q: Seq<PerceptionResult>, f: Seq<int>, g: int, w: Seq<real>, i: int) requires once(q, f, g), w.len() == q.len(), unit(w), forall|i: int| 0 <= i < w.len() && !has_gt(q[i]) ==> #[trigger] w[i] == 0real, 0 <= i <= q.len()
  ensures used(q, f, i).no_duplicates(), forall|x: int| #[trigger] used(q, f, i).contains(x) ==> 0 <= x < g && exists|j: int| 0 <= j < i && has_gt(q[j]) && #[trigger] f[j] == x, psum(w, i) <= (used(q, f, i).len() as real) decreases i
{ if i > 0 { lemma_used(q, f, g, w, i - 1); let u = used(q, f, i - 1); assert(0real <= w[i - 1] <= 1real); if has_gt(q[i - 1]) { assert(((u.len() + 1) as real) == (u.len() as real) + 1real); let v = u.push(f[i - 1]); assert(0 <= f[i - 1] < g);
    assert forall|x: int| #[trigger] v.contains(x) implies 0 <= x < g && exists|j: int| 0 <= j < i && has_gt(q[j]) && #[trigger] f[j] == x by { let k = choose|k: int| 0 <= k < v.len() && v[k] == x; if k < u.len() { assert(u[k] == x); assert(u.contains(x)); } else { assert(f[i - 1] == x); } }
    assert forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && a != b implies v[a] != v[b] by { if a < u.len() && b < u.len() { assert(u[a] != u[b]); } else if a < u.len() { assert(u.contains(u[a])); } else { assert(u.contains(u[b])); } } } } }
/// C09: when no ground truth is matched twice (f numbers the ground truth of each matched result), AP and APH lie in [0, 1].
pub proof fn theorem_once(q: Seq<PerceptionResult>, f: Seq<int>, g: int, w: Seq<real>) requires once(q, f, g), g > 0, w.len() == q.len(), unit(w), forall|i: int| 0 <= i < w.len() && !has_gt(q[i]) ==> #[trigger] w[i] == 0real ensures 0real <= ap_of(w, g) <= 1real
{ let n = q.len() as int; lemma_used(q, f, g, w, n); let u = used(q, f, n); u.unique_seq_to_set(); let s = vstd::set_lib::set_int_range(0, g); vstd::set_lib::lemma_int_range(0, g);
  assert(u.to_set().subset_of(s)) by { assert forall|x: int| u.to_set().contains(x) implies s.contains(x) by { assert(u.contains(x)); } } vstd::set_lib::lemma_len_subset(u.to_set(), s); assert(u.len() <= g); theorem_ap_bounds(w, g); }
