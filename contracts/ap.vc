//@needs result
//@type metrics/detection.rs Ap
/// A weight of the matched pairs.
pub trait TPMetrics { spec fn fine(&self, r: PerceptionResult) -> bool; spec fn w(&self, r: PerceptionResult) -> real; fn get_value(&self, result: &PerceptionResult) -> (r: F) ensures self.fine(*result) ==> r.ok() && r.rv() == self.w(*result); }
pub trait VPR { spec fn prs(&self) -> Seq<PerceptionResult>; }
impl VPR for Vec<PerceptionResult> { open spec fn prs(&self) -> Seq<PerceptionResult> { self@ } }
impl<'a> VPR for Vec<&'a PerceptionResult> { open spec fn prs(&self) -> Seq<PerceptionResult> { derefs(self@) } }
/// `q` holds the same results in an order of descending confidence.
pub open spec fn ranked(rs: Seq<PerceptionResult>, q: Seq<PerceptionResult>) -> bool { (exists|pi: Seq<int>| #[trigger] perm(rs, q, pi)) && desc(q) }
pub open spec fn conf(r: PerceptionResult) -> F { r.estimated_object.confidence }
pub open spec fn desc(q: Seq<PerceptionResult>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> s_total(conf(#[trigger] q[j]), conf(#[trigger] q[i])) != Ordering::Greater }
pub open spec fn desc_r(q: Seq<&PerceptionResult>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> s_total(conf(*#[trigger] q[j]), conf(*#[trigger] q[i])) != Ordering::Greater }
pub open spec fn derefs(q: Seq<&PerceptionResult>) -> Seq<PerceptionResult> { q.map_values(|x: &PerceptionResult| *x) }
pub proof fn lemma_ranked_r(rs: Seq<PerceptionResult>, q: Seq<&PerceptionResult>) requires desc_r(q) ensures forall|a: Seq<&PerceptionResult>, pi: Seq<int>| #[trigger] perm(a, q, pi) && derefs(a) == rs ==> ranked(rs, derefs(q))
{ assert forall|a: Seq<&PerceptionResult>, pi: Seq<int>| #[trigger] perm(a, q, pi) && derefs(a) == rs implies ranked(rs, derefs(q)) by { assert forall|i: int| 0 <= i < rs.len() implies 0 <= #[trigger] pi[i] < rs.len() && derefs(q)[i] == rs[pi[i]] by {} 
  assert(perm(rs, derefs(q), pi)); assert(desc(derefs(q))); } }
/// The weights of a ranked list: the metric's value of a correct result, zero for the others.
pub open spec fn wts<T: TPMetrics>(q: Seq<PerceptionResult>, tm: T, m: MatchingMode, t: F) -> Seq<real> { Seq::new(q.len(), |i: int| if correct(q[i], m, t) { tm.w(q[i]) } else { 0real }) }
pub open spec fn wok<T: TPMetrics>(q: Seq<PerceptionResult>, tm: T) -> bool { forall|i: int| 0 <= i < q.len() ==> tm.fine(#[trigger] q[i]) }
pub open spec fn psum(w: Seq<real>, i: int) -> real decreases i { if i <= 0 { 0real } else { psum(w, i - 1) + w[i - 1] } }
pub open spec fn dv(a: real, n: int) -> real { a / (n as real) }
pub open spec fn precs(w: Seq<real>) -> Seq<real> { Seq::new(w.len(), |i: int| dv(psum(w, i + 1), i + 1)) }
pub open spec fn recs(w: Seq<real>, g: int) -> Seq<real> { Seq::new(w.len(), |i: int| if g > 0 { dv(psum(w, i + 1), g) } else { 0real }) }
/// The best precision at rank `i` or later.
pub open spec fn env(p: Seq<real>, i: int) -> real decreases p.len() - i { if i < 0 || i >= p.len() { 0real } else if i == p.len() - 1 { p[i] } else if env(p, i + 1) < p[i] { p[i] } else { env(p, i + 1) } }
pub open spec fn at0(r: Seq<real>, i: int) -> real { if 0 <= i < r.len() { r[i] } else { 0real } }
pub open spec fn step(p: Seq<real>, r: Seq<real>, i: int) -> real { env(p, i) * (at0(r, i) - at0(r, i - 1)) }
/// The increase of recall times the best precision reached at that or a later rank, summed over the ranks from `i` on.
pub open spec fn area_from(p: Seq<real>, r: Seq<real>, i: int) -> real decreases p.len() - i { if i < 0 || i >= p.len() { 0real } else { area_from(p, r, i + 1) + step(p, r, i) } }
pub open spec fn ap_of(w: Seq<real>, g: int) -> real { area_from(precs(w), recs(w, g), 0) }
/// The area under the points (R, P) listed from the largest recall down.
pub open spec fn parea(p: Seq<real>, r: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { parea(p, r, n - 1) + p[n - 1] * (r[n - 1] - r[n]) } }
pub open spec fn rvs(s: Seq<F>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].rv()) }
pub open spec fn oks(s: Seq<F>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
pub open spec fn cums(l: Seq<F>, w: Seq<real>, n: int) -> bool { l.len() == w.len() && forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).ok() && l[i].rv() == psum(w, i + 1) }
pub open spec fn raws(l: Seq<F>, w: Seq<real>, a: int, b: int) -> bool { l.len() == w.len() && forall|i: int| a <= i < b ==> (#[trigger] l[i]).ok() && l[i].rv() == w[i] }
pub open spec fn zeros(l: Seq<F>, a: int) -> bool { forall|i: int| a <= i < l.len() ==> (#[trigger] l[i]).ok() && l[i].rv() == 0real }
pub open spec fn tps<T: TPMetrics>(l: Seq<F>, rs: Seq<PerceptionResult>, tm: T, m: MatchingMode, t: F) -> bool { exists|q: Seq<PerceptionResult>| #[trigger] ranked(rs, q) && cums(l, wts(q, tm, m, t), l.len() as int) && l.len() == rs.len() }
pub open spec fn p_ok(p: Seq<F>, t: Seq<F>, n: int) -> bool { p.len() == t.len() && forall|i: int| 0 <= i < n && t[i].ok() ==> (#[trigger] p[i]).ok() && p[i].rv() == dv(t[i].rv(), i + 1) }
pub open spec fn r_ok(r: Seq<F>, t: Seq<F>, g: int, n: int) -> bool { r.len() == t.len() && forall|i: int| 0 <= i < n && t[i].ok() ==> (#[trigger] r[i]).ok() && r[i].rv() == (if g > 0 { dv(t[i].rv(), g) } else { 0real }) }
pub open spec fn prs_ok(p: Seq<F>, r: Seq<F>, t: Seq<F>, g: int, n: int) -> bool { p_ok(p, t, n) && r_ok(r, t, g, n) }
/// The curve (a, b) encloses the area of the ranks from `k` on, and is open at its last point.
pub open spec fn cur(a: Seq<F>, b: Seq<F>, p: Seq<real>, r: Seq<real>, k: int) -> bool { a.len() >= 1 && a.len() == b.len() && a.last().rv() == env(p, k)
  && parea(rvs(a), rvs(b), a.len() - 1) + a.last().rv() * b.last().rv() == area_from(p, r, k) + env(p, k) * at0(r, k - 1) }
pub proof fn lemma_cur_init(a: Seq<F>, b: Seq<F>, pl: Seq<F>, rl: Seq<F>) requires pl.len() == rl.len(), a.len() == 1, b.len() == 1, pl.len() > 0 ==> a[0] == pl.last() && b[0] == rl.last(), pl.len() == 0 ==> a[0].rv() == 0real
  ensures cur(a, b, rvs(pl), rvs(rl), pl.len() - 1)
{ let p = rvs(pl); let r = rvs(rl); let n = p.len() as int; assert(parea(rvs(a), rvs(b), 0) == 0real); 
  if n > 0 { assert(area_from(p, r, n) == 0real); assert(area_from(p, r, n - 1) == step(p, r, n - 1)); let e = p.last(); let x = r.last(); let y = at0(r, n - 2); assert(e * (x - y) + e * y == e * x) by (nonlinear_arith); assert(a.last().rv() == e && b.last().rv() == x); }
  else { let x = b.last().rv(); assert(0real * x == 0real) by (nonlinear_arith); let y = at0(r, -2); assert(0real * y == 0real) by (nonlinear_arith); } }
/// Passing from rank k + 1 to rank k.
pub proof fn lemma_cur_step(a: Seq<F>, b: Seq<F>, pl: Seq<F>, rl: Seq<F>, k: int) requires pl.len() == rl.len(), 0 <= k < pl.len() - 1, cur(a, b, rvs(pl), rvs(rl), k + 1)
  ensures env(rvs(pl), k + 1) < pl[k].rv() ==> cur(a.push(pl[k]), b.push(rl[k]), rvs(pl), rvs(rl), k), env(rvs(pl), k + 1) >= pl[k].rv() ==> cur(a, b, rvs(pl), rvs(rl), k), a.last().rv() == env(rvs(pl), k + 1)
{ let p = rvs(pl); let r = rvs(rl); let x = r[k]; let y = at0(r, k - 1); let u = a.last().rv(); let v = b.last().rv(); let e = env(p, k);
  assert(p[k] == pl[k].rv() && x == rl[k].rv()); assert(at0(r, k) == x); assert(area_from(p, r, k) == area_from(p, r, k + 1) + e * (x - y)); assert(e * (x - y) + e * y == e * x) by (nonlinear_arith); assert(u * (v - x) == u * v - u * x) by (nonlinear_arith);
  if u < p[k] { lemma_parea_push(rvs(a), rvs(b), p[k], x, a.len() - 1); assert(rvs(a.push(pl[k])) =~= rvs(a).push(p[k])); assert(rvs(b.push(rl[k])) =~= rvs(b).push(x));
    assert(rvs(a)[a.len() - 1] == u && rvs(b)[a.len() - 1] == v);
    let aa = rvs(a).push(p[k]); let bb = rvs(b).push(x); assert(aa[a.len() - 1] == u && bb[a.len() - 1] == v && bb[a.len() as int] == x);
    assert(parea(aa, bb, a.len() as int) == parea(aa, bb, a.len() - 1) + u * (v - x)); assert(e == p[k]); } }
/// Closing the curve at recall zero.
pub proof fn lemma_cur_close(a: Seq<F>, b: Seq<F>, p: Seq<real>, r: Seq<real>, k: int, x: F) requires p.len() == r.len(), k == (if p.len() > 0 { 0int } else { -1 }), cur(a, b, p, r, k)
  ensures forall|z: F| z.rv() == 0real ==> parea(rvs(a.push(x)), rvs(#[trigger] b.push(z)), a.len() as int) == area_from(p, r, 0)
{ assert forall|z: F| z.rv() == 0real implies parea(rvs(a.push(x)), rvs(#[trigger] b.push(z)), a.len() as int) == area_from(p, r, 0) by { let u = a.last().rv(); let v = b.last().rv(); assert(u * (v - 0real) == u * v) by (nonlinear_arith); let e = env(p, k); assert(e * 0real == 0real) by (nonlinear_arith); assert(at0(r, k - 1) == 0real);
  lemma_parea_push(rvs(a), rvs(b), x.rv(), z.rv(), a.len() - 1); assert(rvs(a.push(x)) =~= rvs(a).push(x.rv())); assert(rvs(b.push(z)) =~= rvs(b).push(z.rv()));
  let aa = rvs(a.push(x)); let bb = rvs(b.push(z)); assert(aa[a.len() - 1] == u && bb[a.len() - 1] == v && bb[a.len() as int] == 0real);
  assert(parea(aa, bb, a.len() as int) == parea(aa, bb, a.len() - 1) + u * (v - 0real)); } }
/// The points of the interpolated curve enclose its area.
pub open spec fn interp(a: Seq<F>, b: Seq<F>, p: Seq<real>, r: Seq<real>) -> bool { a.len() >= 2 && a.len() == b.len() && oks(a) && oks(b) && parea(rvs(a), rvs(b), a.len() - 1) == area_from(p, r, 0) }
pub proof fn lemma_env(p: Seq<real>, i: int) requires 0 <= i < p.len() - 1 ensures env(p, i) == (if env(p, i + 1) < p[i] { p[i] } else { env(p, i + 1) }) { }
pub proof fn lemma_parea_push(p: Seq<real>, r: Seq<real>, x: real, y: real, n: int) requires p.len() == r.len(), n < p.len() ensures parea(p.push(x), r.push(y), n) == parea(p, r, n) decreases n
{ if n > 0 { lemma_parea_push(p, r, x, y, n - 1); } }
pub proof fn lemma_ranked_wok<T: TPMetrics>(rs: Seq<PerceptionResult>, q: Seq<PerceptionResult>, tm: T) requires ranked(rs, q), wok(rs, tm) ensures wok(q, tm)
{ let pi = choose|pi: Seq<int>| #[trigger] perm(rs, q, pi); assert forall|i: int| 0 <= i < q.len() implies tm.fine(#[trigger] q[i]) by { assert(tm.fine(rs[pi[i]])); } }
pub proof fn lemma_ranked_empty(rs: Seq<PerceptionResult>) ensures rs.len() == 0 ==> ranked(rs, Seq::empty())
{ if rs.len() == 0 { assert(perm(rs, Seq::<PerceptionResult>::empty(), Seq::<int>::empty())); } }
pub proof fn lemma_psum_zero(w: Seq<real>) ensures psum(w, 0) == 0real { }
pub open spec fn ap_is<T: TPMetrics>(x: real, rs: Seq<PerceptionResult>, g: int, tm: T, m: MatchingMode, t: F) -> bool { exists|q: Seq<PerceptionResult>| #[trigger] ranked(rs, q) && x == ap_of(wts(q, tm, m, t), g) }
pub proof fn lemma_ap_lists<T: TPMetrics>(rs: Seq<PerceptionResult>, g: int, tm: T, m: MatchingMode, t: F) requires g >= 0
  ensures forall|l: Seq<F>, p: Seq<F>, r: Seq<F>| #[trigger] tps(l, rs, tm, m, t) && #[trigger] prs_ok(p, r, l, g, l.len() as int) ==> oks(p) && oks(r),
    forall|l: Seq<F>, p: Seq<F>, r: Seq<F>, a: Seq<F>, b: Seq<F>| #[trigger] tps(l, rs, tm, m, t) && #[trigger] prs_ok(p, r, l, g, l.len() as int) && #[trigger] interp(a, b, rvs(p), rvs(r)) ==> ap_is(parea(rvs(a), rvs(b), a.len() - 1), rs, g, tm, m, t)
{ assert forall|l: Seq<F>, p: Seq<F>, r: Seq<F>| #[trigger] tps(l, rs, tm, m, t) && #[trigger] prs_ok(p, r, l, g, l.len() as int) implies oks(p) && oks(r) by { assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).ok() by { assert(l[i].ok()); } assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ok() by { assert(l[i].ok()); } }
  assert forall|l: Seq<F>, p: Seq<F>, r: Seq<F>, a: Seq<F>, b: Seq<F>| #[trigger] tps(l, rs, tm, m, t) && #[trigger] prs_ok(p, r, l, g, l.len() as int) && #[trigger] interp(a, b, rvs(p), rvs(r)) implies ap_is(parea(rvs(a), rvs(b), a.len() - 1), rs, g, tm, m, t) by {
    let q = choose|q: Seq<PerceptionResult>| #[trigger] ranked(rs, q) && cums(l, wts(q, tm, m, t), l.len() as int) && l.len() == rs.len(); let w = wts(q, tm, m, t);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] rvs(p)[i] == precs(w)[i] by { assert(l[i].ok() && p[i].ok()); } assert forall|i: int| 0 <= i < r.len() implies #[trigger] rvs(r)[i] == recs(w, g)[i] by { assert(l[i].ok() && r[i].ok()); }
    assert(rvs(p) =~= precs(w)); assert(rvs(r) =~= recs(w, g)); } }
//@fn metrics/detection.rs Ap::new(results, num_ground_truth) -> r
ensures r.results == results, r.num_ground_truth == num_ground_truth
//@end
//@fn metrics/detection.rs Ap::calculate_precision_recall(tp_list) -> r {{optional}}
requires self.results@.len() == 0 && *self.num_ground_truth == 0 || tp_list@.len() == self.results@.len()
ensures r.0@.len() == self.results@.len() && r.1@.len() == self.results@.len()
ensures prs_ok(r.0@, r.1@, tp_list@, *self.num_ground_truth as int, tp_list@.len() as int) || (self.results@.len() == 0 && *self.num_ground_truth == 0)
ensures self.results@.len() == 0 && *self.num_ground_truth == 0 ==> r.0@.len() == 0 && r.1@.len() == 0
inv (A:Vec<F>) $A@.len() == self.results@.len()
begin assert((($i - 1) as real) + 1real == ($i as real) && ($i as real) > 0real && 1real + (($i - 1) as real) == (($i - 1 + 1) as real)); if *self.num_ground_truth > 0 { assert((*self.num_ground_truth as real) > 0real); }
end (A:Vec<F>, B:Vec<F>) assert(tp_list@[$i - 1].ok() ==> $A@[$i - 1].ok()); 
end (A:Vec<F>, B:Vec<F>) assert(tp_list@[$i - 1].ok() ==> $A@[$i - 1].rv() == dv(tp_list@[$i - 1].rv(), $i - 1 + 1)); 
end (A:Vec<F>, B:Vec<F>) assert(tp_list@[$i - 1].ok() ==> $B@[$i - 1].ok()); 
end (A:Vec<F>, B:Vec<F>) assert(tp_list@[$i - 1].ok() ==> $B@[$i - 1].rv() == (if *self.num_ground_truth > 0 { dv(tp_list@[$i - 1].rv(), *self.num_ground_truth as int) } else { 0real })); 
inv (A:Vec<F>) p_ok($A@, tp_list@, $i as int)
inv (A:Vec<F>) r_ok($A@, tp_list@, *self.num_ground_truth as int, $i as int)
inv (B:Vec<F>) zeros($B@, $i as int)
//@end
//@fn metrics/detection.rs Ap::interpolate_precision_recall(precision_list, recall_list) -> r {{optional}}
requires precision_list@.len() == self.results@.len(), recall_list@.len() == self.results@.len()
ensures self.results@.len() == 0 && *self.num_ground_truth == 0 ==> r.0@.len() == 0
ensures !(self.results@.len() == 0 && *self.num_ground_truth == 0) ==> r.0@.len() >= 2 && r.0@.len() == r.1@.len()
ensures !(self.results@.len() == 0 && *self.num_ground_truth == 0) && oks(precision_list@) && oks(recall_list@) ==> interp(r.0@, r.1@, rvs(precision_list@), rvs(recall_list@))
pre (A:Vec<F>, B:Vec<F>) if $A@.len() == 1 && $B@.len() == 1 && (self.results@.len() > 0 ==> $A@[0] == precision_list@.last() && $B@[0] == recall_list@.last()) && (self.results@.len() == 0 ==> $A@[0].rv() == 0real) { lemma_cur_init($A@, $B@, precision_list@, recall_list@); }
begin (A:Vec<F>, B:Vec<F>) if $i <= recall_list@.len() - 1 && cur($A@, $B@, rvs(precision_list@), rvs(recall_list@), recall_list@.len() - $i) { lemma_cur_step($A@, $B@, precision_list@, recall_list@, recall_list@.len() - 1 - $i); }
post (A:Vec<F>, B:Vec<F>) if cur($A@, $B@, rvs(precision_list@), rvs(recall_list@), recall_list@.len() - 1 - $i) { lemma_cur_close($A@, $B@, rvs(precision_list@), rvs(recall_list@), recall_list@.len() - 1 - $i, $A@.last()); }
inv (A:Vec<F>) $A@.len() >= 1
inv (A:Vec<F>, B:Vec<F>) $A@.len() == $B@.len()
inv (A:Vec<F>) oks(precision_list@) && oks(recall_list@) ==> oks($A@)
inv (A:F, B:Vec<F>) $A == $B@.last()
inv (A:Vec<F>, B:Vec<F>) oks(precision_list@) && oks(recall_list@) ==> cur($A@, $B@, rvs(precision_list@), rvs(recall_list@), recall_list@.len() - 1 - $i)
//@end
//@fn metrics/detection.rs Ap::calculate_tp_fp(tp_metrics, matching_mode, threshold) -> r {{optional;generics=<T: TPMetrics>}}
ensures self.results@.len() == 0 && *self.num_ground_truth == 0 ==> r.0@.len() == 0
ensures r.0@.len() == self.results@.len()
ensures wok(self.results@, tp_metrics) ==> tps(r.0@, self.results@, tp_metrics, *matching_mode, *threshold)
start ax_total_trans(); lemma_ranked_empty(self.results@);
clos#0 vret == s_total($1.estimated_object.confidence, $0.estimated_object.confidence)
inv (A:Vec<F>) $A@.len() == self.results@.len()
inv (A:Vec<PerceptionResult>) $A.prs() =~= self.results@.take($i as int)
pre (U:Vec<PerceptionResult>) assert(self.results@.take(self.results@.len() as int) =~= self.results@); assert(desc_r($U@)); lemma_ranked_r(self.results@, $U@);
pre (U:Vec<PerceptionResult>) assert(ranked(self.results@, $U.prs()));
pre (U:Vec<PerceptionResult>) if wok(self.results@, tp_metrics) { lemma_ranked_wok(self.results@, $U.prs(), tp_metrics); }
begin (U:Vec<PerceptionResult>) let q = $U.prs(); assert($i - 1 < q.len() && wok(q, tp_metrics) ==> wts(q, tp_metrics, *matching_mode, *threshold)[$i - 1] == (if correct(q[$i - 1], *matching_mode, *threshold) { tp_metrics.w(q[$i - 1]) } else { 0real }));
inv (A:Vec<F>) zeros($A@, $i as int)
inv (A:Vec<F>, U:Vec<PerceptionResult>) wok(self.results@, tp_metrics) ==> raws($A@, wts($U.prs(), tp_metrics, *matching_mode, *threshold), 0, $i as int)
inv (A:Vec<F>, U:Vec<PerceptionResult>) wok(self.results@, tp_metrics) ==> raws($A@, wts($U.prs(), tp_metrics, *matching_mode, *threshold), $i as int, self.results@.len() as int)
inv (A:Vec<F>, U:Vec<PerceptionResult>) wok(self.results@, tp_metrics) ==> cums($A@, wts($U.prs(), tp_metrics, *matching_mode, *threshold), $i as int)
inv (A:F, U:Vec<PerceptionResult>) wok(self.results@, tp_metrics) ==> $A.ok() && $A.rv() == psum(wts($U.prs(), tp_metrics, *matching_mode, *threshold), $i as int)
//@end
//@fn metrics/detection.rs Ap::calculate_ap(tp_metrics, matching_mode, threshold) -> r {{generics=<T: TPMetrics>}}
ensures r.nan_s() && !r.ok() || !(self.results@.len() == 0 && *self.num_ground_truth == 0)
ensures !(self.results@.len() == 0 && *self.num_ground_truth == 0) && wok(self.results@, tp_metrics) ==> r.ok() && ap_is(r.rv(), self.results@, *self.num_ground_truth as int, tp_metrics, *matching_mode, *threshold)
start lemma_ap_lists(self.results@, *self.num_ground_truth as int, tp_metrics, *matching_mode, *threshold);
inv (A:F, U:Vec<F>, V:Vec<F>) oks($U@) && oks($V@) ==> $A.ok() && $A.rv() == parea(rvs($U@), rvs($V@), $i as int)
//@end
