//@needs score foot
/// geo's polygons (trusted): `olap` is the area that two polygons have in common.
pub struct Coord<T> { pub x: T, pub y: T }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Polygon<T> { t: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct MultiPolygon<T> { t: core::marker::PhantomData<T> }
/// The corners of a ring, without the repeated first one.
pub open spec fn pts_of(v: Seq<Coord<F>>) -> Seq<Coord<F>> { if v.len() > 1 && v.last() == v[0] { v.drop_last() } else { v } }
pub uninterp spec fn olap(a: Seq<Coord<F>>, b: Seq<Coord<F>>) -> real;
pub open spec fn finpts(a: Seq<Coord<F>>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).x.ok() && a[i].y.ok() }
pub open spec fn para(a: Seq<Coord<F>>) -> bool { finpts(a) && a.len() == 4 && a[0].x.rv() + a[2].x.rv() == a[1].x.rv() + a[3].x.rv() && a[0].y.rv() + a[2].y.rv() == a[1].y.rv() + a[3].y.rv() }
pub open spec fn pcross(a: Seq<Coord<F>>) -> real { (a[1].x.rv() - a[0].x.rv()) * (a[3].y.rv() - a[0].y.rv()) - (a[1].y.rv() - a[0].y.rv()) * (a[3].x.rv() - a[0].x.rv()) }
/// Area of a parallelogram.
pub open spec fn parea(a: Seq<Coord<F>>) -> real { if pcross(a) >= 0real { pcross(a) } else { -pcross(a) } }
pub open spec fn separated(a: Seq<Coord<F>>, b: Seq<Coord<F>>) -> bool { exists|u: real, v: real, c: real| #[trigger] sepby(a, b, u, v, c) }
pub open spec fn sepby(a: Seq<Coord<F>>, b: Seq<Coord<F>>, u: real, v: real, c: real) -> bool { (forall|i: int| 0 <= i < a.len() ==> u * (#[trigger] a[i]).x.rv() + v * a[i].y.rv() <= c) && (forall|i: int| 0 <= i < b.len() ==> u * (#[trigger] b[i]).x.rv() + v * b[i].y.rv() >= c) && (u != 0real || v != 0real) }
pub axiom fn ax_olap(a: Seq<Coord<F>>, b: Seq<Coord<F>>) requires para(a), para(b) ensures 0real <= olap(a, b) <= parea(a), olap(a, b) <= parea(b), olap(a, b) == olap(b, a), olap(a, a) == parea(a), separated(a, b) ==> olap(a, b) == 0real;
impl<T> Polygon<T> { pub uninterp spec fn pts(&self) -> Seq<Coord<F>>; }
impl<T> MultiPolygon<T> { pub uninterp spec fn area(&self) -> F; }
#[verifier::external_body] pub fn vpolygon(v: Vec<Coord<F>>) -> (r: Polygon<F>) ensures r.pts() == pts_of(v@) { unimplemented!() }
impl Polygon<F> { #[verifier::external_body] pub fn intersection(&self, o: &Polygon<F>) -> (r: MultiPolygon<F>) ensures finpts(self.pts()) && finpts(o.pts()) ==> r.area().ok() && r.area().rv() == olap(self.pts(), o.pts()) { unimplemented!() }
  #[verifier::external_body] pub fn unsigned_area(&self) -> (r: F) ensures para(self.pts()) ==> r.ok() && r.rv() == parea(self.pts()) { unimplemented!() } }
impl MultiPolygon<F> { #[verifier::external_body] pub fn unsigned_area(&self) -> (r: F) ensures r == self.area() { unimplemented!() } }
/// C08: the overlap seen from above, the common height, and the two scores.
pub open spec fn bev(f: Seq<[F; 3]>) -> Seq<Coord<F>> { Seq::new(4, |i: int| Coord { x: f[i]@[0], y: f[i]@[1] }) }
pub open spec fn inter2(e: DynamicObject, g: DynamicObject) -> real { olap(bev(fp(e)), bev(fp(g))) }
pub open spec fn ar(o: DynamicObject) -> real { o.size[1].rv() * o.size[0].rv() }
pub open spec fn vol(o: DynamicObject) -> real { o.size[1].rv() * o.size[0].rv() * o.size[2].rv() }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn top(o: DynamicObject) -> real { o.position[2].rv() + o.size[2].rv() / 2real }
pub open spec fn bot(o: DynamicObject) -> real { o.position[2].rv() - o.size[2].rv() / 2real }
pub open spec fn common_h(e: DynamicObject, g: DynamicObject) -> real { rmax(0real, rmin(top(e), top(g)) - rmax(bot(e), bot(g))) }
pub open spec fn ratio(i: real, u: real) -> real { if u == 0real { 0real } else { i / u } }
pub open spec fn fin2p(e: DynamicObject, g: DynamicObject) -> bool { fin_pose(e) && fin_pose(g) }
pub open spec fn iou2_ok(r: F, e: DynamicObject, g: DynamicObject) -> bool { r.ok() && r.rv() == ratio(inter2(e, g), ar(e) + ar(g) - inter2(e, g)) }
pub open spec fn iou3_ok(r: F, e: DynamicObject, g: DynamicObject) -> bool { r.ok() && r.rv() == ratio(inter2(e, g) * common_h(e, g), vol(e) + vol(g) - inter2(e, g) * common_h(e, g)) }
pub proof fn lemma_bev(o: DynamicObject) requires is_ring(fp(o), o) ensures finpts(bev(fp(o))), fp(o).len() == 4
{ let (s, f) = choose|s: int, f: bool| #[trigger] ring(fp(o), o, s, f); assert forall|k: int| 0 <= k < 4 implies is_corner((#[trigger] fp(o)[k])@, o, if f { rm4(s + k) } else { rm4(s - k) }) by { } }
pub open spec fn cat(v: Seq<Coord<F>>, f: Seq<[F; 3]>, i: int) -> bool { v[i].x == f[i]@[0] && v[i].y == f[i]@[1] }
pub proof fn lemma_pts(f: Seq<[F; 3]>) ensures forall|v: Seq<Coord<F>>| (v.len() == 5 && v[4].x == v[0].x && v[4].y == v[0].y || v.len() == 4 && v[3] != v[0]) && cat(v, f, 0) && cat(v, f, 1) && cat(v, f, 2) && cat(v, f, 3) ==> #[trigger] pts_of(v) == bev(f)
{ assert forall|v: Seq<Coord<F>>| (v.len() == 5 && v[4].x == v[0].x && v[4].y == v[0].y || v.len() == 4 && v[3] != v[0]) && cat(v, f, 0) && cat(v, f, 1) && cat(v, f, 2) && cat(v, f, 3) implies #[trigger] pts_of(v) == bev(f) by { assert(pts_of(v) =~= bev(f)); } }
//@fn matching.rs get_intersection_area(estimated_object, ground_truth_object) -> r {{optional}}
top hide(is_ring);
ensures fin2p(*estimated_object, *ground_truth_object) ==> r.ok() && r.rv() == inter2(*estimated_object, *ground_truth_object)
start lemma_pts(fp(*estimated_object)); lemma_pts(fp(*ground_truth_object));
start if is_ring(fp(*estimated_object), *estimated_object) { lemma_bev(*estimated_object); }
start if is_ring(fp(*ground_truth_object), *ground_truth_object) { lemma_bev(*ground_truth_object); }
//@end
//@fn matching.rs get_intersection_height(estimated_object, ground_truth_object) -> r {{optional}}
assume fin2p(*estimated_object, *ground_truth_object)
ensures fin2p(*estimated_object, *ground_truth_object) ==> r.ok() && r.rv() == common_h(*estimated_object, *ground_truth_object)
start lemma_comm();
//@end
//@fn matching.rs get_intersection_volume(estimated_object, ground_truth_object) -> r {{optional}}
ensures fin2p(*estimated_object, *ground_truth_object) ==> r.ok() && r.rv() == inter2(*estimated_object, *ground_truth_object) * common_h(*estimated_object, *ground_truth_object)
start lemma_comm();
//@end
//@extend Iou2dMatching::calculate_matching_score
ensures fin2p(*estimated_object, *ground_truth_object) ==> iou2_ok(r, *estimated_object, *ground_truth_object)
//@end
//@extend Iou3dMatching::calculate_matching_score
ensures fin2p(*estimated_object, *ground_truth_object) ==> iou3_ok(r, *estimated_object, *ground_truth_object)
//@end
/// Objects standing upright with non-negative size: the overlap is bounded by both areas.
pub open spec fn upright(o: DynamicObject) -> bool { fin3(o.position@) && fin3(o.size@) && vertical(o.orientation@) && o.size[0].rv() >= 0real && o.size[1].rv() >= 0real && o.size[2].rv() >= 0real && is_ring(fp(o), o) }
//@nra lemma_rect_area(k, s, m, a, b, x0, y0, xf, yf, xg, yg, px, py)
requires m == -s, x0 == px + (k * a + m * b), y0 == py + (s * a + k * b), xf == px + (k * (-a) + m * b), yf == py + (s * (-a) + k * b), xg == px + (k * a + m * (-b)), yg == py + (s * a + k * (-b))
ensures (xf - x0) * (yg - y0) - (yf - y0) * (xg - x0) == 4real * (k * k + s * s) * (a * b), (xg - x0) * (yf - y0) - (yg - y0) * (xf - x0) == -(4real * (k * k + s * s) * (a * b))
//@end
//@nra lemma_4ab(n, a, b, l, w)
requires n == 1real, a == l / 2real || a == -(l / 2real), b == w / 2real || b == -(w / 2real)
ensures 4real * n * (a * b) == l * w || 4real * n * (a * b) == -(l * w)
//@end
//@nra lemma_posprod(l, w, h)
requires l >= 0real, w >= 0real, h >= 0real
ensures l * w >= 0real, l * w * h >= 0real
//@end
/// The footprint of an upright object is a parallelogram whose area is length times width.
pub proof fn lemma_area(o: DynamicObject) requires upright(o) ensures para(bev(fp(o))), parea(bev(fp(o))) == ar(o), ar(o) >= 0real, vol(o) >= 0real
{ let q = o.orientation@; let f = fp(o); lemma_bev(o); theorem_opposite(f, o, 0, 0); theorem_opposite(f, o, 1, 0); theorem_opposite(f, o, 0, 1); theorem_opposite(f, o, 1, 1);
  let (st, d) = choose|s: int, d: bool| #[trigger] ring(f, o, s, d);
  assert forall|k: int| 0 <= k < 4 implies is_corner((#[trigger] f[k])@, o, if d { rm4(st + k) } else { rm4(st - k) }) by { }
  lemma_vert(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv()); let j = st; let j1 = if d { rm4(st + 1) } else { rm4(st - 1) }; let j3 = if d { rm4(st + 3) } else { rm4(st - 3) };
  let l = o.size[1].rv(); let w = o.size[0].rv(); let a = cx(o, j); let b = cy2(o, j); let k = rq(q, 0, 0); let s = rq(q, 1, 0); let m = rq(q, 0, 1); assert(m == -s); assert(rq(q, 1, 1) == k);
  assert(k * k + s * s == 1real);
  assert(is_corner(f[0]@, o, j)); assert(is_corner(f[1]@, o, j1)); assert(is_corner(f[3]@, o, j3));
  let px = o.position[0].rv(); let py = o.position[1].rv(); let x0 = f[0]@[0].rv(); let y0 = f[0]@[1].rv(); let x1 = f[1]@[0].rv(); let y1 = f[1]@[1].rv(); let x3 = f[3]@[0].rv(); let y3 = f[3]@[1].rv();
  lemma_mrn(k, a); lemma_mrn(k, b); lemma_mrn(s, a); lemma_mrn(m, b); lemma_mrn(k, -a); lemma_mrn(k, -b); lemma_mrn(s, -a); lemma_mrn(m, -b);
  lemma_4ab(k * k + s * s, a, b, l, w); lemma_posprod(l, w, o.size[2].rv());
  if cx(o, j1) == -a && cy2(o, j1) == b && cx(o, j3) == a && cy2(o, j3) == -b { lemma_rect_area(k, s, m, a, b, x0, y0, x1, y1, x3, y3, px, py); }
  else { assert(cx(o, j1) == a && cy2(o, j1) == -b && cx(o, j3) == -a && cy2(o, j3) == b); lemma_rect_area(k, s, m, a, b, x0, y0, x3, y3, x1, y1, px, py); } }
//@nra lemma_ratio(i, a, b, u, r)
requires 0real <= i, i <= a, i <= b, u == a + b - i, u != 0real, r == i / u
ensures 0real <= r, r <= 1real
ensures i == 0real ==> r == 0real
ensures i == a && i == b ==> r == 1real
//@end
//@nra lemma_scale(i, a, h, z)
requires 0real <= i, i <= a, 0real <= h, h <= z
ensures 0real <= i * h, i * h <= a * z
ensures i == a && h == z ==> i * h == a * z
ensures i == 0real || h == 0real ==> i * h == 0real
//@end
/// C08: both scores lie in [0, 1], do not depend on the order, are 1 for the same box of positive size and 0 for disjoint ones.
pub proof fn theorem_iou2(r: F, e: DynamicObject, g: DynamicObject) requires upright(e), upright(g), iou2_ok(r, e, g) ensures 0real <= r.rv() <= 1real,
  separated(bev(fp(e)), bev(fp(g))) ==> r.rv() == 0real,
  e.position@ == g.position@ && e.orientation@ == g.orientation@ && e.size@ == g.size@ && ar(e) > 0real ==> r.rv() == 1real
{ lemma_area(e); lemma_area(g); let a = bev(fp(e)); let b = bev(fp(g)); ax_olap(a, b); let i = inter2(e, g); let u = ar(e) + ar(g) - i; if u != 0real { lemma_ratio(i, ar(e), ar(g), u, r.rv()); } }
pub proof fn theorem_iou2_sym(r: F, s: F, e: DynamicObject, g: DynamicObject) requires upright(e), upright(g), iou2_ok(r, e, g), iou2_ok(s, g, e) ensures r.rv() == s.rv()
{ lemma_area(e); lemma_area(g); ax_olap(bev(fp(e)), bev(fp(g))); }
pub proof fn lemma_common(e: DynamicObject, g: DynamicObject) requires e.size[2].rv() >= 0real, g.size[2].rv() >= 0real ensures 0real <= common_h(e, g) <= e.size[2].rv(), common_h(e, g) <= g.size[2].rv(), common_h(e, g) == common_h(g, e), e.position@ == g.position@ && e.size@ == g.size@ ==> common_h(e, g) == e.size[2].rv(), (top(e) <= bot(g) || top(g) <= bot(e)) ==> common_h(e, g) == 0real
{ assert(e.position@[2] == e.position[2]); assert(g.position@[2] == g.position[2]); assert(e.size@[2] == e.size[2]); assert(g.size@[2] == g.size[2]); }
pub proof fn theorem_iou3(r: F, e: DynamicObject, g: DynamicObject) requires upright(e), upright(g), iou3_ok(r, e, g) ensures 0real <= r.rv() <= 1real,
  separated(bev(fp(e)), bev(fp(g))) || top(e) <= bot(g) || top(g) <= bot(e) ==> r.rv() == 0real,
  e.position@ == g.position@ && e.orientation@ == g.orientation@ && e.size@ == g.size@ && vol(e) > 0real ==> r.rv() == 1real
{ lemma_area(e); lemma_area(g); let a = bev(fp(e)); let b = bev(fp(g)); ax_olap(a, b); lemma_common(e, g); let h = common_h(e, g); lemma_scale(inter2(e, g), ar(e), h, e.size[2].rv()); lemma_scale(inter2(e, g), ar(g), h, g.size[2].rv());
  let i = inter2(e, g) * h; let u = vol(e) + vol(g) - i; if u != 0real { lemma_ratio(i, vol(e), vol(g), u, r.rv()); } }
pub proof fn theorem_iou3_sym(r: F, s: F, e: DynamicObject, g: DynamicObject) requires upright(e), upright(g), iou3_ok(r, e, g), iou3_ok(s, g, e) ensures r.rv() == s.rv()
{ lemma_area(e); lemma_area(g); ax_olap(bev(fp(e)), bev(fp(g))); lemma_common(e, g); }
/// C08: an overlap passes a threshold exactly if it is strictly larger.
pub proof fn theorem_iou_passes(m: MatchingMode, s: F, t: F) requires m == MatchingMode::Iou2d || m == MatchingMode::Iou3d, s.ok(), t.ok() ensures passes(m, s, t) == (t.rv() < s.rv()) { }
