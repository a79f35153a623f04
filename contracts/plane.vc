//@needs score math
/// C07: the plane distance.
pub open spec fn bev2(p: Seq<F>) -> real { sq(p[0].rv()) + sq(p[1].rv()) }
pub open spec fn ord_r(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// `i` is the first of the nearest corners, `j` the first of the nearest others.
pub open spec fn is_n0(f: Seq<[F; 3]>, i: int) -> bool { 0 <= i < f.len() && forall|k: int| 0 <= k < f.len() ==> bev2(f[i]@) <= bev2((#[trigger] f[k])@) && (k < i ==> bev2(f[i]@) < bev2(f[k]@)) }
pub open spec fn is_n1(f: Seq<[F; 3]>, i: int, j: int) -> bool { 0 <= j < f.len() && j != i && forall|k: int| 0 <= k < f.len() && k != i ==> bev2(f[j]@) <= bev2((#[trigger] f[k])@) && (k < j ==> bev2(f[j]@) < bev2(f[k]@)) }
pub open spec fn n0(f: Seq<[F; 3]>) -> int { choose|i: int| is_n0(f, i) }
pub open spec fn n1(f: Seq<[F; 3]>) -> int { choose|j: int| is_n1(f, n0(f), j) }
pub open spec fn near(f: Seq<[F; 3]>, a: [F; 3], b: [F; 3]) -> bool { a == f[n0(f)] && b == f[n1(f)] }
pub proof fn lemma_is_near(f: Seq<[F; 3]>, i: int, j: int) requires is_n0(f, i), is_n1(f, i, j) ensures near(f, f[i], f[j]), n0(f) == i, n1(f) == j
{ let a = n0(f); assert(is_n0(f, a)); if a < i { assert(bev2(f[i]@) < bev2(f[a]@)); assert(bev2(f[a]@) <= bev2(f[i]@)); } if i < a { assert(bev2(f[a]@) < bev2(f[i]@)); assert(bev2(f[i]@) <= bev2(f[a]@)); }
  let b = n1(f); assert(is_n1(f, i, b)); if b < j { assert(bev2(f[j]@) < bev2(f[b]@)); assert(bev2(f[b]@) <= bev2(f[j]@)); } if j < b { assert(bev2(f[b]@) < bev2(f[j]@)); assert(bev2(f[j]@) <= bev2(f[b]@)); } }
/// A stable sort of four corners by distance starts with the two nearest ones.
pub proof fn lemma_near() ensures forall|a: Seq<[F; 3]>, b: Seq<[F; 3]>, pi: Seq<int>| #[trigger] perm(a, b, pi) && a.len() == 4
  && bev2(b[0]@) <= bev2(b[1]@) && bev2(b[1]@) <= bev2(b[2]@) && bev2(b[2]@) <= bev2(b[3]@)
  && (pi[0] > pi[1] ==> bev2(b[0]@) < bev2(b[1]@)) && (pi[0] > pi[2] ==> bev2(b[0]@) < bev2(b[2]@)) && (pi[0] > pi[3] ==> bev2(b[0]@) < bev2(b[3]@)) && (pi[1] > pi[2] ==> bev2(b[1]@) < bev2(b[2]@)) && (pi[1] > pi[3] ==> bev2(b[1]@) < bev2(b[3]@))
  ==> near(a, b[0], b[1])
{ assert forall|a: Seq<[F; 3]>, b: Seq<[F; 3]>, pi: Seq<int>| #[trigger] perm(a, b, pi) && a.len() == 4
    && bev2(b[0]@) <= bev2(b[1]@) && bev2(b[1]@) <= bev2(b[2]@) && bev2(b[2]@) <= bev2(b[3]@)
    && (pi[0] > pi[1] ==> bev2(b[0]@) < bev2(b[1]@)) && (pi[0] > pi[2] ==> bev2(b[0]@) < bev2(b[2]@)) && (pi[0] > pi[3] ==> bev2(b[0]@) < bev2(b[3]@)) && (pi[1] > pi[2] ==> bev2(b[1]@) < bev2(b[2]@)) && (pi[1] > pi[3] ==> bev2(b[1]@) < bev2(b[3]@)) implies near(a, b[0], b[1]) by {
    let i = pi[0]; let j = pi[1]; let x = pi[2]; let y = pi[3]; assert(b[0] == a[i] && b[1] == a[j] && b[2] == a[x] && b[3] == a[y]);
    assert forall|k: int| 0 <= k < 4 implies bev2(a[i]@) <= bev2((#[trigger] a[k])@) && (k < i ==> bev2(a[i]@) < bev2(a[k]@)) by { assert(k == i || k == j || k == x || k == y); }
    assert forall|k: int| 0 <= k < 4 && k != i implies bev2(a[j]@) <= bev2((#[trigger] a[k])@) && (k < j ==> bev2(a[j]@) < bev2(a[k]@)) by { assert(k == i || k == j || k == x || k == y); }
    assert(is_n0(a, i)); assert(is_n1(a, i, j)); lemma_is_near(a, i, j); } }
/// Non-negative numbers are ordered like their squares.
pub proof fn lemma_sqord() ensures forall|a: F, b: F| a.ok() && b.ok() && a.rv() >= 0real && b.rv() >= 0real ==> (#[trigger] flt(a, b) <==> a.rv() * a.rv() < b.rv() * b.rv()), forall|x: real| #[trigger] sq(x) == x * x
{ assert forall|a: F, b: F| a.ok() && b.ok() && a.rv() >= 0real && b.rv() >= 0real implies (#[trigger] flt(a, b) <==> a.rv() * a.rv() < b.rv() * b.rv()) by { let x = a.rv(); let y = b.rv(); 
    if x < y { assert(x * x < y * y) by (nonlinear_arith) requires 0real <= x, x < y; } else { assert(y * y <= x * x) by (nonlinear_arith) requires 0real <= y, y <= x; } } }
/// The end of a face that is on the left, and the one on the right, seen from ego.
pub open spec fn cross(a: Seq<F>, b: Seq<F>) -> real { mr(a[0].rv(), b[1].rv()) - mr(a[1].rv(), b[0].rv()) }
pub open spec fn lleft(a: [F; 3], b: [F; 3]) -> [F; 3] { if cross(a@, b@) < 0real { a } else { b } }
pub open spec fn lright(a: [F; 3], b: [F; 3]) -> [F; 3] { if cross(a@, b@) < 0real { b } else { a } }
pub open spec fn fleft(f: Seq<[F; 3]>) -> [F; 3] { lleft(f[n0(f)], f[n1(f)]) }
pub open spec fn fright(f: Seq<[F; 3]>) -> [F; 3] { lright(f[n0(f)], f[n1(f)]) }
pub open spec fn face2(e: DynamicObject, g: DynamicObject) -> real { dd2(fleft(fp(e))@, fleft(fp(g))@) + dd2(fright(fp(e))@, fright(fp(g))@) }
pub open spec fn plane_ok(r: F, e: DynamicObject, g: DynamicObject) -> bool { r.ok() && r.rv() >= 0real && sq(r.rv()) == face2(e, g) / 2real }
//@fn utils/point.rs get_point_left_right(point1, point2) -> r {{optional}}
ensures fin2(point1@) && fin2(point2@) ==> *r.0 == lleft(*point1, *point2) && *r.1 == lright(*point1, *point2)
start lemma_mr();
//@end
pub proof fn lemma_half2() ensures forall|a: real| #[trigger] dblr(a) == a + a, forall|x: real| #[trigger] sq(x) == x * x && sq(x) >= 0real { assert forall|x: real| #[trigger] sq(x) == x * x && sq(x) >= 0real by { assert(x * x >= 0real) by (nonlinear_arith); } }
pub open spec fn dblr(a: real) -> real { a + a }
pub open spec fn finring(f: Seq<[F; 3]>) -> bool { f.len() == 4 && fin3(f[0]@) && fin3(f[1]@) && fin3(f[2]@) && fin3(f[3]@) }
pub proof fn lemma_finring(o: DynamicObject) requires is_ring(fp(o), o) ensures finring(fp(o))
{ let (s, f) = choose|s: int, f: bool| #[trigger] ring(fp(o), o, s, f); assert forall|k: int| 0 <= k < 4 implies is_corner((#[trigger] fp(o)[k])@, o, if f { rm4(s + k) } else { rm4(s - k) }) by { } }
//@extend PlaneDistanceMatching::calculate_matching_score
top hide(is_ring);
top hide(dd2);
assume fin_pose(*estimated_object) && fin_pose(*ground_truth_object)
ensures fin_pose(*estimated_object) && fin_pose(*ground_truth_object) ==> plane_ok(r, *estimated_object, *ground_truth_object)
closreq fin2($0@) && fin2($1@)
clos vret == ord_r(bev2($0@), bev2($1@))
start lemma_sqord(); lemma_half2();
start lemma_near();
aft assert(near(fp(*estimated_object), $0@[0], $0@[1]));
aft assert(near(fp(*ground_truth_object), $0@[0], $0@[1]));
aft if finring(fp(*estimated_object)) { assert(fin3($0@[0]@) && fin3($0@[1]@)); }
aft if finring(fp(*ground_truth_object)) { assert(fin3($0@[0]@) && fin3($0@[1]@)); }
start if is_ring(fp(*estimated_object), *estimated_object) { lemma_finring(*estimated_object); }
start if is_ring(fp(*ground_truth_object), *ground_truth_object) { lemma_finring(*ground_truth_object); }
//@end
//@nra lemma_zero_root(r, x)
requires r >= 0real, r * r == x, x == 0real
ensures r == 0real
//@end
//@nra lemma_eq_root(r, s)
requires r >= 0real, s >= 0real, r * r == s * s
ensures r == s
//@end
//@nra lemma_sq_flip(a, b)
requires a == a
ensures (a - b) * (a - b) == (b - a) * (b - a)
//@end
pub proof fn lemma_dd2(a: Seq<F>, b: Seq<F>) ensures dd2(a, b) == dd2(b, a), dd2(a, a) == 0real { lemma_sq_flip(a[0].rv(), b[0].rv()); lemma_sq_flip(a[1].rv(), b[1].rv()); }
/// C07: zero for an object compared with itself (or with one of the same pose and size), symmetric, non-negative.
pub proof fn theorem_plane_self(r: F, e: DynamicObject, g: DynamicObject) requires plane_ok(r, e, g), e.position@ == g.position@, e.orientation@ == g.orientation@, e.size@ == g.size@ ensures r.rv() == 0real
{ lemma_dd2(fleft(fp(e))@, fleft(fp(g))@); lemma_dd2(fright(fp(e))@, fright(fp(g))@); lemma_zero_root(r.rv(), face2(e, g) / 2real); }
pub proof fn theorem_plane_sym(r: F, s: F, e: DynamicObject, g: DynamicObject) requires plane_ok(r, e, g), plane_ok(s, g, e) ensures r.rv() == s.rv(), r.rv() >= 0real
{ lemma_dd2(fleft(fp(e))@, fleft(fp(g))@); lemma_dd2(fright(fp(e))@, fright(fp(g))@); lemma_eq_root(r.rv(), s.rv()); }
/// C07: a distance passes a threshold exactly if it is strictly smaller.
pub proof fn theorem_distance_passes(m: MatchingMode, s: F, t: F) requires m == MatchingMode::CenterDistance || m == MatchingMode::PlaneDistance, s.ok(), t.ok() ensures passes(m, s, t) == (s.rv() < t.rv()) { }
