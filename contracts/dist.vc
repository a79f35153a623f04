//@needs core
pub open spec fn sq(a: real) -> real { a * a }
pub open spec fn fin3(p: Seq<F>) -> bool { p[0].ok() && p[1].ok() && p[2].ok() }
/// Squared distance of two positions.
pub open spec fn dd(a: Seq<F>, b: Seq<F>) -> real { sq(a[0].rv() - b[0].rv()) + sq(a[1].rv() - b[1].rv()) + sq(a[2].rv() - b[2].rv()) }
pub open spec fn d2(a: DynamicObject, b: DynamicObject) -> real { dd(a.position@, b.position@) }
pub open spec fn score_ok(s: F, a: DynamicObject, b: DynamicObject) -> bool { s.ok() && s.rv() >= 0real && sq(s.rv()) == d2(a, b) }
pub proof fn lemma_d2(a: Seq<F>, b: Seq<F>) ensures dd(a, b) >= 0real, forall|x: real| #[trigger] sq(x) == x * x && sq(x) >= 0real
{ assert forall|x: real| #[trigger] sq(x) == x * x && sq(x) >= 0real by { assert(x * x >= 0real) by (nonlinear_arith); } 
  assert(sq(a[0].rv() - b[0].rv()) >= 0real); assert(sq(a[1].rv() - b[1].rv()) >= 0real); assert(sq(a[2].rv() - b[2].rv()) >= 0real); }
/// Squared distance of two positions seen from above.
pub open spec fn dd2(a: Seq<F>, b: Seq<F>) -> real { sq(a[0].rv() - b[0].rv()) + sq(a[1].rv() - b[1].rv()) }
pub open spec fn fin2(p: Seq<F>) -> bool { p[0].ok() && p[1].ok() }
pub open spec fn dist_ok(r: F, a: Seq<F>, b: Seq<F>) -> bool { fin3(a) && fin3(b) ==> r.ok() && r.rv() >= 0real && sq(r.rv()) == dd(a, b) }
pub open spec fn dist2_ok(r: F, a: Seq<F>, b: Seq<F>) -> bool { fin2(a) && fin2(b) ==> r.ok() && r.rv() >= 0real && sq(r.rv()) == dd2(a, b) }
//@fn utils/point.rs distance_points(point1, point2) -> r {{optional}}
ensures dist_ok(r, point1@, point2@)
start lemma_d2(point1@, point2@);
//@end
//@fn utils/point.rs distance_points_bev(point1, point2) -> r {{optional}}
ensures dist2_ok(r, point1@, point2@)
start lemma_d2(point1@, point2@);
//@end
//@fn object/object3d.rs DynamicObject::distance() -> r
ensures fin3(self.position@) ==> r.ok() && r.rv() >= 0real && sq(r.rv()) == sq(self.position@[0].rv()) + sq(self.position@[1].rv()) + sq(self.position@[2].rv())
start lemma_d2(self.position@, self.position@);
//@end
//@fn object/object3d.rs DynamicObject::distance_bev() -> r
ensures fin2(self.position@) ==> r.ok() && r.rv() >= 0real && sq(r.rv()) == sq(self.position@[0].rv()) + sq(self.position@[1].rv())
start lemma_d2(self.position@, self.position@);
//@end
//@fn object/object3d.rs DynamicObject::distance_from(point) -> r
ensures dist_ok(r, self.position@, point@)
start lemma_d2(self.position@, point@);
//@end
//@fn object/object3d.rs DynamicObject::distance_bev_from(point) -> r
ensures dist2_ok(r, self.position@, point@)
start lemma_d2(self.position@, point@);
//@end
/// The distance is symmetric, and zero exactly between equal positions.
pub proof fn lemma_dist_metric(a: Seq<F>, b: Seq<F>, r: F, s: F) requires fin3(a), fin3(b), dist_ok(r, a, b), dist_ok(s, b, a)
  ensures r.rv() == s.rv(), r.rv() == 0real <==> a[0].rv() == b[0].rv() && a[1].rv() == b[1].rv() && a[2].rv() == b[2].rv()
{ let x = a[0].rv() - b[0].rv(); let y = a[1].rv() - b[1].rv(); let z = a[2].rv() - b[2].rv();
  assert((b[0].rv() - a[0].rv()) * (b[0].rv() - a[0].rv()) == x * x) by (nonlinear_arith) requires x == a[0].rv() - b[0].rv();
  assert((b[1].rv() - a[1].rv()) * (b[1].rv() - a[1].rv()) == y * y) by (nonlinear_arith) requires y == a[1].rv() - b[1].rv();
  assert((b[2].rv() - a[2].rv()) * (b[2].rv() - a[2].rv()) == z * z) by (nonlinear_arith) requires z == a[2].rv() - b[2].rv();
  let p = r.rv(); let q = s.rv();
  assert(p == q) by (nonlinear_arith) requires p >= 0real, q >= 0real, p * p == q * q;
  assert(p == 0real <==> (x == 0real && y == 0real && z == 0real)) by (nonlinear_arith) requires p >= 0real, p * p == x * x + y * y + z * z; }
