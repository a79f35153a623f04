//@needs head mat
pub open spec fn mok3(m: Mat33) -> bool { m.at(0, 0).ok() && m.at(0, 1).ok() && m.at(0, 2).ok() && m.at(1, 0).ok() && m.at(1, 1).ok() && m.at(1, 2).ok() && m.at(2, 0).ok() && m.at(2, 1).ok() && m.at(2, 2).ok() }
/// `m` is the rotation matrix of `q`.
pub open spec fn rot_of(m: Mat33, q: Seq<F>) -> bool { mok3(m) && m.at(0, 0).rv() == rq(q, 0, 0) && m.at(0, 1).rv() == rq(q, 0, 1) && m.at(0, 2).rv() == rq(q, 0, 2) && m.at(1, 0).rv() == rq(q, 1, 0) && m.at(1, 1).rv() == rq(q, 1, 1) && m.at(1, 2).rv() == rq(q, 1, 2) && m.at(2, 0).rv() == rq(q, 2, 0) && m.at(2, 1).rv() == rq(q, 2, 1) && m.at(2, 2).rv() == rq(q, 2, 2) }
pub open spec fn unit(q: Seq<F>) -> bool { fin4(q) && nq(q) == 1real }
/// Coordinate `i` of the point `p` rotated by `q`.
pub open spec fn rp(q: Seq<F>, p: Seq<F>, i: int) -> real { rq(q, i, 0) * p[0].rv() + rq(q, i, 1) * p[1].rv() + rq(q, i, 2) * p[2].rv() }
pub open spec fn is_rp(r: Seq<F>, q: Seq<F>, p: Seq<F>) -> bool { fin3(r) && r[0].rv() == rp(q, p, 0) && r[1].rv() == rp(q, p, 1) && r[2].rv() == rp(q, p, 2) }
pub open spec fn conj(r: Seq<F>, q: Seq<F>) -> bool { fin4(r) && r[0].rv() == q[0].rv() && r[1].rv() == -q[1].rv() && r[2].rv() == -q[2].rv() && r[3].rv() == -q[3].rv() }
/// Component `i` of the product `a b` of quaternions.
pub open spec fn hm(a: Seq<F>, b: Seq<F>, i: int) -> real { let a0 = a[0].rv(); let a1 = a[1].rv(); let a2 = a[2].rv(); let a3 = a[3].rv(); let b0 = b[0].rv(); let b1 = b[1].rv(); let b2 = b[2].rv(); let b3 = b[3].rv();
  if i == 0 { a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3 } else if i == 1 { a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2 } else if i == 2 { a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1 } else { a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0 } }
pub open spec fn is_hm(r: Seq<F>, a: Seq<F>, b: Seq<F>) -> bool { fin4(r) && r[0].rv() == hm(a, b, 0) && r[1].rv() == hm(a, b, 1) && r[2].rv() == hm(a, b, 2) && r[3].rv() == hm(a, b, 3) }
pub proof fn lemma_conj() ensures forall|c: Seq<F>, q: Seq<F>| #[trigger] conj(c, q) && unit(q) ==> unit(c) { assert forall|c: Seq<F>, q: Seq<F>| #[trigger] conj(c, q) && unit(q) implies unit(c) by { let b = q[1].rv(); let x = q[2].rv(); let y = q[3].rv(); assert((-b) * (-b) == b * b && (-x) * (-x) == x * x && (-y) * (-y) == y * y) by (nonlinear_arith); } }
pub open spec fn is_hm_conj(r: Seq<F>, a: Seq<F>, b: Seq<F>) -> bool { exists|c: Seq<F>| #[trigger] conj(c, a) && is_hm(r, c, b) }
pub open spec fn is_rp_conj(r: Seq<F>, q: Seq<F>, p: Seq<F>) -> bool { exists|c: Seq<F>| #[trigger] conj(c, q) && is_rp(r, c, p) }
pub open spec fn is_sum(r: Seq<F>, a: Seq<F>, b: Seq<F>) -> bool { fin3(r) && r[0].rv() == a[0].rv() + b[0].rv() && r[1].rv() == a[1].rv() + b[1].rv() && r[2].rv() == a[2].rv() + b[2].rv() }
pub open spec fn is_diff(r: Seq<F>, a: Seq<F>, b: Seq<F>) -> bool { fin3(r) && r[0].rv() == a[0].rv() - b[0].rv() && r[1].rv() == a[1].rv() - b[1].rv() && r[2].rv() == a[2].rv() - b[2].rv() }
pub proof fn lemma_div1() ensures forall|a: F, n: F| a.ok() && n.ok() && n.rv() == 1real ==> (#[trigger] fdiv(a, n)).rv() == a.rv() { assert forall|a: F, n: F| a.ok() && n.ok() && n.rv() == 1real implies (#[trigger] fdiv(a, n)).rv() == a.rv() by { let x = a.rv(); let y = n.rv(); assert(x / y == x) by (nonlinear_arith) requires y == 1real; } }
//@fn utils/math.rs quaternion2rotation(q) -> r
ensures unit(q@) ==> rot_of(r, q@)
//@end
//@fn utils/math.rs inverse_quaternion(q) -> r
ensures unit(q@) ==> conj(r@, q@)
start lemma_div1();
//@end
//@fn utils/math.rs translate(xyz1, xyz2) -> r
ensures fin3(xyz1@) && fin3(xyz2@) ==> is_sum(r@, xyz1@, xyz2@)
//@end
//@fn utils/math.rs translate_inv(xyz1, xyz2) -> r
ensures fin3(xyz1@) && fin3(xyz2@) ==> is_diff(r@, xyz1@, xyz2@)
//@end
//@fn utils/math.rs rotate(xyz, q) -> r
ensures fin3(xyz@) && unit(q@) ==> is_rp(r@, q@, xyz@)
//@end
//@fn utils/math.rs rotate_inv(xyz, q) -> r
ensures fin3(xyz@) && unit(q@) ==> is_rp_conj(r@, q@, xyz@)
start lemma_conj();
//@end
//@fn utils/math.rs rotate_q(q1, q2) -> r
ensures fin4(q1@) && fin4(q2@) ==> is_hm(r@, q2@, q1@)
//@end
//@fn utils/math.rs rotate_q_inv(q1, q2) -> r
ensures fin4(q1@) && unit(q2@) ==> is_hm_conj(r@, q2@, q1@)
//@end
//@fn object/object3d.rs DynamicObject::rotation_matrix() -> r
ensures unit(self.orientation@) ==> rot_of(r, self.orientation@)
//@end
#[verifier::opaque] pub open spec fn mr(a: real, b: real) -> real { a * b }
pub proof fn lemma_mr() ensures forall|a: F, b: F| a.ok() && b.ok() ==> (#[trigger] fmul(a, b)).rv() == mr(a.rv(), b.rv()) && fmul(a, b).rv() == mr(b.rv(), a.rv()), forall|a: real, b: real| b == 0real || a == 0real ==> #[trigger] mr(a, b) == 0real { reveal(mr); assert forall|a: F, b: F| a.ok() && b.ok() implies (#[trigger] fmul(a, b)).rv() == mr(a.rv(), b.rv()) && fmul(a, b).rv() == mr(b.rv(), a.rv()) by { let x = a.rv(); let y = b.rv(); assert(x * y == y * x) by (nonlinear_arith); } 
  assert forall|a: real, b: real| b == 0real || a == 0real implies #[trigger] mr(a, b) == 0real by { assert(a * b == 0real) by (nonlinear_arith) requires b == 0real || a == 0real; } }
/// Corner `k` of the footprint: the centre plus the rotation of (plus or minus half length, plus or minus half width, 0).
pub open spec fn cx(o: DynamicObject, k: int) -> real { if k == 0 || k == 3 { o.size[1].rv() / 2real } else { -(o.size[1].rv() / 2real) } }
pub open spec fn cy2(o: DynamicObject, k: int) -> real { if k == 0 || k == 1 { o.size[0].rv() / 2real } else { -(o.size[0].rv() / 2real) } }
pub open spec fn corner(o: DynamicObject, k: int, i: int) -> real { o.position[i].rv() + (mr(rq(o.orientation@, i, 0), cx(o, k)) + mr(rq(o.orientation@, i, 1), cy2(o, k))) }
pub open spec fn is_corner(c: Seq<F>, o: DynamicObject, k: int) -> bool { fin3(c) && c[0].rv() == corner(o, k, 0) && c[1].rv() == corner(o, k, 1) && c[2].rv() == corner(o, k, 2) }
pub open spec fn rm4(k: int) -> int { if k < 0 { k + 4 } else if k >= 4 { k - 4 } else { k } }
/// The corners in ring order, from corner `s` on, forwards or backwards.
pub open spec fn ring(r: Seq<[F; 3]>, o: DynamicObject, s: int, f: bool) -> bool { r.len() == 4 && 0 <= s < 4 && forall|k: int| 0 <= k < 4 ==> is_corner((#[trigger] r[k])@, o, if f { rm4(s + k) } else { rm4(s - k) }) }
pub open spec fn is_ring(r: Seq<[F; 3]>, o: DynamicObject) -> bool { exists|s: int, f: bool| #[trigger] ring(r, o, s, f) }
pub open spec fn fin_pose(o: DynamicObject) -> bool { fin3(o.position@) && fin3(o.size@) && unit(o.orientation@) }
/// The footprint: what footprint() returns (a function of position, orientation and size).
pub uninterp spec fn fpp(p: Seq<F>, q: Seq<F>, s: Seq<F>) -> Seq<[F; 3]>;
pub open spec fn fp(o: DynamicObject) -> Seq<[F; 3]> { fpp(o.position@, o.orientation@, o.size@) }
//@fn object/object3d.rs DynamicObject::footprint() -> r
pure r@ == fp(*self)
ensures r@.len() == 4
ensures fin_pose(*self) ==> is_ring(r@, *self)
start lemma_mr();
finish if fin_pose(*self) { assert(ring(r@, *self, 0, true)); }
finish if fin_pose(*self) { assert(ring(r@, *self, 1, true)); }
finish if fin_pose(*self) { assert(ring(r@, *self, 2, true)); }
finish if fin_pose(*self) { assert(ring(r@, *self, 3, true)); }
finish if fin_pose(*self) { assert(ring(r@, *self, 0, false)); }
finish if fin_pose(*self) { assert(ring(r@, *self, 1, false)); }
finish if fin_pose(*self) { assert(ring(r@, *self, 2, false)); }
finish if fin_pose(*self) { assert(ring(r@, *self, 3, false)); }
//@end
pub proof fn lemma_comm() ensures forall|a: F, b: F| a.ok() && b.ok() ==> (#[trigger] fmul(a, b)).rv() == a.rv() * b.rv() && fmul(a, b).rv() == b.rv() * a.rv() { assert forall|a: F, b: F| a.ok() && b.ok() implies (#[trigger] fmul(a, b)).rv() == a.rv() * b.rv() && fmul(a, b).rv() == b.rv() * a.rv() by { let x = a.rv(); let y = b.rv(); assert(x * y == y * x) by (nonlinear_arith); } }
//@fn object/object3d.rs DynamicObject::area() -> r
ensures fin3(self.size@) ==> r.ok() && r.rv() == self.size[1].rv() * self.size[0].rv()
start lemma_comm();
//@end
//@fn object/object3d.rs DynamicObject::volume() -> r
ensures fin3(self.size@) ==> r.ok() && r.rv() == self.size[1].rv() * self.size[0].rv() * self.size[2].rv()
start lemma_comm();
//@end
