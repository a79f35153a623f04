//@needs dist
pub open spec fn fin4(q: Seq<F>) -> bool { q.len() == 4 && q[0].ok() && q[1].ok() && q[2].ok() && q[3].ok() }
pub open spec fn ur(a: F) -> real { a.rv() }
pub open spec fn nq(q: Seq<F>) -> real { q[0].rv() * q[0].rv() + q[1].rv() * q[1].rv() + q[2].rv() * q[2].rv() + q[3].rv() * q[3].rv() }
/// sine of the pitch
pub open spec fn sp(q: Seq<F>) -> real { 2real * (q[0].rv() * q[2].rv() - q[1].rv() * q[3].rv()) }
/// cos(pitch) times sine and cosine of roll and yaw
pub open spec fn sr(q: Seq<F>) -> real { 2real * (q[0].rv() * q[1].rv() + q[2].rv() * q[3].rv()) }
pub open spec fn cr(q: Seq<F>) -> real { 1real - 2real * (q[1].rv() * q[1].rv() + q[2].rv() * q[2].rv()) }
pub open spec fn sy(q: Seq<F>) -> real { 2real * (q[0].rv() * q[3].rv() + q[1].rv() * q[2].rv()) }
pub open spec fn cy(q: Seq<F>) -> real { 1real - 2real * (q[2].rv() * q[2].rv() + q[3].rv() * q[3].rv()) }
pub open spec fn inpi(a: F) -> bool { a.ok() && -r_pi() <= a.rv() <= r_pi() }
/// The angle (the F `a`) has sine y / c and cosine x / c.
pub open spec fn ang(a: F, y: real, x: real, c: real) -> bool { c * r_sin(a.rv()) == y && c * r_cos(a.rv()) == x }
/// The angles (roll, pitch, yaw) are those of the unit quaternion.
pub open spec fn euler_of(q: Seq<F>, e: Seq<F>) -> bool { e.len() == 3 && r_sin(e[1].rv()) == sp(q) && r_cos(e[1].rv()) > 0real && -r_pi() <= 2real * e[1].rv() <= r_pi() && ang(e[0], sr(q), cr(q), r_cos(e[1].rv())) && ang(e[2], sy(q), cy(q), r_cos(e[1].rv())) }
//@nra lemma_poly_euler(a, b, c, d, s, t, x, u, y)
requires a * a + b * b + c * c + d * d == 1real, s == 2real * (a * c - b * d), t == 2real * (a * b + c * d), x == 1real - 2real * (b * b + c * c), u == 2real * (a * d + b * c), y == 1real - 2real * (c * c + d * d)
ensures s * s + t * t + x * x == 1real, s * s + u * u + y * y == 1real
//@end
//@nra lemma_same_root(k, l, s, t, x)
requires k > 0real, l > 0real, k * k == t * t + x * x, s * s + t * t + x * x == 1real, l * l == 1real - s * s || s * s + l * l == 1real
ensures k == l
//@end
//@nra lemma_nz(s, t, x)
requires s * s + t * t + x * x == 1real, -1real < s < 1real
ensures t != 0real || x != 0real
//@end
//@nra lemma_frac(s)
requires -1real < s < 1real
ensures (1real + s) / (1real - s) > 0real
//@end
//@nra lemma_half(u, s, sn, cs)
requires -1real < s < 1real, u >= 0real, u * u == (1real + s) / (1real - s), cs > 0real, sn == u * cs, sn * sn + cs * cs == 1real
ensures sn * sn - cs * cs == s, 2real * (sn * cs) > 0real, s * s + (2real * (sn * cs)) * (2real * (sn * cs)) == 1real, u > 0real
//@end
/// The common cosine of the pitch.
pub open spec fn kp(q: Seq<F>) -> real { r_hyp(sr(q), cr(q)) }
pub open spec fn nondeg(q: Seq<F>) -> bool { fin4(q) && nq(q) == 1real && -1real < sp(q) < 1real }
pub proof fn lemma_euler(q: Seq<F>) requires nondeg(q)
  ensures kp(q) > 0real, (1real + sp(q)) / (1real - sp(q)) >= 0real,
    forall|a: F, b: F| (#[trigger] s_atan2(a, b)) == s_atan2(a, b) && a.ok() && b.ok() && a.rv() == sr(q) && b.rv() == cr(q) ==> inpi(s_atan2(a, b)) && ang(s_atan2(a, b), sr(q), cr(q), kp(q)),
    forall|a: F, b: F| (#[trigger] s_atan2(a, b)) == s_atan2(a, b) && a.ok() && b.ok() && a.rv() == sy(q) && b.rv() == cy(q) ==> inpi(s_atan2(a, b)) && ang(s_atan2(a, b), sy(q), cy(q), kp(q)),
    forall|u: F| (#[trigger] s_atan(u)) == s_atan(u) && u.ok() && u.rv() >= 0real && u.rv() * u.rv() == (1real + sp(q)) / (1real - sp(q)) ==> s_atan(u).ok() && pitch_is(q, 2real * s_atan(u).rv() - r_pi() / 2real),
    forall|u: F| (#[trigger] s_asin(u)) == s_asin(u) && u.ok() && u.rv() == sp(q) ==> s_asin(u).ok() && pitch_is(q, s_asin(u).rv()),
    3real < r_pi() < 4real
{ let s = sp(q); let k = kp(q); let pi = r_pi(); ax_pi(); lemma_frac(s);
  lemma_poly_euler(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv(), s, sr(q), cr(q), sy(q), cy(q)); lemma_nz(s, sr(q), cr(q)); lemma_nz(s, sy(q), cy(q));
  ax_hyp(sr(q), cr(q)); ax_hyp(sy(q), cy(q)); let ky = r_hyp(sy(q), cy(q));
  lemma_same_root(k, ky, s, sr(q), cr(q));
  assert forall|a: F, b: F| (#[trigger] s_atan2(a, b)) == s_atan2(a, b) && a.ok() && b.ok() && a.rv() == sr(q) && b.rv() == cr(q) implies inpi(s_atan2(a, b)) && ang(s_atan2(a, b), sr(q), cr(q), kp(q)) by { ax_atan2(a, b); }
  assert forall|a: F, b: F| (#[trigger] s_atan2(a, b)) == s_atan2(a, b) && a.ok() && b.ok() && a.rv() == sy(q) && b.rv() == cy(q) implies inpi(s_atan2(a, b)) && ang(s_atan2(a, b), sy(q), cy(q), kp(q)) by { ax_atan2(a, b); }
  assert forall|u: F| (#[trigger] s_atan(u)) == s_atan(u) && u.ok() && u.rv() >= 0real && u.rv() * u.rv() == (1real + sp(q)) / (1real - sp(q)) implies s_atan(u).ok() && pitch_is(q, 2real * s_atan(u).rv() - r_pi() / 2real) by {
    ax_atan(u); let t = s_atan(u).rv(); let h = pi / 2real; ax_pyth(t); lemma_half(u.rv(), s, r_sin(t), r_cos(t)); ax_trig_half(h); ax_trig_neg(h); ax_trig_add(t, t); assert(t + t == 2real * t); ax_trig_add(2real * t, -h);
    assert(2real * t - h == 2real * t + (-h)); let s2 = r_sin(2real * t); let c2 = r_cos(2real * t); assert(s2 == 2real * (r_sin(t) * r_cos(t))); assert(c2 == r_cos(t) * r_cos(t) - r_sin(t) * r_sin(t)); assert(r_sin(-h) == -1real); assert(r_cos(-h) == 0real); lemma_m10(s2, c2, r_sin(-h), r_cos(-h)); assert(s2 * s2 + s * s == 1real); 
    assert(r_sin(2real * t - h) == -c2); assert(r_cos(2real * t - h) == s2); lemma_same_root(k, s2, s, sr(q), cr(q)); }
  assert forall|u: F| (#[trigger] s_asin(u)) == s_asin(u) && u.ok() && u.rv() == sp(q) implies s_asin(u).ok() && pitch_is(q, s_asin(u).rv()) by { ax_asin(u); let t = s_asin(u).rv(); ax_pyth(t); lemma_pos(r_sin(t), r_cos(t)); lemma_same_root(k, r_cos(t), s, sr(q), cr(q)); } }
//@nra lemma_m10(s2, c2, a, b)
requires a == -1real, b == 0real
ensures s2 * b + c2 * a == -c2, c2 * b - s2 * a == s2
//@end
//@nra lemma_pos(s, c)
requires s * s + c * c == 1real, -1real < s < 1real, c >= 0real
ensures c > 0real, s * s + c * c == 1real
//@end
pub open spec fn pitch_is(q: Seq<F>, p: real) -> bool { r_sin(p) == sp(q) && r_cos(p) == kp(q) && -r_pi() <= 2real * p <= r_pi() }
pub proof fn lemma_range() ensures 3real < r_pi() < 4real, forall|a: F, b: F| (#[trigger] s_atan2(a, b)) == s_atan2(a, b) && a.ok() && b.ok() ==> inpi(s_atan2(a, b))
{ ax_pi(); assert forall|a: F, b: F| (#[trigger] s_atan2(a, b)) == s_atan2(a, b) && a.ok() && b.ok() implies inpi(s_atan2(a, b)) by { ax_atan2_range(a, b); } }
//@fn utils/math.rs quaternion2euler(q) -> r
ensures fin4(q@) ==> inpi(r@[0]) && inpi(r@[2])
ensures nondeg(q@) ==> r@[1].ok() && euler_of(q@, r@)
start lemma_range(); if nondeg(q@) { lemma_euler(q@); }
//@end
/// The heading of an object: what heading() returns (a function of the object).
pub uninterp spec fn hd(o: DynamicObject) -> F;
//@fn object/object3d.rs DynamicObject::heading() -> r
pure r == hd(*self)
ensures fin4(self.orientation@) ==> inpi(r)
ensures nondeg(self.orientation@) ==> exists|c: real| c > 0real && #[trigger] ang(r, sy(self.orientation@), cy(self.orientation@), c)
start lemma_range();
//@end
//@fn object/object3d.rs DynamicObject::euler() -> r
ensures fin4(self.orientation@) ==> inpi(r@[0]) && inpi(r@[2])
ensures nondeg(self.orientation@) ==> r@[1].ok() && euler_of(self.orientation@, r@)
//@end
/// The rotation with these sines and cosines of (roll, pitch, yaw), applied roll first, has the entries of the quaternion's rotation matrix.
//@nra lemma_rot_outer(a, b, c, d, s, k, p, x, u, y)
requires a * a + b * b + c * c + d * d == 1real, s == 2real * (a * c - b * d), k > 0real, s * s + k * k == 1real, k * p == 2real * (a * b + c * d), k * x == 1real - 2real * (b * b + c * c), k * u == 2real * (a * d + b * c), k * y == 1real - 2real * (c * c + d * d)
ensures y * k == 2real * (a * a + b * b) - 1real, u * k == 2real * (b * c + a * d), -s == 2real * (b * d - a * c), k * p == 2real * (c * d + a * b), k * x == 2real * (a * a + d * d) - 1real
//@end
//@nra lemma_rot_cancel(k, v, w)
requires k > 0real, k * k * v == k * k * w
ensures v == w
//@end
//@nra lemma_rot_poly(a, b, c, d, n, s, P, X, U, Y)
requires n == a * a + b * b + c * c + d * d, s == 2real * (a * c - b * d), P == 2real * (a * b + c * d), X == a * a - b * b - c * c + d * d, U == 2real * (a * d + b * c), Y == a * a + b * b - c * c - d * d
ensures Y * s * P - n * U * X == (n * n - s * s) * (2real * (b * c - a * d)), Y * s * X + n * U * P == (n * n - s * s) * (2real * (b * d + a * c)), U * s * P + n * Y * X == (n * n - s * s) * (a * a + c * c - b * b - d * d), U * s * X - n * Y * P == (n * n - s * s) * (2real * (c * d - a * b))
//@end
//@nra lemma_rot_k(n, s, k, p, x, u, y, P, X, U, Y, A, B, C, D)
requires n == 1real, k > 0real, s * s + k * k == 1real, k * p == P, k * x == X, k * u == U, k * y == Y
requires Y * s * P - n * U * X == (n * n - s * s) * A, Y * s * X + n * U * P == (n * n - s * s) * B, U * s * P + n * Y * X == (n * n - s * s) * C, U * s * X - n * Y * P == (n * n - s * s) * D
ensures y * s * p - u * x == A, y * s * x + u * p == B, u * s * p + y * x == C, u * s * x - y * p == D
//@end
/// Entry (i, j) of the rotation matrix of a unit quaternion.
pub open spec fn rq(q: Seq<F>, i: int, j: int) -> real { let a = q[0].rv(); let b = q[1].rv(); let c = q[2].rv(); let d = q[3].rv();
  if i == 0 { if j == 0 { 2real * (a * a + b * b) - 1real } else if j == 1 { 2real * (b * c - a * d) } else { 2real * (b * d + a * c) } }
  else if i == 1 { if j == 0 { 2real * (b * c + a * d) } else if j == 1 { 2real * (a * a + c * c) - 1real } else { 2real * (c * d - a * b) } }
  else { if j == 0 { 2real * (b * d - a * c) } else if j == 1 { 2real * (c * d + a * b) } else { 2real * (a * a + d * d) - 1real } } }
/// Entry (i, j) of Rz(yaw) Ry(pitch) Rx(roll), from the sines and cosines.
pub open spec fn rzyx(p: real, x: real, s: real, k: real, u: real, y: real, i: int, j: int) -> real {
  if i == 0 { if j == 0 { y * k } else if j == 1 { y * s * p - u * x } else { y * s * x + u * p } }
  else if i == 1 { if j == 0 { u * k } else if j == 1 { u * s * p + y * x } else { u * s * x - y * p } }
  else { if j == 0 { -s } else if j == 1 { k * p } else { k * x } } }
pub open spec fn re(e: Seq<F>, i: int, j: int) -> real { rzyx(r_sin(e[0].rv()), r_cos(e[0].rv()), r_sin(e[1].rv()), r_cos(e[1].rv()), r_sin(e[2].rv()), r_cos(e[2].rv()), i, j) }
/// C23: the angles that quaternion2euler returns denote the rotation of the quaternion.
pub proof fn theorem_same_rotation(q: Seq<F>, e: Seq<F>) requires nondeg(q), euler_of(q, e) ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] re(e, i, j) == rq(q, i, j)
{ let a = q[0].rv(); let b = q[1].rv(); let c = q[2].rv(); let d = q[3].rv(); let p = r_sin(e[0].rv()); let x = r_cos(e[0].rv()); let s = r_sin(e[1].rv()); let k = r_cos(e[1].rv()); let u = r_sin(e[2].rv()); let y = r_cos(e[2].rv());
  ax_pyth(e[1].rv()); lemma_rot_outer(a, b, c, d, s, k, p, x, u, y); let P = sr(q); let X = cr(q); let U = sy(q); let Y = cy(q); let n = nq(q);
  lemma_rot_poly(a, b, c, d, n, s, P, X, U, Y);
  lemma_rot_k(n, s, k, p, x, u, y, P, X, U, Y, 2real * (b * c - a * d), 2real * (b * d + a * c), a * a + c * c - b * b - d * d, 2real * (c * d - a * b)); 
  assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] re(e, i, j) == rq(q, i, j) by { } }
/// C23: a rotation about the vertical axis by an angle in (-pi, pi] has that angle as heading (-pi and pi denote the same direction).
pub proof fn theorem_heading(q: Seq<F>, h: real, t: real, r: F, c: real) requires fin4(q), 2real * h == t, -r_pi() < t <= r_pi(), q[0].rv() == r_cos(h), q[1].rv() == 0real, q[2].rv() == 0real, q[3].rv() == r_sin(h), inpi(r), c > 0real, ang(r, sy(q), cy(q), c)
  ensures nondeg(q), r.rv() == t || (t == r_pi() && r.rv() == -r_pi())
{ ax_pyth(h); ax_trig_add(h, h); assert(h + h == t); ax_pyth(t); ax_pyth(r.rv()); lemma_head(r_cos(h), r_sin(h), c, r_sin(r.rv()), r_cos(r.rv()), r_sin(t), r_cos(t), q[1].rv(), q[2].rv()); ax_trig_inj(r.rv(), t); }
//@nra lemma_head(a, d, c, sn, cs, st, ct, z, w)
requires z == 0real, w == 0real, d * d + a * a == 1real, sn * sn + cs * cs == 1real, st == d * a + a * d, ct == a * a - d * d, st * st + ct * ct == 1real, c > 0real
ensures a * a + z * z + w * w + d * d == 1real, 2real * (a * w - z * d) == 0real
ensures c * sn == 2real * (a * d + z * w) && c * cs == 1real - 2real * (w * w + d * d) ==> sn == st && cs == ct
//@end
