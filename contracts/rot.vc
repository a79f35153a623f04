//@needs math token
//@type dataset/nuscenes/box.rs NuScenesBox
/// C12: the algebra of rotations and translations, over the contracts of utils/math.rs.
//@nra lemma_hq(a0, a1, a2, a3, n)
requires n == a0 * a0 + a1 * a1 + a2 * a2 + a3 * a3
requires n == 1real
ensures 2real * (a0 * a0 + a1 * a1) - 1real == a0 * a0 + a1 * a1 - a2 * a2 - a3 * a3
ensures 2real * (a0 * a0 + a2 * a2) - 1real == a0 * a0 + a2 * a2 - a1 * a1 - a3 * a3
ensures 2real * (a0 * a0 + a3 * a3) - 1real == a0 * a0 + a3 * a3 - a1 * a1 - a2 * a2
//@end
//@nra lemma_rm_norm(a0, a1, a2, a3, b0, b1, b2, b3, r0, r1, r2, r3, n, m)
requires r0 == a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3
requires r1 == a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2
requires r2 == a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1
requires r3 == a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0
requires n == a0 * a0 + a1 * a1 + a2 * a2 + a3 * a3
requires m == b0 * b0 + b1 * b1 + b2 * b2 + b3 * b3
ensures r0 * r0 + r1 * r1 + r2 * r2 + r3 * r3 == n * m
//@end
//@nra lemma_rm_dot(a0, a1, a2, a3, m00, m01, m02, m10, m11, m12, m20, m21, m22, p0, p1, p2, s0, s1, s2, r0, r1, r2, t0, t1, t2, n)
requires n == a0 * a0 + a1 * a1 + a2 * a2 + a3 * a3
requires m00 == a0 * a0 + a1 * a1 - a2 * a2 - a3 * a3
requires m01 == 2real * (a1 * a2 - a0 * a3)
requires m02 == 2real * (a1 * a3 + a0 * a2)
requires m10 == 2real * (a1 * a2 + a0 * a3)
requires m11 == a0 * a0 + a2 * a2 - a1 * a1 - a3 * a3
requires m12 == 2real * (a2 * a3 - a0 * a1)
requires m20 == 2real * (a1 * a3 - a0 * a2)
requires m21 == 2real * (a2 * a3 + a0 * a1)
requires m22 == a0 * a0 + a3 * a3 - a1 * a1 - a2 * a2
requires r0 == m00 * p0 + m01 * p1 + m02 * p2
requires r1 == m10 * p0 + m11 * p1 + m12 * p2
requires r2 == m20 * p0 + m21 * p1 + m22 * p2
requires t0 == m00 * s0 + m01 * s1 + m02 * s2
requires t1 == m10 * s0 + m11 * s1 + m12 * s2
requires t2 == m20 * s0 + m21 * s1 + m22 * s2
ensures r0 * t0 + r1 * t1 + r2 * t2 == n * n * (p0 * s0 + p1 * s1 + p2 * s2)
//@end
//@nra lemma_rm_back(a0, a1, a2, a3, c0, c1, c2, c3, m00, m01, m02, m10, m11, m12, m20, m21, m22, k00, k01, k02, k10, k11, k12, k20, k21, k22, p0, p1, p2, r0, r1, r2, t0, t1, t2, n)
requires n == a0 * a0 + a1 * a1 + a2 * a2 + a3 * a3
requires c0 == a0
requires c1 == -a1
requires c2 == -a2
requires c3 == -a3
requires m00 == a0 * a0 + a1 * a1 - a2 * a2 - a3 * a3
requires m01 == 2real * (a1 * a2 - a0 * a3)
requires m02 == 2real * (a1 * a3 + a0 * a2)
requires m10 == 2real * (a1 * a2 + a0 * a3)
requires m11 == a0 * a0 + a2 * a2 - a1 * a1 - a3 * a3
requires m12 == 2real * (a2 * a3 - a0 * a1)
requires m20 == 2real * (a1 * a3 - a0 * a2)
requires m21 == 2real * (a2 * a3 + a0 * a1)
requires m22 == a0 * a0 + a3 * a3 - a1 * a1 - a2 * a2
requires k00 == c0 * c0 + c1 * c1 - c2 * c2 - c3 * c3
requires k01 == 2real * (c1 * c2 - c0 * c3)
requires k02 == 2real * (c1 * c3 + c0 * c2)
requires k10 == 2real * (c1 * c2 + c0 * c3)
requires k11 == c0 * c0 + c2 * c2 - c1 * c1 - c3 * c3
requires k12 == 2real * (c2 * c3 - c0 * c1)
requires k20 == 2real * (c1 * c3 - c0 * c2)
requires k21 == 2real * (c2 * c3 + c0 * c1)
requires k22 == c0 * c0 + c3 * c3 - c1 * c1 - c2 * c2
requires r0 == m00 * p0 + m01 * p1 + m02 * p2
requires r1 == m10 * p0 + m11 * p1 + m12 * p2
requires r2 == m20 * p0 + m21 * p1 + m22 * p2
requires t0 == k00 * r0 + k01 * r1 + k02 * r2
requires t1 == k10 * r0 + k11 * r1 + k12 * r2
requires t2 == k20 * r0 + k21 * r1 + k22 * r2
ensures t0 == n * n * p0
ensures t1 == n * n * p1
ensures t2 == n * n * p2
//@end
//@nra lemma_rm_comp(a0, a1, a2, a3, b0, b1, b2, b3, q0, q1, q2, q3, k00, k01, k02, k10, k11, k12, k20, k21, k22, l00, l01, l02, l10, l11, l12, l20, l21, l22, m00, m01, m02, m10, m11, m12, m20, m21, m22, p0, p1, p2, s0, s1, s2, r0, r1, r2, t0, t1, t2)
requires q0 == a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3
requires q1 == a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2
requires q2 == a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1
requires q3 == a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0
requires k00 == b0 * b0 + b1 * b1 - b2 * b2 - b3 * b3
requires k01 == 2real * (b1 * b2 - b0 * b3)
requires k02 == 2real * (b1 * b3 + b0 * b2)
requires k10 == 2real * (b1 * b2 + b0 * b3)
requires k11 == b0 * b0 + b2 * b2 - b1 * b1 - b3 * b3
requires k12 == 2real * (b2 * b3 - b0 * b1)
requires k20 == 2real * (b1 * b3 - b0 * b2)
requires k21 == 2real * (b2 * b3 + b0 * b1)
requires k22 == b0 * b0 + b3 * b3 - b1 * b1 - b2 * b2
requires l00 == a0 * a0 + a1 * a1 - a2 * a2 - a3 * a3
requires l01 == 2real * (a1 * a2 - a0 * a3)
requires l02 == 2real * (a1 * a3 + a0 * a2)
requires l10 == 2real * (a1 * a2 + a0 * a3)
requires l11 == a0 * a0 + a2 * a2 - a1 * a1 - a3 * a3
requires l12 == 2real * (a2 * a3 - a0 * a1)
requires l20 == 2real * (a1 * a3 - a0 * a2)
requires l21 == 2real * (a2 * a3 + a0 * a1)
requires l22 == a0 * a0 + a3 * a3 - a1 * a1 - a2 * a2
requires m00 == q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3
requires m01 == 2real * (q1 * q2 - q0 * q3)
requires m02 == 2real * (q1 * q3 + q0 * q2)
requires m10 == 2real * (q1 * q2 + q0 * q3)
requires m11 == q0 * q0 + q2 * q2 - q1 * q1 - q3 * q3
requires m12 == 2real * (q2 * q3 - q0 * q1)
requires m20 == 2real * (q1 * q3 - q0 * q2)
requires m21 == 2real * (q2 * q3 + q0 * q1)
requires m22 == q0 * q0 + q3 * q3 - q1 * q1 - q2 * q2
requires s0 == k00 * p0 + k01 * p1 + k02 * p2
requires s1 == k10 * p0 + k11 * p1 + k12 * p2
requires s2 == k20 * p0 + k21 * p1 + k22 * p2
requires r0 == l00 * s0 + l01 * s1 + l02 * s2
requires r1 == l10 * s0 + l11 * s1 + l12 * s2
requires r2 == l20 * s0 + l21 * s1 + l22 * s2
requires t0 == m00 * p0 + m01 * p1 + m02 * p2
requires t1 == m10 * p0 + m11 * p1 + m12 * p2
requires t2 == m20 * p0 + m21 * p1 + m22 * p2
ensures r0 == t0
ensures r1 == t1
ensures r2 == t2
//@end
//@nra lemma_rm_qback(a0, a1, a2, a3, c0, c1, c2, c3, b0, b1, b2, b3, r0, r1, r2, r3, t0, t1, t2, t3, n)
requires n == a0 * a0 + a1 * a1 + a2 * a2 + a3 * a3
requires c0 == a0
requires c1 == -a1
requires c2 == -a2
requires c3 == -a3
requires r0 == a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3
requires r1 == a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2
requires r2 == a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1
requires r3 == a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0
requires t0 == c0 * r0 - c1 * r1 - c2 * r2 - c3 * r3
requires t1 == c0 * r1 + c1 * r0 + c2 * r3 - c3 * r2
requires t2 == c0 * r2 - c1 * r3 + c2 * r0 + c3 * r1
requires t3 == c0 * r3 + c1 * r2 - c2 * r1 + c3 * r0
ensures t0 == n * b0
ensures t1 == n * b1
ensures t2 == n * b2
ensures t3 == n * b3
//@end
//@nra lemma_rm_sand(a0, a1, a2, a3, c0, c1, c2, c3, v0, v1, v2, v3, u0, u1, u2, u3, w0, w1, w2, w3, m00, m01, m02, m10, m11, m12, m20, m21, m22, r0, r1, r2)
requires c0 == a0
requires c1 == -a1
requires c2 == -a2
requires c3 == -a3
requires v0 == 0real
requires u0 == a0 * v0 - a1 * v1 - a2 * v2 - a3 * v3
requires u1 == a0 * v1 + a1 * v0 + a2 * v3 - a3 * v2
requires u2 == a0 * v2 - a1 * v3 + a2 * v0 + a3 * v1
requires u3 == a0 * v3 + a1 * v2 - a2 * v1 + a3 * v0
requires w0 == u0 * c0 - u1 * c1 - u2 * c2 - u3 * c3
requires w1 == u0 * c1 + u1 * c0 + u2 * c3 - u3 * c2
requires w2 == u0 * c2 - u1 * c3 + u2 * c0 + u3 * c1
requires w3 == u0 * c3 + u1 * c2 - u2 * c1 + u3 * c0
requires m00 == a0 * a0 + a1 * a1 - a2 * a2 - a3 * a3
requires m01 == 2real * (a1 * a2 - a0 * a3)
requires m02 == 2real * (a1 * a3 + a0 * a2)
requires m10 == 2real * (a1 * a2 + a0 * a3)
requires m11 == a0 * a0 + a2 * a2 - a1 * a1 - a3 * a3
requires m12 == 2real * (a2 * a3 - a0 * a1)
requires m20 == 2real * (a1 * a3 - a0 * a2)
requires m21 == 2real * (a2 * a3 + a0 * a1)
requires m22 == a0 * a0 + a3 * a3 - a1 * a1 - a2 * a2
requires r0 == m00 * v1 + m01 * v2 + m02 * v3
requires r1 == m10 * v1 + m11 * v2 + m12 * v3
requires r2 == m20 * v1 + m21 * v2 + m22 * v3
ensures w0 == 0real
ensures w1 == r0
ensures w2 == r1
ensures w3 == r2
//@end
//@nra lemma_rm_orth(a0, a1, a2, a3, m00, m01, m02, m10, m11, m12, m20, m21, m22, n)
requires n == a0 * a0 + a1 * a1 + a2 * a2 + a3 * a3
requires m00 == a0 * a0 + a1 * a1 - a2 * a2 - a3 * a3
requires m01 == 2real * (a1 * a2 - a0 * a3)
requires m02 == 2real * (a1 * a3 + a0 * a2)
requires m10 == 2real * (a1 * a2 + a0 * a3)
requires m11 == a0 * a0 + a2 * a2 - a1 * a1 - a3 * a3
requires m12 == 2real * (a2 * a3 - a0 * a1)
requires m20 == 2real * (a1 * a3 - a0 * a2)
requires m21 == 2real * (a2 * a3 + a0 * a1)
requires m22 == a0 * a0 + a3 * a3 - a1 * a1 - a2 * a2
ensures m00 * m00 + m10 * m10 + m20 * m20 == n * n
ensures m00 * m01 + m10 * m11 + m20 * m21 == 0real
ensures m00 * m02 + m10 * m12 + m20 * m22 == 0real
ensures m01 * m01 + m11 * m11 + m21 * m21 == n * n
ensures m01 * m02 + m11 * m12 + m21 * m22 == 0real
ensures m02 * m02 + m12 * m12 + m22 * m22 == n * n
ensures m00 * (m11 * m22 - m12 * m21) - m01 * (m10 * m22 - m12 * m20) + m02 * (m10 * m21 - m11 * m20) == n * n * n
//@end
//@nra lemma_one(n, x)
requires n == 1real
ensures n * x == x
ensures n * n * x == x
ensures n * n * n * x == x
ensures n * n == 1real
ensures n * n * n == 1real
//@end
pub open spec fn hq(q: Seq<F>, i: int, j: int) -> real { let a = q[0].rv(); let b = q[1].rv(); let c = q[2].rv(); let d = q[3].rv();
  if i == 0 { if j == 0 { a * a + b * b - c * c - d * d } else if j == 1 { 2real * (b * c - a * d) } else { 2real * (b * d + a * c) } } else if i == 1 { if j == 0 { 2real * (b * c + a * d) } else if j == 1 { a * a + c * c - b * b - d * d } else { 2real * (c * d - a * b) } } else { if j == 0 { 2real * (b * d - a * c) } else if j == 1 { 2real * (c * d + a * b) } else { a * a + d * d - b * b - c * c } } }
pub proof fn lemma_rq(q: Seq<F>) requires unit(q) ensures rq(q, 0, 0) == hq(q, 0, 0), rq(q, 0, 1) == hq(q, 0, 1), rq(q, 0, 2) == hq(q, 0, 2), rq(q, 1, 0) == hq(q, 1, 0), rq(q, 1, 1) == hq(q, 1, 1), rq(q, 1, 2) == hq(q, 1, 2), rq(q, 2, 0) == hq(q, 2, 0), rq(q, 2, 1) == hq(q, 2, 1), rq(q, 2, 2) == hq(q, 2, 2)
{ lemma_hq(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv(), nq(q)); }
/// The composition of unit quaternions is one.
pub proof fn theorem_unit(a: Seq<F>, b: Seq<F>, r: Seq<F>) requires unit(a), unit(b), is_hm(r, a, b) ensures unit(r)
{ lemma_rm_norm(a[0].rv(), a[1].rv(), a[2].rv(), a[3].rv(), b[0].rv(), b[1].rv(), b[2].rv(), b[3].rv(), r[0].rv(), r[1].rv(), r[2].rv(), r[3].rv(), nq(a), nq(b)); lemma_one(nq(a), nq(b)); }
pub open spec fn dot3(a: Seq<F>, b: Seq<F>) -> real { a[0].rv() * b[0].rv() + a[1].rv() * b[1].rv() + a[2].rv() * b[2].rv() }
pub open spec fn same3(a: Seq<F>, b: Seq<F>) -> bool { a[0].rv() == b[0].rv() && a[1].rv() == b[1].rv() && a[2].rv() == b[2].rv() }
/// Rotating preserves dot products, and so lengths (p == s).
pub proof fn theorem_isometry(q: Seq<F>, p: Seq<F>, s: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(q), fin3(p), fin3(s), is_rp(r, q, p), is_rp(t, q, s) ensures dot3(r, t) == dot3(p, s)
{ lemma_rq(q); lemma_rm_dot(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv(), rq(q, 0, 0), rq(q, 0, 1), rq(q, 0, 2), rq(q, 1, 0), rq(q, 1, 1), rq(q, 1, 2), rq(q, 2, 0), rq(q, 2, 1), rq(q, 2, 2), p[0].rv(), p[1].rv(), p[2].rv(), s[0].rv(), s[1].rv(), s[2].rv(), r[0].rv(), r[1].rv(), r[2].rv(), t[0].rv(), t[1].rv(), t[2].rv(), nq(q)); lemma_one(nq(q), dot3(p, s)); }
pub proof fn theorem_back(q: Seq<F>, c: Seq<F>, p: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(q), conj(c, q), fin3(p), is_rp(r, q, p), is_rp(t, c, r) ensures same3(t, p)
{ lemma_conj(); lemma_rq(q); lemma_rq(c); lemma_rm_back(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv(), c[0].rv(), c[1].rv(), c[2].rv(), c[3].rv(), rq(q, 0, 0), rq(q, 0, 1), rq(q, 0, 2), rq(q, 1, 0), rq(q, 1, 1), rq(q, 1, 2), rq(q, 2, 0), rq(q, 2, 1), rq(q, 2, 2), rq(c, 0, 0), rq(c, 0, 1), rq(c, 0, 2), rq(c, 1, 0), rq(c, 1, 1), rq(c, 1, 2), rq(c, 2, 0), rq(c, 2, 1), rq(c, 2, 2), p[0].rv(), p[1].rv(), p[2].rv(), r[0].rv(), r[1].rv(), r[2].rv(), t[0].rv(), t[1].rv(), t[2].rv(), nq(q)); lemma_one(nq(q), p[0].rv()); lemma_one(nq(q), p[1].rv()); lemma_one(nq(q), p[2].rv()); }
/// Rotating back restores the point, in either order.
pub proof fn theorem_rotate_back(q: Seq<F>, p: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(q), fin3(p) ensures is_rp(r, q, p) && is_rp_conj(t, q, r) ==> same3(t, p), is_rp_conj(r, q, p) && is_rp(t, q, r) ==> same3(t, p)
{ lemma_conj();
  if is_rp(r, q, p) && is_rp_conj(t, q, r) { let c = choose|c: Seq<F>| #[trigger] conj(c, q) && is_rp(t, c, r); theorem_back(q, c, p, r, t); }
  if is_rp_conj(r, q, p) && is_rp(t, q, r) { let c = choose|c: Seq<F>| #[trigger] conj(c, q) && is_rp(r, c, p); assert(unit(c)); assert(conj(q, c)); theorem_back(c, q, p, r, t); } }
/// A point rotated by the composed orientation is the point rotated twice.
pub proof fn theorem_compose(a: Seq<F>, b: Seq<F>, q: Seq<F>, p: Seq<F>, s: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(a), unit(b), fin3(p), is_hm(q, a, b), is_rp(s, b, p), is_rp(r, a, s), is_rp(t, q, p) ensures unit(q), same3(r, t)
{ theorem_unit(a, b, q); lemma_rq(a); lemma_rq(b); lemma_rq(q); lemma_rm_comp(a[0].rv(), a[1].rv(), a[2].rv(), a[3].rv(), b[0].rv(), b[1].rv(), b[2].rv(), b[3].rv(), q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv(), rq(b, 0, 0), rq(b, 0, 1), rq(b, 0, 2), rq(b, 1, 0), rq(b, 1, 1), rq(b, 1, 2), rq(b, 2, 0), rq(b, 2, 1), rq(b, 2, 2), rq(a, 0, 0), rq(a, 0, 1), rq(a, 0, 2), rq(a, 1, 0), rq(a, 1, 1), rq(a, 1, 2), rq(a, 2, 0), rq(a, 2, 1), rq(a, 2, 2), rq(q, 0, 0), rq(q, 0, 1), rq(q, 0, 2), rq(q, 1, 0), rq(q, 1, 1), rq(q, 1, 2), rq(q, 2, 0), rq(q, 2, 1), rq(q, 2, 2), p[0].rv(), p[1].rv(), p[2].rv(), s[0].rv(), s[1].rv(), s[2].rv(), r[0].rv(), r[1].rv(), r[2].rv(), t[0].rv(), t[1].rv(), t[2].rv()); }
pub open spec fn same4(a: Seq<F>, b: Seq<F>) -> bool { a[0].rv() == b[0].rv() && a[1].rv() == b[1].rv() && a[2].rv() == b[2].rv() && a[3].rv() == b[3].rv() }
pub proof fn theorem_qback(a: Seq<F>, c: Seq<F>, b: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(a), conj(c, a), fin4(b), is_hm(r, a, b), is_hm(t, c, r) ensures same4(t, b)
{ lemma_rm_qback(a[0].rv(), a[1].rv(), a[2].rv(), a[3].rv(), c[0].rv(), c[1].rv(), c[2].rv(), c[3].rv(), b[0].rv(), b[1].rv(), b[2].rv(), b[3].rv(), r[0].rv(), r[1].rv(), r[2].rv(), r[3].rv(), t[0].rv(), t[1].rv(), t[2].rv(), t[3].rv(), nq(a)); lemma_one(nq(a), b[0].rv()); lemma_one(nq(a), b[1].rv()); lemma_one(nq(a), b[2].rv()); lemma_one(nq(a), b[3].rv()); }
/// Rotating an orientation back restores it, in either order.
pub proof fn theorem_rotate_q_back(a: Seq<F>, b: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(a), fin4(b) ensures is_hm(r, a, b) && is_hm_conj(t, a, r) ==> same4(t, b), is_hm_conj(r, a, b) && is_hm(t, a, r) ==> same4(t, b)
{ lemma_conj();
  if is_hm(r, a, b) && is_hm_conj(t, a, r) { let c = choose|c: Seq<F>| #[trigger] conj(c, a) && is_hm(t, c, r); theorem_qback(a, c, b, r, t); }
  if is_hm_conj(r, a, b) && is_hm(t, a, r) { let c = choose|c: Seq<F>| #[trigger] conj(c, a) && is_hm(r, c, b); assert(unit(c)); assert(conj(a, c)); theorem_qback(c, a, b, r, t); } }
/// Rotating applies the rotation the quaternion denotes: the vector part of q (0, p) q*.
pub proof fn theorem_sandwich(q: Seq<F>, c: Seq<F>, v: Seq<F>, u: Seq<F>, x: Seq<F>, p: Seq<F>, r: Seq<F>) requires unit(q), conj(c, q), fin3(p), fin4(v), v[0].rv() == 0real, v[1].rv() == p[0].rv(), v[2].rv() == p[1].rv(), v[3].rv() == p[2].rv(), is_hm(u, q, v), is_hm(x, u, c), is_rp(r, q, p)
  ensures x[0].rv() == 0real, x[1].rv() == r[0].rv(), x[2].rv() == r[1].rv(), x[3].rv() == r[2].rv()
{ lemma_rq(q); lemma_rm_sand(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv(), c[0].rv(), c[1].rv(), c[2].rv(), c[3].rv(), v[0].rv(), v[1].rv(), v[2].rv(), v[3].rv(), u[0].rv(), u[1].rv(), u[2].rv(), u[3].rv(), x[0].rv(), x[1].rv(), x[2].rv(), x[3].rv(), rq(q, 0, 0), rq(q, 0, 1), rq(q, 0, 2), rq(q, 1, 0), rq(q, 1, 1), rq(q, 1, 2), rq(q, 2, 0), rq(q, 2, 1), rq(q, 2, 2), r[0].rv(), r[1].rv(), r[2].rv()); }
pub open spec fn colp(m: Mat33, i: int, j: int) -> real { m.at(0, i).rv() * m.at(0, j).rv() + m.at(1, i).rv() * m.at(1, j).rv() + m.at(2, i).rv() * m.at(2, j).rv() }
pub open spec fn det3(m: Mat33) -> real { m.at(0, 0).rv() * (m.at(1, 1).rv() * m.at(2, 2).rv() - m.at(1, 2).rv() * m.at(2, 1).rv()) - m.at(0, 1).rv() * (m.at(1, 0).rv() * m.at(2, 2).rv() - m.at(1, 2).rv() * m.at(2, 0).rv()) + m.at(0, 2).rv() * (m.at(1, 0).rv() * m.at(2, 1).rv() - m.at(1, 1).rv() * m.at(2, 0).rv()) }
/// The matrix of a unit quaternion is a proper rotation: orthonormal columns and determinant 1.
pub proof fn theorem_proper(q: Seq<F>, m: Mat33) requires unit(q), rot_of(m, q) ensures colp(m, 0, 0) == 1real, colp(m, 0, 1) == 0real, colp(m, 0, 2) == 0real, colp(m, 1, 1) == 1real, colp(m, 1, 2) == 0real, colp(m, 2, 2) == 1real, det3(m) == 1real
{ lemma_rq(q); lemma_rm_orth(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv(), m.at(0, 0).rv(), m.at(0, 1).rv(), m.at(0, 2).rv(), m.at(1, 0).rv(), m.at(1, 1).rv(), m.at(1, 2).rv(), m.at(2, 0).rv(), m.at(2, 1).rv(), m.at(2, 2).rv(), nq(q)); lemma_one(nq(q), 1real); }
/// Translating back restores the point.
pub proof fn theorem_translate(a: Seq<F>, b: Seq<F>, r: Seq<F>, t: Seq<F>) requires fin3(a), fin3(b) ensures is_sum(r, a, b) && is_diff(t, r, b) ==> same3(t, a), is_diff(r, a, b) && is_sum(t, r, b) ==> same3(t, a)
{ }
//@fn dataset/nuscenes/box.rs NuScenesBox::translate(xyz)
ensures fin3(old(self).position@) && fin3(xyz@) ==> is_sum(final(self).position@, old(self).position@, xyz@)
ensures *final(self) == (NuScenesBox { position: final(self).position, ..*old(self) })
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::get_translate(xyz) -> r
ensures fin3(self.position@) && fin3(xyz@) ==> is_sum(r@, self.position@, xyz@)
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::translate_inv(xyz)
ensures fin3(old(self).position@) && fin3(xyz@) ==> is_diff(final(self).position@, old(self).position@, xyz@)
ensures *final(self) == (NuScenesBox { position: final(self).position, ..*old(self) })
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::get_translate_inv(xyz) -> r
ensures fin3(self.position@) && fin3(xyz@) ==> is_diff(r@, self.position@, xyz@)
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::rotate(orientation)
ensures fin3(old(self).position@) && unit(orientation@) ==> is_rp(final(self).position@, orientation@, old(self).position@)
ensures fin4(old(self).orientation@) && unit(orientation@) ==> is_hm(final(self).orientation@, orientation@, old(self).orientation@)
ensures *final(self) == (NuScenesBox { position: final(self).position, orientation: final(self).orientation, ..*old(self) })
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::rotate_inv(orientation)
ensures fin3(old(self).position@) && unit(orientation@) ==> is_rp_conj(final(self).position@, orientation@, old(self).position@)
ensures fin4(old(self).orientation@) && unit(orientation@) ==> is_hm_conj(final(self).orientation@, orientation@, old(self).orientation@)
ensures *final(self) == (NuScenesBox { position: final(self).position, orientation: final(self).orientation, ..*old(self) })
//@end
