//@needs math
/// C13: consequences of the contract of footprint().
pub proof fn lemma_mrn(a: real, b: real) ensures mr(a, -b) == -mr(a, b), mr(a, b) == a * b { reveal(mr); assert(a * (-b) == -(a * b)) by (nonlinear_arith); }
/// Opposite corners are symmetric about the centre.
pub proof fn lemma_opp(o: DynamicObject, k: int, i: int) requires 0 <= k < 4 ensures corner(o, k, i) + corner(o, rm4(k + 2), i) == 2real * o.position[i].rv()
{ let a = rq(o.orientation@, i, 0); let b = rq(o.orientation@, i, 1); lemma_mrn(a, o.size[1].rv() / 2real); lemma_mrn(b, o.size[0].rv() / 2real); }
pub proof fn theorem_opposite(r: Seq<[F; 3]>, o: DynamicObject, k: int, i: int) requires is_ring(r, o), 0 <= k < 2, 0 <= i < 3 ensures r[k][i].rv() + r[k + 2][i].rv() == 2real * o.position[i].rv()
{ let (s, f) = choose|s: int, f: bool| #[trigger] ring(r, o, s, f); assert(is_corner(r[k]@, o, if f { rm4(s + k) } else { rm4(s - k) })); assert(is_corner(r[k + 2]@, o, if f { rm4(s + (k + 2)) } else { rm4(s - (k + 2)) }));
  let j = if f { rm4(s + k) } else { rm4(s - k) }; lemma_opp(o, j, i); assert(rm4(j + 2) == if f { rm4(s + (k + 2)) } else { rm4(s - (k + 2)) }); assert(r[k]@[i] == r[k][i]); assert(r[k + 2]@[i] == r[k + 2][i]); }
pub open spec fn vertical(q: Seq<F>) -> bool { unit(q) && q[1].rv() == 0real && q[2].rv() == 0real }
//@nra lemma_vert(a, b, c, d)
requires a * a + b * b + c * c + d * d == 1real, b == 0real, c == 0real
ensures 2real * (b * d - a * c) == 0real, 2real * (c * d + a * b) == 0real, 2real * (a * a + b * b) - 1real == 1real - 2real * (c * c + d * d), 2real * (b * c - a * d) == -(2real * (a * d + b * c)), 2real * (b * c + a * d) == 2real * (a * d + b * c), 2real * (a * a + c * c) - 1real == 1real - 2real * (c * c + d * d)
ensures (2real * (a * d + b * c)) * (2real * (a * d + b * c)) + (1real - 2real * (c * c + d * d)) * (1real - 2real * (c * c + d * d)) == 1real
//@end
//@nra lemma_cone(c, s, k, y, x)
requires c > 0real, s * s + k * k == 1real, c * s == y, c * k == x, y * y + x * x == 1real
ensures c == 1real, s == y, k == x
//@end
//@nra lemma_dbl(a, h, l)
requires h == l / 2real
ensures a * h - a * (-h) == a * l, a * (-h) - a * h == -(a * l)
//@end
/// An object rotated about the vertical axis: all corners at its height.
pub proof fn theorem_level(r: Seq<[F; 3]>, o: DynamicObject, k: int) requires is_ring(r, o), vertical(o.orientation@), 0 <= k < 4 ensures r[k][2].rv() == o.position[2].rv()
{ let q = o.orientation@; let (s, f) = choose|s: int, f: bool| #[trigger] ring(r, o, s, f); assert(is_corner(r[k]@, o, if f { rm4(s + k) } else { rm4(s - k) })); let j = if f { rm4(s + k) } else { rm4(s - k) };
  lemma_vert(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv()); lemma_mr(); assert(mr(rq(q, 2, 0), cx(o, j)) == 0real); assert(mr(rq(q, 2, 1), cy2(o, j)) == 0real); assert(r[k]@[2] == r[k][2]); }
/// ... and they span a length by width rectangle aligned with the heading h: the long edges are length times (cos h, sin h), the short ones width times (-sin h, cos h).
pub proof fn theorem_rectangle(o: DynamicObject, h: F, c: real) requires vertical(o.orientation@), c > 0real, ang(h, sy(o.orientation@), cy(o.orientation@), c)
  ensures corner(o, 0, 0) - corner(o, 1, 0) == r_cos(h.rv()) * o.size[1].rv(), corner(o, 0, 1) - corner(o, 1, 1) == r_sin(h.rv()) * o.size[1].rv(),
    corner(o, 1, 0) - corner(o, 2, 0) == -(r_sin(h.rv()) * o.size[0].rv()), corner(o, 1, 1) - corner(o, 2, 1) == r_cos(h.rv()) * o.size[0].rv(),
    r_cos(h.rv()) * r_cos(h.rv()) + r_sin(h.rv()) * r_sin(h.rv()) == 1real
{ let q = o.orientation@; lemma_vert(q[0].rv(), q[1].rv(), q[2].rv(), q[3].rv()); ax_pyth(h.rv()); let s = r_sin(h.rv()); let k = r_cos(h.rv()); lemma_cone(c, s, k, sy(q), cy(q));
  let l = o.size[1].rv(); let w = o.size[0].rv(); let a = l / 2real; let b = w / 2real;
  assert(rq(q, 0, 0) == k && rq(q, 0, 1) == -s && rq(q, 1, 0) == s && rq(q, 1, 1) == k);
  lemma_mrn(k, a); lemma_mrn(s, a); lemma_mrn(k, b); lemma_mrn(-s, b); lemma_mrn(k, -a); lemma_mrn(s, -a); lemma_mrn(k, -b); lemma_mrn(-s, -b); 
  lemma_dbl(k, a, l); lemma_dbl(s, a, l); lemma_dbl(k, b, w); lemma_dbl(-s, b, w); assert((-s) * w == -(s * w)) by (nonlinear_arith); }
