#!/usr/bin/env python3
"""Writes contracts/rot.vc: the algebra of rotations (C12) as lemmas over the contracts of utils/math.rs."""
import os
out = []
w = out.append
H = [["{0} * {0} + {1} * {1} - {2} * {2} - {3} * {3}", "2real * ({1} * {2} - {0} * {3})", "2real * ({1} * {3} + {0} * {2})"],
     ["2real * ({1} * {2} + {0} * {3})", "{0} * {0} + {2} * {2} - {1} * {1} - {3} * {3}", "2real * ({2} * {3} - {0} * {1})"],
     ["2real * ({1} * {3} - {0} * {2})", "2real * ({2} * {3} + {0} * {1})", "{0} * {0} + {3} * {3} - {1} * {1} - {2} * {2}"]]
V = lambda x, n=4: [f"{x}{i}" for i in range(n)]
M = lambda m: [[f"{m}{i}{j}" for j in range(3)] for i in range(3)]
def mats(m, q): return [f"{m}{i}{j} == " + H[i][j].format(*q) for i in range(3) for j in range(3)]
def rows(r, m, p): return [f"{r}{i} == {m}{i}0 * {p}0 + {m}{i}1 * {p}1 + {m}{i}2 * {p}2" for i in range(3)]
def ham(r, a, b):
    a0, a1, a2, a3 = a; b0, b1, b2, b3 = b
    return [f"{r}0 == {a0} * {b0} - {a1} * {b1} - {a2} * {b2} - {a3} * {b3}", f"{r}1 == {a0} * {b1} + {a1} * {b0} + {a2} * {b3} - {a3} * {b2}",
            f"{r}2 == {a0} * {b2} - {a1} * {b3} + {a2} * {b0} + {a3} * {b1}", f"{r}3 == {a0} * {b3} + {a1} * {b2} - {a2} * {b1} + {a3} * {b0}"]
def con(c, q): return [f"{c}0 == {q}0"] + [f"{c}{i} == -{q}{i}" for i in (1, 2, 3)]
def norm(q): return " + ".join(f"{x} * {x}" for x in V(q))
def flat(m): return [x for r in M(m) for x in r]
def nra(name, params, req, ens):
    w(f"//@nra {name}({', '.join(params)})")
    for r in req: w("requires " + r)
    for e in ens: w("ensures " + e)
    w("//@end")
w("//@needs math token\n//@type dataset/nuscenes/box.rs NuScenesBox")
w("/// C12: the algebra of rotations and translations, over the contracts of utils/math.rs.")
# homogeneous form
nra("lemma_hq", V("a") + ["n"], ["n == " + norm("a"), "n == 1real"],
    [f"2real * (a0 * a0 + a{i+1} * a{i+1}) - 1real == " + H[i][i].format(*V("a")) for i in range(3)])
nra("lemma_rm_norm", V("a") + V("b") + V("r") + ["n", "m"], ham("r", V("a"), V("b")) + ["n == " + norm("a"), "m == " + norm("b")], [norm("r") + " == n * m"])
nra("lemma_rm_dot", V("a") + flat("m") + V("p", 3) + V("s", 3) + V("r", 3) + V("t", 3) + ["n"],
    ["n == " + norm("a")] + mats("m", V("a")) + rows("r", "m", "p") + rows("t", "m", "s"),
    ["r0 * t0 + r1 * t1 + r2 * t2 == n * n * (p0 * s0 + p1 * s1 + p2 * s2)"])
nra("lemma_rm_back", V("a") + V("c") + flat("m") + flat("k") + V("p", 3) + V("r", 3) + V("t", 3) + ["n"],
    ["n == " + norm("a")] + con("c", "a") + mats("m", V("a")) + mats("k", V("c")) + rows("r", "m", "p") + rows("t", "k", "r"),
    [f"t{i} == n * n * p{i}" for i in range(3)])
nra("lemma_rm_comp", V("a") + V("b") + V("q") + flat("k") + flat("l") + flat("m") + V("p", 3) + V("s", 3) + V("r", 3) + V("t", 3),
    ham("q", V("a"), V("b")) + mats("k", V("b")) + mats("l", V("a")) + mats("m", V("q")) + rows("s", "k", "p") + rows("r", "l", "s") + rows("t", "m", "p"),
    [f"r{i} == t{i}" for i in range(3)])
nra("lemma_rm_qback", V("a") + V("c") + V("b") + V("r") + V("t") + ["n"], ["n == " + norm("a")] + con("c", "a") + ham("r", V("a"), V("b")) + ham("t", V("c"), V("r")),
    [f"t{i} == n * b{i}" for i in range(4)])
nra("lemma_rm_sand", V("a") + V("c") + V("v") + V("u") + V("w") + flat("m") + V("r", 3),
    con("c", "a") + ["v0 == 0real"] + ham("u", V("a"), V("v")) + ham("w", V("u"), V("c")) + mats("m", V("a")) + [f"r{i} == m{i}0 * v1 + m{i}1 * v2 + m{i}2 * v3" for i in range(3)],
    ["w0 == 0real"] + [f"w{i+1} == r{i}" for i in range(3)])
nra("lemma_rm_orth", V("a") + flat("m") + ["n"], ["n == " + norm("a")] + mats("m", V("a")),
    [f"m0{i} * m0{j} + m1{i} * m1{j} + m2{i} * m2{j} == " + ("n * n" if i == j else "0real") for i in range(3) for j in range(i, 3)]
    + ["m00 * (m11 * m22 - m12 * m21) - m01 * (m10 * m22 - m12 * m20) + m02 * (m10 * m21 - m11 * m20) == n * n * n"])
nra("lemma_one", ["n", "x"], ["n == 1real"], ["n * x == x", "n * n * x == x", "n * n * n * x == x", "n * n == 1real", "n * n * n == 1real"])

w("pub open spec fn hq(q: Seq<F>, i: int, j: int) -> real { let a = q[0].rv(); let b = q[1].rv(); let c = q[2].rv(); let d = q[3].rv();")
def hqs(i): return " else ".join((f"if j == {j} " if j < 2 else "") + "{ " + H[i][j].format("a", "b", "c", "d") + " }" for j in range(3))
w("  if i == 0 { " + hqs(0) + " } else if i == 1 { " + hqs(1) + " } else { " + hqs(2) + " } }")
def vals(q, n=4): return [f"{q}[{i}].rv()" for i in range(n)]
def entries(q): return [f"rq({q}, {i}, {j})" for i in range(3) for j in range(3)]
def call(name, *args): return f"{name}({', '.join(x for a in args for x in (a if isinstance(a, list) else [a]))});"
w("pub proof fn lemma_rq(q: Seq<F>) requires unit(q) ensures " + ", ".join(f"rq(q, {i}, {j}) == hq(q, {i}, {j})" for i in range(3) for j in range(3)))
w("{ " + call("lemma_hq", vals("q"), "nq(q)") + " }")
w("""/// The composition of unit quaternions is one.
pub proof fn theorem_unit(a: Seq<F>, b: Seq<F>, r: Seq<F>) requires unit(a), unit(b), is_hm(r, a, b) ensures unit(r)
{ %s %s }""" % (call("lemma_rm_norm", vals("a"), vals("b"), vals("r"), "nq(a)", "nq(b)"), call("lemma_one", "nq(a)", "nq(b)")))
w("pub open spec fn dot3(a: Seq<F>, b: Seq<F>) -> real { a[0].rv() * b[0].rv() + a[1].rv() * b[1].rv() + a[2].rv() * b[2].rv() }")
w("pub open spec fn same3(a: Seq<F>, b: Seq<F>) -> bool { a[0].rv() == b[0].rv() && a[1].rv() == b[1].rv() && a[2].rv() == b[2].rv() }")
w("""/// Rotating preserves dot products, and so lengths (p == s).
pub proof fn theorem_isometry(q: Seq<F>, p: Seq<F>, s: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(q), fin3(p), fin3(s), is_rp(r, q, p), is_rp(t, q, s) ensures dot3(r, t) == dot3(p, s)
{ lemma_rq(q); %s %s }""" % (call("lemma_rm_dot", vals("q"), entries("q"), vals("p", 3), vals("s", 3), vals("r", 3), vals("t", 3), "nq(q)"), call("lemma_one", "nq(q)", "dot3(p, s)")))
w("""pub proof fn theorem_back(q: Seq<F>, c: Seq<F>, p: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(q), conj(c, q), fin3(p), is_rp(r, q, p), is_rp(t, c, r) ensures same3(t, p)
{ lemma_conj(); lemma_rq(q); lemma_rq(c); %s %s %s %s }""" % ((call("lemma_rm_back", vals("q"), vals("c"), entries("q"), entries("c"), vals("p", 3), vals("r", 3), vals("t", 3), "nq(q)"),) + tuple(call("lemma_one", "nq(q)", f"p[{i}].rv()") for i in range(3))))
w("""/// Rotating back restores the point, in either order.
pub proof fn theorem_rotate_back(q: Seq<F>, p: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(q), fin3(p) ensures is_rp(r, q, p) && is_rp_conj(t, q, r) ==> same3(t, p), is_rp_conj(r, q, p) && is_rp(t, q, r) ==> same3(t, p)
{ lemma_conj();
  if is_rp(r, q, p) && is_rp_conj(t, q, r) { let c = choose|c: Seq<F>| #[trigger] conj(c, q) && is_rp(t, c, r); theorem_back(q, c, p, r, t); }
  if is_rp_conj(r, q, p) && is_rp(t, q, r) { let c = choose|c: Seq<F>| #[trigger] conj(c, q) && is_rp(r, c, p); assert(unit(c)); assert(conj(q, c)); theorem_back(c, q, p, r, t); } }""")
w("""/// A point rotated by the composed orientation is the point rotated twice.
pub proof fn theorem_compose(a: Seq<F>, b: Seq<F>, q: Seq<F>, p: Seq<F>, s: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(a), unit(b), fin3(p), is_hm(q, a, b), is_rp(s, b, p), is_rp(r, a, s), is_rp(t, q, p) ensures unit(q), same3(r, t)
{ theorem_unit(a, b, q); lemma_rq(a); lemma_rq(b); lemma_rq(q); %s }""" % call("lemma_rm_comp", vals("a"), vals("b"), vals("q"), entries("b"), entries("a"), entries("q"), vals("p", 3), vals("s", 3), vals("r", 3), vals("t", 3)))
w("pub open spec fn same4(a: Seq<F>, b: Seq<F>) -> bool { a[0].rv() == b[0].rv() && a[1].rv() == b[1].rv() && a[2].rv() == b[2].rv() && a[3].rv() == b[3].rv() }")
w("""pub proof fn theorem_qback(a: Seq<F>, c: Seq<F>, b: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(a), conj(c, a), fin4(b), is_hm(r, a, b), is_hm(t, c, r) ensures same4(t, b)
{ %s %s }""" % (call("lemma_rm_qback", vals("a"), vals("c"), vals("b"), vals("r"), vals("t"), "nq(a)"), " ".join(call("lemma_one", "nq(a)", f"b[{i}].rv()") for i in range(4))))
w("""/// Rotating an orientation back restores it, in either order.
pub proof fn theorem_rotate_q_back(a: Seq<F>, b: Seq<F>, r: Seq<F>, t: Seq<F>) requires unit(a), fin4(b) ensures is_hm(r, a, b) && is_hm_conj(t, a, r) ==> same4(t, b), is_hm_conj(r, a, b) && is_hm(t, a, r) ==> same4(t, b)
{ lemma_conj();
  if is_hm(r, a, b) && is_hm_conj(t, a, r) { let c = choose|c: Seq<F>| #[trigger] conj(c, a) && is_hm(t, c, r); theorem_qback(a, c, b, r, t); }
  if is_hm_conj(r, a, b) && is_hm(t, a, r) { let c = choose|c: Seq<F>| #[trigger] conj(c, a) && is_hm(r, c, b); assert(unit(c)); assert(conj(a, c)); theorem_qback(c, a, b, r, t); } }""")
w("""/// Rotating applies the rotation the quaternion denotes: the vector part of q (0, p) q*.
pub proof fn theorem_sandwich(q: Seq<F>, c: Seq<F>, v: Seq<F>, u: Seq<F>, x: Seq<F>, p: Seq<F>, r: Seq<F>) requires unit(q), conj(c, q), fin3(p), fin4(v), v[0].rv() == 0real, v[1].rv() == p[0].rv(), v[2].rv() == p[1].rv(), v[3].rv() == p[2].rv(), is_hm(u, q, v), is_hm(x, u, c), is_rp(r, q, p)
  ensures x[0].rv() == 0real, x[1].rv() == r[0].rv(), x[2].rv() == r[1].rv(), x[3].rv() == r[2].rv()
{ lemma_rq(q); %s }""" % call("lemma_rm_sand", vals("q"), vals("c"), vals("v"), vals("u"), vals("x"), entries("q"), vals("r", 3)))
w("pub open spec fn colp(m: Mat33, i: int, j: int) -> real { m.at(0, i).rv() * m.at(0, j).rv() + m.at(1, i).rv() * m.at(1, j).rv() + m.at(2, i).rv() * m.at(2, j).rv() }")
w("pub open spec fn det3(m: Mat33) -> real { m.at(0, 0).rv() * (m.at(1, 1).rv() * m.at(2, 2).rv() - m.at(1, 2).rv() * m.at(2, 1).rv()) - m.at(0, 1).rv() * (m.at(1, 0).rv() * m.at(2, 2).rv() - m.at(1, 2).rv() * m.at(2, 0).rv()) + m.at(0, 2).rv() * (m.at(1, 0).rv() * m.at(2, 1).rv() - m.at(1, 1).rv() * m.at(2, 0).rv()) }")
w("""/// The matrix of a unit quaternion is a proper rotation: orthonormal columns and determinant 1.
pub proof fn theorem_proper(q: Seq<F>, m: Mat33) requires unit(q), rot_of(m, q) ensures %s, det3(m) == 1real
{ lemma_rq(q); %s %s }""" % (", ".join(f"colp(m, {i}, {j}) == {1 if i == j else 0}real" for i in range(3) for j in range(i, 3)), call("lemma_rm_orth", vals("q"), [f"m.at({i}, {j}).rv()" for i in range(3) for j in range(3)], "nq(q)"), call("lemma_one", "nq(q)", "1real")))
w("""/// Translating back restores the point.
pub proof fn theorem_translate(a: Seq<F>, b: Seq<F>, r: Seq<F>, t: Seq<F>) requires fin3(a), fin3(b) ensures is_sum(r, a, b) && is_diff(t, r, b) ==> same3(t, a), is_diff(r, a, b) && is_sum(t, r, b) ==> same3(t, a)
{ }""")
w("""//@fn dataset/nuscenes/box.rs NuScenesBox::translate(xyz)
ensures fin3(old(self).position@) && fin3(xyz@) ==> is_sum(final(self).position@, old(self).position@, xyz@)
ensures *final(self) == (NuScenesBox { position: final(self).position, ..*old(self) })
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::get_translate(xyz) -> r
ensures fin3(self.position@) && fin3(xyz@) ==> is_sum(r@, self.position@, xyz@)
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::translate_inv(xyz)
ensures fin3(old(self).position@) && fin3(xyz@) ==> is_diff(final(self).position@, old(self).position@, xyz@)
ensures *final(self) == (NuScenesBox { position: final(self).position, ..*old(self) })
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::get_translate_inv(xyz) -> r
ensures fin3(self.position@) && fin3(xyz@) ==> is_diff(r@, self.position@, xyz@)
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::rotate(orientation)
ensures fin3(old(self).position@) && unit(orientation@) ==> is_rp(final(self).position@, orientation@, old(self).position@)
ensures fin4(old(self).orientation@) && unit(orientation@) ==> is_hm(final(self).orientation@, orientation@, old(self).orientation@)
ensures *final(self) == (NuScenesBox { position: final(self).position, orientation: final(self).orientation, ..*old(self) })
//@end
//@fn dataset/nuscenes/box.rs NuScenesBox::rotate_inv(orientation)
ensures fin3(old(self).position@) && unit(orientation@) ==> is_rp_conj(final(self).position@, orientation@, old(self).position@)
ensures fin4(old(self).orientation@) && unit(orientation@) ==> is_hm_conj(final(self).orientation@, orientation@, old(self).orientation@)
ensures *final(self) == (NuScenesBox { position: final(self).position, orientation: final(self).orientation, ..*old(self) })
//@end""")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "rot.vc"), "w").write("\n".join(out) + "\n")
