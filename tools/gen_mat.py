"""Writes contracts/mat.vc: trusted contracts of the nalgebra matrices the code uses."""
import os
T = [(3, 3), (1, 3), (3, 1), (4, 3), (3, 4)]
o = ["/// nalgebra matrices (trusted).  Entries are F; products are the sums of products in index order."]
e = lambda r, c: [(i, j) for i in range(r) for j in range(c)]
xb = "#[verifier::external_body] "
for (r, c) in T:
    n = f"Mat{r}{c}"
    ps = ", ".join(f"a{i}{j}: F" for i, j in e(r, c))
    o.append(f"#[verifier::external_body] #[derive(Clone, Copy)] pub struct {n} {{ x: u8 }}")
    o.append(f"impl {n} {{ pub uninterp spec fn at(&self, i: int, j: int) -> F;")
    o.append(f"  {xb}pub fn new({ps}) -> (r: Self) ensures " + ", ".join(f"r.at({i}, {j}) == a{i}{j}" for i, j in e(r, c)) + " { unimplemented!() }")
    o.append(f"  {xb}pub fn zeros() -> (r: Self) ensures " + ", ".join(f"r.at({i}, {j}).ok() && r.at({i}, {j}).rv() == 0real" for i, j in e(r, c)) + " { unimplemented!() }")
    if (c, r) in T:
        o.append(f"  {xb}pub fn transpose(&self) -> (r: Mat{c}{r}) ensures " + ", ".join(f"r.at({j}, {i}) == self.at({i}, {j})" for i, j in e(r, c)) + " { unimplemented!() }")
    if (1, c) in T:
        o.append(f"  {xb}pub fn row(&self, i: usize) -> (r: Mat1{c}) requires i < {r} ensures " + ", ".join(f"r.at(0, {j}) == self.at(i as int, {j})" for j in range(c)) + " { unimplemented!() }")
    if (r, 1) in T:
        o.append(f"  {xb}pub fn column(&self, i: usize) -> (r: Mat{r}1) requires i < {c} ensures " + ", ".join(f"r.at({j}, 0) == self.at({j}, i as int)" for j in range(r)) + " { unimplemented!() }")
    if 1 in (r, c):
        k = "0, k as int" if r == 1 else "k as int, 0"
        for v, acc in [("x", 0), ("y", 1), ("z", 2)]:
            pass
        o.append(f"  {xb}pub fn get1(&self, k: usize) -> (r: F) requires k < {r * c} ensures r == self.at({k}) {{ unimplemented!() }}")
    o.append("}")
    o.append(f"impl core::ops::Index<(usize, usize)> for {n} {{ type Output = F; {xb}fn index(&self, k: (usize, usize)) -> (r: &F) ensures *r == self.at(k.0 as int, k.1 as int) {{ unimplemented!() }} }}")
    o.append(f"impl vstd::std_specs::core::IndexSpecImpl<(usize, usize)> for {n} {{ open spec fn index_req(&self, k: &(usize, usize)) -> bool {{ k.0 < {r} && k.1 < {c} }} }}")


def op(tr, m, a, b, res, ens):
    for l, rr in [(a, b), ("&'a " + a, b), (a, "&'b " + b), ("&'a " + a, "&'b " + b)]:
        g = [x for x in ("'a", "'b") if x in l + rr]
        g = "<" + ", ".join(g) + ">" if g else ""
        o.append(f"impl{g} core::ops::{tr}<{rr}> for {l} {{ type Output = {res}; {xb}fn {m}(self, o: {rr}) -> (r: {res}) ensures {ens} {{ unimplemented!() }} }}")
        o.append(f"impl{g} vstd::std_specs::ops::{tr}SpecImpl<{rr}> for {l} {{ open spec fn obeys_{m}_spec() -> bool {{ false }} open spec fn {m}_req(self, o: {rr}) -> bool {{ true }} open spec fn {m}_spec(self, o: {rr}) -> {res} {{ arbitrary() }} }}")


for (r, c) in [(3, 3), (1, 3), (3, 1), (4, 3)]:
    for tr, m in [("Add", "add"), ("Sub", "sub")]:
        op(tr, m, f"Mat{r}{c}", f"Mat{r}{c}", f"Mat{r}{c}", ", ".join(f"r.at({i}, {j}) == f{m}(self.at({i}, {j}), o.at({i}, {j}))" for i, j in e(r, c)))
for (r, k, c) in [(3, 3, 3), (1, 3, 3), (4, 3, 3), (3, 3, 1), (3, 3, 4)]:
    def dot(i, j):
        s = f"fmul(self.at({i}, 0), o.at(0, {j}))"
        for x in range(1, k):
            s = f"fadd({s}, fmul(self.at({i}, {x}), o.at({x}, {j})))"
        return s
    op("Mul", "mul", f"Mat{r}{k}", f"Mat{k}{c}", f"Mat{r}{c}", ", ".join(f"r.at({i}, {j}) == {dot(i, j)}" for i, j in e(r, c)))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "mat.vc"), "w").write("\n".join(o) + "\n")
