/// nalgebra matrices (trusted).  Entries are F; products are the sums of products in index order.
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Mat33 { x: u8 }
impl Mat33 { pub uninterp spec fn at(&self, i: int, j: int) -> F;
  #[verifier::external_body] pub fn new(a00: F, a01: F, a02: F, a10: F, a11: F, a12: F, a20: F, a21: F, a22: F) -> (r: Self) ensures r.at(0, 0) == a00, r.at(0, 1) == a01, r.at(0, 2) == a02, r.at(1, 0) == a10, r.at(1, 1) == a11, r.at(1, 2) == a12, r.at(2, 0) == a20, r.at(2, 1) == a21, r.at(2, 2) == a22 { unimplemented!() }
  #[verifier::external_body] pub fn zeros() -> (r: Self) ensures r.at(0, 0).ok() && r.at(0, 0).rv() == 0real, r.at(0, 1).ok() && r.at(0, 1).rv() == 0real, r.at(0, 2).ok() && r.at(0, 2).rv() == 0real, r.at(1, 0).ok() && r.at(1, 0).rv() == 0real, r.at(1, 1).ok() && r.at(1, 1).rv() == 0real, r.at(1, 2).ok() && r.at(1, 2).rv() == 0real, r.at(2, 0).ok() && r.at(2, 0).rv() == 0real, r.at(2, 1).ok() && r.at(2, 1).rv() == 0real, r.at(2, 2).ok() && r.at(2, 2).rv() == 0real { unimplemented!() }
  #[verifier::external_body] pub fn transpose(&self) -> (r: Mat33) ensures r.at(0, 0) == self.at(0, 0), r.at(1, 0) == self.at(0, 1), r.at(2, 0) == self.at(0, 2), r.at(0, 1) == self.at(1, 0), r.at(1, 1) == self.at(1, 1), r.at(2, 1) == self.at(1, 2), r.at(0, 2) == self.at(2, 0), r.at(1, 2) == self.at(2, 1), r.at(2, 2) == self.at(2, 2) { unimplemented!() }
  #[verifier::external_body] pub fn row(&self, i: usize) -> (r: Mat13) requires i < 3 ensures r.at(0, 0) == self.at(i as int, 0), r.at(0, 1) == self.at(i as int, 1), r.at(0, 2) == self.at(i as int, 2) { unimplemented!() }
  #[verifier::external_body] pub fn column(&self, i: usize) -> (r: Mat31) requires i < 3 ensures r.at(0, 0) == self.at(0, i as int), r.at(1, 0) == self.at(1, i as int), r.at(2, 0) == self.at(2, i as int) { unimplemented!() }
}
impl core::ops::Index<(usize, usize)> for Mat33 { type Output = F; #[verifier::external_body] fn index(&self, k: (usize, usize)) -> (r: &F) ensures *r == self.at(k.0 as int, k.1 as int) { unimplemented!() } }
impl vstd::std_specs::core::IndexSpecImpl<(usize, usize)> for Mat33 { open spec fn index_req(&self, k: &(usize, usize)) -> bool { k.0 < 3 && k.1 < 3 } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Mat13 { x: u8 }
impl Mat13 { pub uninterp spec fn at(&self, i: int, j: int) -> F;
  #[verifier::external_body] pub fn new(a00: F, a01: F, a02: F) -> (r: Self) ensures r.at(0, 0) == a00, r.at(0, 1) == a01, r.at(0, 2) == a02 { unimplemented!() }
  #[verifier::external_body] pub fn zeros() -> (r: Self) ensures r.at(0, 0).ok() && r.at(0, 0).rv() == 0real, r.at(0, 1).ok() && r.at(0, 1).rv() == 0real, r.at(0, 2).ok() && r.at(0, 2).rv() == 0real { unimplemented!() }
  #[verifier::external_body] pub fn transpose(&self) -> (r: Mat31) ensures r.at(0, 0) == self.at(0, 0), r.at(1, 0) == self.at(0, 1), r.at(2, 0) == self.at(0, 2) { unimplemented!() }
  #[verifier::external_body] pub fn row(&self, i: usize) -> (r: Mat13) requires i < 1 ensures r.at(0, 0) == self.at(i as int, 0), r.at(0, 1) == self.at(i as int, 1), r.at(0, 2) == self.at(i as int, 2) { unimplemented!() }
  #[verifier::external_body] pub fn get1(&self, k: usize) -> (r: F) requires k < 3 ensures r == self.at(0, k as int) { unimplemented!() }
}
impl core::ops::Index<(usize, usize)> for Mat13 { type Output = F; #[verifier::external_body] fn index(&self, k: (usize, usize)) -> (r: &F) ensures *r == self.at(k.0 as int, k.1 as int) { unimplemented!() } }
impl vstd::std_specs::core::IndexSpecImpl<(usize, usize)> for Mat13 { open spec fn index_req(&self, k: &(usize, usize)) -> bool { k.0 < 1 && k.1 < 3 } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Mat31 { x: u8 }
impl Mat31 { pub uninterp spec fn at(&self, i: int, j: int) -> F;
  #[verifier::external_body] pub fn new(a00: F, a10: F, a20: F) -> (r: Self) ensures r.at(0, 0) == a00, r.at(1, 0) == a10, r.at(2, 0) == a20 { unimplemented!() }
  #[verifier::external_body] pub fn zeros() -> (r: Self) ensures r.at(0, 0).ok() && r.at(0, 0).rv() == 0real, r.at(1, 0).ok() && r.at(1, 0).rv() == 0real, r.at(2, 0).ok() && r.at(2, 0).rv() == 0real { unimplemented!() }
  #[verifier::external_body] pub fn transpose(&self) -> (r: Mat13) ensures r.at(0, 0) == self.at(0, 0), r.at(0, 1) == self.at(1, 0), r.at(0, 2) == self.at(2, 0) { unimplemented!() }
  #[verifier::external_body] pub fn column(&self, i: usize) -> (r: Mat31) requires i < 1 ensures r.at(0, 0) == self.at(0, i as int), r.at(1, 0) == self.at(1, i as int), r.at(2, 0) == self.at(2, i as int) { unimplemented!() }
  #[verifier::external_body] pub fn get1(&self, k: usize) -> (r: F) requires k < 3 ensures r == self.at(k as int, 0) { unimplemented!() }
}
impl core::ops::Index<(usize, usize)> for Mat31 { type Output = F; #[verifier::external_body] fn index(&self, k: (usize, usize)) -> (r: &F) ensures *r == self.at(k.0 as int, k.1 as int) { unimplemented!() } }
impl vstd::std_specs::core::IndexSpecImpl<(usize, usize)> for Mat31 { open spec fn index_req(&self, k: &(usize, usize)) -> bool { k.0 < 3 && k.1 < 1 } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Mat43 { x: u8 }
impl Mat43 { pub uninterp spec fn at(&self, i: int, j: int) -> F;
  #[verifier::external_body] pub fn new(a00: F, a01: F, a02: F, a10: F, a11: F, a12: F, a20: F, a21: F, a22: F, a30: F, a31: F, a32: F) -> (r: Self) ensures r.at(0, 0) == a00, r.at(0, 1) == a01, r.at(0, 2) == a02, r.at(1, 0) == a10, r.at(1, 1) == a11, r.at(1, 2) == a12, r.at(2, 0) == a20, r.at(2, 1) == a21, r.at(2, 2) == a22, r.at(3, 0) == a30, r.at(3, 1) == a31, r.at(3, 2) == a32 { unimplemented!() }
  #[verifier::external_body] pub fn zeros() -> (r: Self) ensures r.at(0, 0).ok() && r.at(0, 0).rv() == 0real, r.at(0, 1).ok() && r.at(0, 1).rv() == 0real, r.at(0, 2).ok() && r.at(0, 2).rv() == 0real, r.at(1, 0).ok() && r.at(1, 0).rv() == 0real, r.at(1, 1).ok() && r.at(1, 1).rv() == 0real, r.at(1, 2).ok() && r.at(1, 2).rv() == 0real, r.at(2, 0).ok() && r.at(2, 0).rv() == 0real, r.at(2, 1).ok() && r.at(2, 1).rv() == 0real, r.at(2, 2).ok() && r.at(2, 2).rv() == 0real, r.at(3, 0).ok() && r.at(3, 0).rv() == 0real, r.at(3, 1).ok() && r.at(3, 1).rv() == 0real, r.at(3, 2).ok() && r.at(3, 2).rv() == 0real { unimplemented!() }
  #[verifier::external_body] pub fn transpose(&self) -> (r: Mat34) ensures r.at(0, 0) == self.at(0, 0), r.at(1, 0) == self.at(0, 1), r.at(2, 0) == self.at(0, 2), r.at(0, 1) == self.at(1, 0), r.at(1, 1) == self.at(1, 1), r.at(2, 1) == self.at(1, 2), r.at(0, 2) == self.at(2, 0), r.at(1, 2) == self.at(2, 1), r.at(2, 2) == self.at(2, 2), r.at(0, 3) == self.at(3, 0), r.at(1, 3) == self.at(3, 1), r.at(2, 3) == self.at(3, 2) { unimplemented!() }
  #[verifier::external_body] pub fn row(&self, i: usize) -> (r: Mat13) requires i < 4 ensures r.at(0, 0) == self.at(i as int, 0), r.at(0, 1) == self.at(i as int, 1), r.at(0, 2) == self.at(i as int, 2) { unimplemented!() }
}
impl core::ops::Index<(usize, usize)> for Mat43 { type Output = F; #[verifier::external_body] fn index(&self, k: (usize, usize)) -> (r: &F) ensures *r == self.at(k.0 as int, k.1 as int) { unimplemented!() } }
impl vstd::std_specs::core::IndexSpecImpl<(usize, usize)> for Mat43 { open spec fn index_req(&self, k: &(usize, usize)) -> bool { k.0 < 4 && k.1 < 3 } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Mat34 { x: u8 }
impl Mat34 { pub uninterp spec fn at(&self, i: int, j: int) -> F;
  #[verifier::external_body] pub fn new(a00: F, a01: F, a02: F, a03: F, a10: F, a11: F, a12: F, a13: F, a20: F, a21: F, a22: F, a23: F) -> (r: Self) ensures r.at(0, 0) == a00, r.at(0, 1) == a01, r.at(0, 2) == a02, r.at(0, 3) == a03, r.at(1, 0) == a10, r.at(1, 1) == a11, r.at(1, 2) == a12, r.at(1, 3) == a13, r.at(2, 0) == a20, r.at(2, 1) == a21, r.at(2, 2) == a22, r.at(2, 3) == a23 { unimplemented!() }
  #[verifier::external_body] pub fn zeros() -> (r: Self) ensures r.at(0, 0).ok() && r.at(0, 0).rv() == 0real, r.at(0, 1).ok() && r.at(0, 1).rv() == 0real, r.at(0, 2).ok() && r.at(0, 2).rv() == 0real, r.at(0, 3).ok() && r.at(0, 3).rv() == 0real, r.at(1, 0).ok() && r.at(1, 0).rv() == 0real, r.at(1, 1).ok() && r.at(1, 1).rv() == 0real, r.at(1, 2).ok() && r.at(1, 2).rv() == 0real, r.at(1, 3).ok() && r.at(1, 3).rv() == 0real, r.at(2, 0).ok() && r.at(2, 0).rv() == 0real, r.at(2, 1).ok() && r.at(2, 1).rv() == 0real, r.at(2, 2).ok() && r.at(2, 2).rv() == 0real, r.at(2, 3).ok() && r.at(2, 3).rv() == 0real { unimplemented!() }
  #[verifier::external_body] pub fn transpose(&self) -> (r: Mat43) ensures r.at(0, 0) == self.at(0, 0), r.at(1, 0) == self.at(0, 1), r.at(2, 0) == self.at(0, 2), r.at(3, 0) == self.at(0, 3), r.at(0, 1) == self.at(1, 0), r.at(1, 1) == self.at(1, 1), r.at(2, 1) == self.at(1, 2), r.at(3, 1) == self.at(1, 3), r.at(0, 2) == self.at(2, 0), r.at(1, 2) == self.at(2, 1), r.at(2, 2) == self.at(2, 2), r.at(3, 2) == self.at(2, 3) { unimplemented!() }
  #[verifier::external_body] pub fn column(&self, i: usize) -> (r: Mat31) requires i < 4 ensures r.at(0, 0) == self.at(0, i as int), r.at(1, 0) == self.at(1, i as int), r.at(2, 0) == self.at(2, i as int) { unimplemented!() }
}
impl core::ops::Index<(usize, usize)> for Mat34 { type Output = F; #[verifier::external_body] fn index(&self, k: (usize, usize)) -> (r: &F) ensures *r == self.at(k.0 as int, k.1 as int) { unimplemented!() } }
impl vstd::std_specs::core::IndexSpecImpl<(usize, usize)> for Mat34 { open spec fn index_req(&self, k: &(usize, usize)) -> bool { k.0 < 3 && k.1 < 4 } }
impl core::ops::Add<Mat33> for Mat33 { type Output = Mat33; #[verifier::external_body] fn add(self, o: Mat33) -> (r: Mat33) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fadd(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fadd(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fadd(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fadd(self.at(2, 2), o.at(2, 2)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Mat33> for Mat33 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Mat33) -> bool { true } open spec fn add_spec(self, o: Mat33) -> Mat33 { arbitrary() } }
impl<'a> core::ops::Add<Mat33> for &'a Mat33 { type Output = Mat33; #[verifier::external_body] fn add(self, o: Mat33) -> (r: Mat33) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fadd(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fadd(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fadd(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fadd(self.at(2, 2), o.at(2, 2)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<Mat33> for &'a Mat33 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Mat33) -> bool { true } open spec fn add_spec(self, o: Mat33) -> Mat33 { arbitrary() } }
impl<'b> core::ops::Add<&'b Mat33> for Mat33 { type Output = Mat33; #[verifier::external_body] fn add(self, o: &'b Mat33) -> (r: Mat33) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fadd(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fadd(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fadd(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fadd(self.at(2, 2), o.at(2, 2)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b Mat33> for Mat33 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b Mat33) -> bool { true } open spec fn add_spec(self, o: &'b Mat33) -> Mat33 { arbitrary() } }
impl<'a, 'b> core::ops::Add<&'b Mat33> for &'a Mat33 { type Output = Mat33; #[verifier::external_body] fn add(self, o: &'b Mat33) -> (r: Mat33) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fadd(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fadd(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fadd(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fadd(self.at(2, 2), o.at(2, 2)) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b Mat33> for &'a Mat33 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b Mat33) -> bool { true } open spec fn add_spec(self, o: &'b Mat33) -> Mat33 { arbitrary() } }
impl core::ops::Sub<Mat33> for Mat33 { type Output = Mat33; #[verifier::external_body] fn sub(self, o: Mat33) -> (r: Mat33) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fsub(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fsub(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fsub(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fsub(self.at(2, 2), o.at(2, 2)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Mat33> for Mat33 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Mat33) -> bool { true } open spec fn sub_spec(self, o: Mat33) -> Mat33 { arbitrary() } }
impl<'a> core::ops::Sub<Mat33> for &'a Mat33 { type Output = Mat33; #[verifier::external_body] fn sub(self, o: Mat33) -> (r: Mat33) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fsub(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fsub(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fsub(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fsub(self.at(2, 2), o.at(2, 2)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<Mat33> for &'a Mat33 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Mat33) -> bool { true } open spec fn sub_spec(self, o: Mat33) -> Mat33 { arbitrary() } }
impl<'b> core::ops::Sub<&'b Mat33> for Mat33 { type Output = Mat33; #[verifier::external_body] fn sub(self, o: &'b Mat33) -> (r: Mat33) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fsub(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fsub(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fsub(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fsub(self.at(2, 2), o.at(2, 2)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b Mat33> for Mat33 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b Mat33) -> bool { true } open spec fn sub_spec(self, o: &'b Mat33) -> Mat33 { arbitrary() } }
impl<'a, 'b> core::ops::Sub<&'b Mat33> for &'a Mat33 { type Output = Mat33; #[verifier::external_body] fn sub(self, o: &'b Mat33) -> (r: Mat33) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fsub(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fsub(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fsub(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fsub(self.at(2, 2), o.at(2, 2)) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b Mat33> for &'a Mat33 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b Mat33) -> bool { true } open spec fn sub_spec(self, o: &'b Mat33) -> Mat33 { arbitrary() } }
impl core::ops::Add<Mat13> for Mat13 { type Output = Mat13; #[verifier::external_body] fn add(self, o: Mat13) -> (r: Mat13) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Mat13> for Mat13 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Mat13) -> bool { true } open spec fn add_spec(self, o: Mat13) -> Mat13 { arbitrary() } }
impl<'a> core::ops::Add<Mat13> for &'a Mat13 { type Output = Mat13; #[verifier::external_body] fn add(self, o: Mat13) -> (r: Mat13) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<Mat13> for &'a Mat13 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Mat13) -> bool { true } open spec fn add_spec(self, o: Mat13) -> Mat13 { arbitrary() } }
impl<'b> core::ops::Add<&'b Mat13> for Mat13 { type Output = Mat13; #[verifier::external_body] fn add(self, o: &'b Mat13) -> (r: Mat13) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b Mat13> for Mat13 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b Mat13) -> bool { true } open spec fn add_spec(self, o: &'b Mat13) -> Mat13 { arbitrary() } }
impl<'a, 'b> core::ops::Add<&'b Mat13> for &'a Mat13 { type Output = Mat13; #[verifier::external_body] fn add(self, o: &'b Mat13) -> (r: Mat13) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b Mat13> for &'a Mat13 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b Mat13) -> bool { true } open spec fn add_spec(self, o: &'b Mat13) -> Mat13 { arbitrary() } }
impl core::ops::Sub<Mat13> for Mat13 { type Output = Mat13; #[verifier::external_body] fn sub(self, o: Mat13) -> (r: Mat13) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Mat13> for Mat13 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Mat13) -> bool { true } open spec fn sub_spec(self, o: Mat13) -> Mat13 { arbitrary() } }
impl<'a> core::ops::Sub<Mat13> for &'a Mat13 { type Output = Mat13; #[verifier::external_body] fn sub(self, o: Mat13) -> (r: Mat13) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<Mat13> for &'a Mat13 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Mat13) -> bool { true } open spec fn sub_spec(self, o: Mat13) -> Mat13 { arbitrary() } }
impl<'b> core::ops::Sub<&'b Mat13> for Mat13 { type Output = Mat13; #[verifier::external_body] fn sub(self, o: &'b Mat13) -> (r: Mat13) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b Mat13> for Mat13 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b Mat13) -> bool { true } open spec fn sub_spec(self, o: &'b Mat13) -> Mat13 { arbitrary() } }
impl<'a, 'b> core::ops::Sub<&'b Mat13> for &'a Mat13 { type Output = Mat13; #[verifier::external_body] fn sub(self, o: &'b Mat13) -> (r: Mat13) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b Mat13> for &'a Mat13 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b Mat13) -> bool { true } open spec fn sub_spec(self, o: &'b Mat13) -> Mat13 { arbitrary() } }
impl core::ops::Add<Mat31> for Mat31 { type Output = Mat31; #[verifier::external_body] fn add(self, o: Mat31) -> (r: Mat31) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Mat31> for Mat31 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Mat31) -> bool { true } open spec fn add_spec(self, o: Mat31) -> Mat31 { arbitrary() } }
impl<'a> core::ops::Add<Mat31> for &'a Mat31 { type Output = Mat31; #[verifier::external_body] fn add(self, o: Mat31) -> (r: Mat31) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<Mat31> for &'a Mat31 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Mat31) -> bool { true } open spec fn add_spec(self, o: Mat31) -> Mat31 { arbitrary() } }
impl<'b> core::ops::Add<&'b Mat31> for Mat31 { type Output = Mat31; #[verifier::external_body] fn add(self, o: &'b Mat31) -> (r: Mat31) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b Mat31> for Mat31 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b Mat31) -> bool { true } open spec fn add_spec(self, o: &'b Mat31) -> Mat31 { arbitrary() } }
impl<'a, 'b> core::ops::Add<&'b Mat31> for &'a Mat31 { type Output = Mat31; #[verifier::external_body] fn add(self, o: &'b Mat31) -> (r: Mat31) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b Mat31> for &'a Mat31 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b Mat31) -> bool { true } open spec fn add_spec(self, o: &'b Mat31) -> Mat31 { arbitrary() } }
impl core::ops::Sub<Mat31> for Mat31 { type Output = Mat31; #[verifier::external_body] fn sub(self, o: Mat31) -> (r: Mat31) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Mat31> for Mat31 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Mat31) -> bool { true } open spec fn sub_spec(self, o: Mat31) -> Mat31 { arbitrary() } }
impl<'a> core::ops::Sub<Mat31> for &'a Mat31 { type Output = Mat31; #[verifier::external_body] fn sub(self, o: Mat31) -> (r: Mat31) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<Mat31> for &'a Mat31 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Mat31) -> bool { true } open spec fn sub_spec(self, o: Mat31) -> Mat31 { arbitrary() } }
impl<'b> core::ops::Sub<&'b Mat31> for Mat31 { type Output = Mat31; #[verifier::external_body] fn sub(self, o: &'b Mat31) -> (r: Mat31) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b Mat31> for Mat31 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b Mat31) -> bool { true } open spec fn sub_spec(self, o: &'b Mat31) -> Mat31 { arbitrary() } }
impl<'a, 'b> core::ops::Sub<&'b Mat31> for &'a Mat31 { type Output = Mat31; #[verifier::external_body] fn sub(self, o: &'b Mat31) -> (r: Mat31) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b Mat31> for &'a Mat31 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b Mat31) -> bool { true } open spec fn sub_spec(self, o: &'b Mat31) -> Mat31 { arbitrary() } }
impl core::ops::Add<Mat43> for Mat43 { type Output = Mat43; #[verifier::external_body] fn add(self, o: Mat43) -> (r: Mat43) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fadd(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fadd(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fadd(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fadd(self.at(2, 2), o.at(2, 2)), r.at(3, 0) == fadd(self.at(3, 0), o.at(3, 0)), r.at(3, 1) == fadd(self.at(3, 1), o.at(3, 1)), r.at(3, 2) == fadd(self.at(3, 2), o.at(3, 2)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Mat43> for Mat43 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Mat43) -> bool { true } open spec fn add_spec(self, o: Mat43) -> Mat43 { arbitrary() } }
impl<'a> core::ops::Add<Mat43> for &'a Mat43 { type Output = Mat43; #[verifier::external_body] fn add(self, o: Mat43) -> (r: Mat43) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fadd(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fadd(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fadd(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fadd(self.at(2, 2), o.at(2, 2)), r.at(3, 0) == fadd(self.at(3, 0), o.at(3, 0)), r.at(3, 1) == fadd(self.at(3, 1), o.at(3, 1)), r.at(3, 2) == fadd(self.at(3, 2), o.at(3, 2)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::AddSpecImpl<Mat43> for &'a Mat43 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Mat43) -> bool { true } open spec fn add_spec(self, o: Mat43) -> Mat43 { arbitrary() } }
impl<'b> core::ops::Add<&'b Mat43> for Mat43 { type Output = Mat43; #[verifier::external_body] fn add(self, o: &'b Mat43) -> (r: Mat43) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fadd(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fadd(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fadd(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fadd(self.at(2, 2), o.at(2, 2)), r.at(3, 0) == fadd(self.at(3, 0), o.at(3, 0)), r.at(3, 1) == fadd(self.at(3, 1), o.at(3, 1)), r.at(3, 2) == fadd(self.at(3, 2), o.at(3, 2)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b Mat43> for Mat43 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b Mat43) -> bool { true } open spec fn add_spec(self, o: &'b Mat43) -> Mat43 { arbitrary() } }
impl<'a, 'b> core::ops::Add<&'b Mat43> for &'a Mat43 { type Output = Mat43; #[verifier::external_body] fn add(self, o: &'b Mat43) -> (r: Mat43) ensures r.at(0, 0) == fadd(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fadd(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fadd(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fadd(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fadd(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fadd(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fadd(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fadd(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fadd(self.at(2, 2), o.at(2, 2)), r.at(3, 0) == fadd(self.at(3, 0), o.at(3, 0)), r.at(3, 1) == fadd(self.at(3, 1), o.at(3, 1)), r.at(3, 2) == fadd(self.at(3, 2), o.at(3, 2)) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b Mat43> for &'a Mat43 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b Mat43) -> bool { true } open spec fn add_spec(self, o: &'b Mat43) -> Mat43 { arbitrary() } }
impl core::ops::Sub<Mat43> for Mat43 { type Output = Mat43; #[verifier::external_body] fn sub(self, o: Mat43) -> (r: Mat43) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fsub(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fsub(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fsub(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fsub(self.at(2, 2), o.at(2, 2)), r.at(3, 0) == fsub(self.at(3, 0), o.at(3, 0)), r.at(3, 1) == fsub(self.at(3, 1), o.at(3, 1)), r.at(3, 2) == fsub(self.at(3, 2), o.at(3, 2)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Mat43> for Mat43 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Mat43) -> bool { true } open spec fn sub_spec(self, o: Mat43) -> Mat43 { arbitrary() } }
impl<'a> core::ops::Sub<Mat43> for &'a Mat43 { type Output = Mat43; #[verifier::external_body] fn sub(self, o: Mat43) -> (r: Mat43) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fsub(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fsub(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fsub(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fsub(self.at(2, 2), o.at(2, 2)), r.at(3, 0) == fsub(self.at(3, 0), o.at(3, 0)), r.at(3, 1) == fsub(self.at(3, 1), o.at(3, 1)), r.at(3, 2) == fsub(self.at(3, 2), o.at(3, 2)) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<Mat43> for &'a Mat43 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Mat43) -> bool { true } open spec fn sub_spec(self, o: Mat43) -> Mat43 { arbitrary() } }
impl<'b> core::ops::Sub<&'b Mat43> for Mat43 { type Output = Mat43; #[verifier::external_body] fn sub(self, o: &'b Mat43) -> (r: Mat43) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fsub(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fsub(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fsub(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fsub(self.at(2, 2), o.at(2, 2)), r.at(3, 0) == fsub(self.at(3, 0), o.at(3, 0)), r.at(3, 1) == fsub(self.at(3, 1), o.at(3, 1)), r.at(3, 2) == fsub(self.at(3, 2), o.at(3, 2)) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b Mat43> for Mat43 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b Mat43) -> bool { true } open spec fn sub_spec(self, o: &'b Mat43) -> Mat43 { arbitrary() } }
impl<'a, 'b> core::ops::Sub<&'b Mat43> for &'a Mat43 { type Output = Mat43; #[verifier::external_body] fn sub(self, o: &'b Mat43) -> (r: Mat43) ensures r.at(0, 0) == fsub(self.at(0, 0), o.at(0, 0)), r.at(0, 1) == fsub(self.at(0, 1), o.at(0, 1)), r.at(0, 2) == fsub(self.at(0, 2), o.at(0, 2)), r.at(1, 0) == fsub(self.at(1, 0), o.at(1, 0)), r.at(1, 1) == fsub(self.at(1, 1), o.at(1, 1)), r.at(1, 2) == fsub(self.at(1, 2), o.at(1, 2)), r.at(2, 0) == fsub(self.at(2, 0), o.at(2, 0)), r.at(2, 1) == fsub(self.at(2, 1), o.at(2, 1)), r.at(2, 2) == fsub(self.at(2, 2), o.at(2, 2)), r.at(3, 0) == fsub(self.at(3, 0), o.at(3, 0)), r.at(3, 1) == fsub(self.at(3, 1), o.at(3, 1)), r.at(3, 2) == fsub(self.at(3, 2), o.at(3, 2)) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b Mat43> for &'a Mat43 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b Mat43) -> bool { true } open spec fn sub_spec(self, o: &'b Mat43) -> Mat43 { arbitrary() } }
impl core::ops::Mul<Mat33> for Mat33 { type Output = Mat33; #[verifier::external_body] fn mul(self, o: Mat33) -> (r: Mat33) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Mat33> for Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat33) -> bool { true } open spec fn mul_spec(self, o: Mat33) -> Mat33 { arbitrary() } }
impl<'a> core::ops::Mul<Mat33> for &'a Mat33 { type Output = Mat33; #[verifier::external_body] fn mul(self, o: Mat33) -> (r: Mat33) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<Mat33> for &'a Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat33) -> bool { true } open spec fn mul_spec(self, o: Mat33) -> Mat33 { arbitrary() } }
impl<'b> core::ops::Mul<&'b Mat33> for Mat33 { type Output = Mat33; #[verifier::external_body] fn mul(self, o: &'b Mat33) -> (r: Mat33) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat33> for Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat33) -> bool { true } open spec fn mul_spec(self, o: &'b Mat33) -> Mat33 { arbitrary() } }
impl<'a, 'b> core::ops::Mul<&'b Mat33> for &'a Mat33 { type Output = Mat33; #[verifier::external_body] fn mul(self, o: &'b Mat33) -> (r: Mat33) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat33> for &'a Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat33) -> bool { true } open spec fn mul_spec(self, o: &'b Mat33) -> Mat33 { arbitrary() } }
impl core::ops::Mul<Mat33> for Mat13 { type Output = Mat13; #[verifier::external_body] fn mul(self, o: Mat33) -> (r: Mat13) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Mat33> for Mat13 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat33) -> bool { true } open spec fn mul_spec(self, o: Mat33) -> Mat13 { arbitrary() } }
impl<'a> core::ops::Mul<Mat33> for &'a Mat13 { type Output = Mat13; #[verifier::external_body] fn mul(self, o: Mat33) -> (r: Mat13) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<Mat33> for &'a Mat13 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat33) -> bool { true } open spec fn mul_spec(self, o: Mat33) -> Mat13 { arbitrary() } }
impl<'b> core::ops::Mul<&'b Mat33> for Mat13 { type Output = Mat13; #[verifier::external_body] fn mul(self, o: &'b Mat33) -> (r: Mat13) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat33> for Mat13 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat33) -> bool { true } open spec fn mul_spec(self, o: &'b Mat33) -> Mat13 { arbitrary() } }
impl<'a, 'b> core::ops::Mul<&'b Mat33> for &'a Mat13 { type Output = Mat13; #[verifier::external_body] fn mul(self, o: &'b Mat33) -> (r: Mat13) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat33> for &'a Mat13 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat33) -> bool { true } open spec fn mul_spec(self, o: &'b Mat33) -> Mat13 { arbitrary() } }
impl core::ops::Mul<Mat33> for Mat43 { type Output = Mat43; #[verifier::external_body] fn mul(self, o: Mat33) -> (r: Mat43) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))), r.at(3, 0) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 0)), fmul(self.at(3, 1), o.at(1, 0))), fmul(self.at(3, 2), o.at(2, 0))), r.at(3, 1) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 1)), fmul(self.at(3, 1), o.at(1, 1))), fmul(self.at(3, 2), o.at(2, 1))), r.at(3, 2) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 2)), fmul(self.at(3, 1), o.at(1, 2))), fmul(self.at(3, 2), o.at(2, 2))) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Mat33> for Mat43 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat33) -> bool { true } open spec fn mul_spec(self, o: Mat33) -> Mat43 { arbitrary() } }
impl<'a> core::ops::Mul<Mat33> for &'a Mat43 { type Output = Mat43; #[verifier::external_body] fn mul(self, o: Mat33) -> (r: Mat43) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))), r.at(3, 0) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 0)), fmul(self.at(3, 1), o.at(1, 0))), fmul(self.at(3, 2), o.at(2, 0))), r.at(3, 1) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 1)), fmul(self.at(3, 1), o.at(1, 1))), fmul(self.at(3, 2), o.at(2, 1))), r.at(3, 2) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 2)), fmul(self.at(3, 1), o.at(1, 2))), fmul(self.at(3, 2), o.at(2, 2))) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<Mat33> for &'a Mat43 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat33) -> bool { true } open spec fn mul_spec(self, o: Mat33) -> Mat43 { arbitrary() } }
impl<'b> core::ops::Mul<&'b Mat33> for Mat43 { type Output = Mat43; #[verifier::external_body] fn mul(self, o: &'b Mat33) -> (r: Mat43) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))), r.at(3, 0) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 0)), fmul(self.at(3, 1), o.at(1, 0))), fmul(self.at(3, 2), o.at(2, 0))), r.at(3, 1) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 1)), fmul(self.at(3, 1), o.at(1, 1))), fmul(self.at(3, 2), o.at(2, 1))), r.at(3, 2) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 2)), fmul(self.at(3, 1), o.at(1, 2))), fmul(self.at(3, 2), o.at(2, 2))) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat33> for Mat43 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat33) -> bool { true } open spec fn mul_spec(self, o: &'b Mat33) -> Mat43 { arbitrary() } }
impl<'a, 'b> core::ops::Mul<&'b Mat33> for &'a Mat43 { type Output = Mat43; #[verifier::external_body] fn mul(self, o: &'b Mat33) -> (r: Mat43) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))), r.at(3, 0) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 0)), fmul(self.at(3, 1), o.at(1, 0))), fmul(self.at(3, 2), o.at(2, 0))), r.at(3, 1) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 1)), fmul(self.at(3, 1), o.at(1, 1))), fmul(self.at(3, 2), o.at(2, 1))), r.at(3, 2) == fadd(fadd(fmul(self.at(3, 0), o.at(0, 2)), fmul(self.at(3, 1), o.at(1, 2))), fmul(self.at(3, 2), o.at(2, 2))) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat33> for &'a Mat43 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat33) -> bool { true } open spec fn mul_spec(self, o: &'b Mat33) -> Mat43 { arbitrary() } }
impl core::ops::Mul<Mat31> for Mat33 { type Output = Mat31; #[verifier::external_body] fn mul(self, o: Mat31) -> (r: Mat31) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Mat31> for Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat31) -> bool { true } open spec fn mul_spec(self, o: Mat31) -> Mat31 { arbitrary() } }
impl<'a> core::ops::Mul<Mat31> for &'a Mat33 { type Output = Mat31; #[verifier::external_body] fn mul(self, o: Mat31) -> (r: Mat31) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<Mat31> for &'a Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat31) -> bool { true } open spec fn mul_spec(self, o: Mat31) -> Mat31 { arbitrary() } }
impl<'b> core::ops::Mul<&'b Mat31> for Mat33 { type Output = Mat31; #[verifier::external_body] fn mul(self, o: &'b Mat31) -> (r: Mat31) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat31> for Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat31) -> bool { true } open spec fn mul_spec(self, o: &'b Mat31) -> Mat31 { arbitrary() } }
impl<'a, 'b> core::ops::Mul<&'b Mat31> for &'a Mat33 { type Output = Mat31; #[verifier::external_body] fn mul(self, o: &'b Mat31) -> (r: Mat31) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat31> for &'a Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat31) -> bool { true } open spec fn mul_spec(self, o: &'b Mat31) -> Mat31 { arbitrary() } }
impl core::ops::Mul<Mat34> for Mat33 { type Output = Mat34; #[verifier::external_body] fn mul(self, o: Mat34) -> (r: Mat34) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(0, 3) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 3)), fmul(self.at(0, 1), o.at(1, 3))), fmul(self.at(0, 2), o.at(2, 3))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(1, 3) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 3)), fmul(self.at(1, 1), o.at(1, 3))), fmul(self.at(1, 2), o.at(2, 3))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))), r.at(2, 3) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 3)), fmul(self.at(2, 1), o.at(1, 3))), fmul(self.at(2, 2), o.at(2, 3))) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Mat34> for Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat34) -> bool { true } open spec fn mul_spec(self, o: Mat34) -> Mat34 { arbitrary() } }
impl<'a> core::ops::Mul<Mat34> for &'a Mat33 { type Output = Mat34; #[verifier::external_body] fn mul(self, o: Mat34) -> (r: Mat34) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(0, 3) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 3)), fmul(self.at(0, 1), o.at(1, 3))), fmul(self.at(0, 2), o.at(2, 3))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(1, 3) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 3)), fmul(self.at(1, 1), o.at(1, 3))), fmul(self.at(1, 2), o.at(2, 3))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))), r.at(2, 3) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 3)), fmul(self.at(2, 1), o.at(1, 3))), fmul(self.at(2, 2), o.at(2, 3))) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<Mat34> for &'a Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Mat34) -> bool { true } open spec fn mul_spec(self, o: Mat34) -> Mat34 { arbitrary() } }
impl<'b> core::ops::Mul<&'b Mat34> for Mat33 { type Output = Mat34; #[verifier::external_body] fn mul(self, o: &'b Mat34) -> (r: Mat34) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(0, 3) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 3)), fmul(self.at(0, 1), o.at(1, 3))), fmul(self.at(0, 2), o.at(2, 3))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(1, 3) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 3)), fmul(self.at(1, 1), o.at(1, 3))), fmul(self.at(1, 2), o.at(2, 3))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))), r.at(2, 3) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 3)), fmul(self.at(2, 1), o.at(1, 3))), fmul(self.at(2, 2), o.at(2, 3))) { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat34> for Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat34) -> bool { true } open spec fn mul_spec(self, o: &'b Mat34) -> Mat34 { arbitrary() } }
impl<'a, 'b> core::ops::Mul<&'b Mat34> for &'a Mat33 { type Output = Mat34; #[verifier::external_body] fn mul(self, o: &'b Mat34) -> (r: Mat34) ensures r.at(0, 0) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 0)), fmul(self.at(0, 1), o.at(1, 0))), fmul(self.at(0, 2), o.at(2, 0))), r.at(0, 1) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 1)), fmul(self.at(0, 1), o.at(1, 1))), fmul(self.at(0, 2), o.at(2, 1))), r.at(0, 2) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 2)), fmul(self.at(0, 1), o.at(1, 2))), fmul(self.at(0, 2), o.at(2, 2))), r.at(0, 3) == fadd(fadd(fmul(self.at(0, 0), o.at(0, 3)), fmul(self.at(0, 1), o.at(1, 3))), fmul(self.at(0, 2), o.at(2, 3))), r.at(1, 0) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 0)), fmul(self.at(1, 1), o.at(1, 0))), fmul(self.at(1, 2), o.at(2, 0))), r.at(1, 1) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 1)), fmul(self.at(1, 1), o.at(1, 1))), fmul(self.at(1, 2), o.at(2, 1))), r.at(1, 2) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 2)), fmul(self.at(1, 1), o.at(1, 2))), fmul(self.at(1, 2), o.at(2, 2))), r.at(1, 3) == fadd(fadd(fmul(self.at(1, 0), o.at(0, 3)), fmul(self.at(1, 1), o.at(1, 3))), fmul(self.at(1, 2), o.at(2, 3))), r.at(2, 0) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 0)), fmul(self.at(2, 1), o.at(1, 0))), fmul(self.at(2, 2), o.at(2, 0))), r.at(2, 1) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 1)), fmul(self.at(2, 1), o.at(1, 1))), fmul(self.at(2, 2), o.at(2, 1))), r.at(2, 2) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 2)), fmul(self.at(2, 1), o.at(1, 2))), fmul(self.at(2, 2), o.at(2, 2))), r.at(2, 3) == fadd(fadd(fmul(self.at(2, 0), o.at(0, 3)), fmul(self.at(2, 1), o.at(1, 3))), fmul(self.at(2, 2), o.at(2, 3))) { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b Mat34> for &'a Mat33 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b Mat34) -> bool { true } open spec fn mul_spec(self, o: &'b Mat34) -> Mat34 { arbitrary() } }
