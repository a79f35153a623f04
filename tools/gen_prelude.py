"""Writes contracts/prelude.rs: trusted contracts of core, std, chrono, nalgebra and geo items the code uses."""
import os
HEAD = r'''
// Generated by tools/gen_prelude.py.  Trusted contracts for dependencies; every external_body item is an assumption.

// ---------- cloning, equality, ordering ----------
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub trait VEq { spec fn eqs(&self, o: &Self) -> bool; fn veq(&self, o: &Self) -> (b: bool) ensures b == self.eqs(o); }
impl<T: VEq> VEq for Option<T> { open spec fn eqs(&self, o: &Self) -> bool { match (self, o) { (Some(a), Some(b)) => a.eqs(b), (None, None) => true, _ => false } }
  fn veq(&self, o: &Self) -> (b: bool) { match (self, o) { (Some(a), Some(b)) => a.veq(b), (None, None) => true, _ => false } } }
impl<'a, T: VEq + ?Sized> VEq for &'a T { open spec fn eqs(&self, o: &Self) -> bool { (**self).eqs(*o) } fn veq(&self, o: &Self) -> (b: bool) { (**self).veq(*o) } }
impl<T: VEq, const N: usize> VEq for [T; N] { open spec fn eqs(&self, o: &Self) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] self@[i].eqs(&o@[i]) } #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) { unimplemented!() } }
impl<T: VEq> VEq for Vec<T> { open spec fn eqs(&self, o: &Self) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i].eqs(&o@[i]) } #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) { unimplemented!() } }
impl VEq for bool { open spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> (b: bool) { *self == *o } }
impl VEq for String { open spec fn eqs(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) { *self == *o } }
impl VEq for str { open spec fn eqs(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) { *self == *o } }
impl VEq for Ordering { open spec fn eqs(&self, o: &Self) -> bool { self == o } #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) { *self == *o } }
impl<A: VEq, B: VEq> VEq for (A, B) { open spec fn eqs(&self, o: &Self) -> bool { self.0.eqs(&o.0) && self.1.eqs(&o.1) } fn veq(&self, o: &Self) -> (b: bool) { let a = self.0.veq(&o.0); let b = self.1.veq(&o.1); a && b } }
pub trait VDebug { spec fn dbg(&self) -> Seq<char>; fn vdebug(&self) -> (r: String) ensures r@ == self.dbg(); }
pub trait VOrd { spec fn lts(&self, o: &Self) -> bool; spec fn les(&self, o: &Self) -> bool;
  fn vlt(&self, o: &Self) -> (b: bool) ensures b == self.lts(o);
  fn vle(&self, o: &Self) -> (b: bool) ensures b == self.les(o);
  fn vgt(&self, o: &Self) -> (b: bool) ensures b == o.lts(self);
  fn vge(&self, o: &Self) -> (b: bool) ensures b == o.les(self); }
impl<'a, T: VOrd> VOrd for &'a T { open spec fn lts(&self, o: &Self) -> bool { (**self).lts(*o) } open spec fn les(&self, o: &Self) -> bool { (**self).les(*o) }
  fn vlt(&self, o: &Self) -> (b: bool) { (**self).vlt(*o) } fn vle(&self, o: &Self) -> (b: bool) { (**self).vle(*o) } fn vgt(&self, o: &Self) -> (b: bool) { (**self).vgt(*o) } fn vge(&self, o: &Self) -> (b: bool) { (**self).vge(*o) } }
@INTS@
pub open spec fn ord_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub fn vis_gt(o: Ordering) -> (b: bool) ensures b == (o == Ordering::Greater) { match o { Ordering::Greater => true, _ => false } }
pub trait VOrdering: Sized { spec fn revs(&self) -> Ordering; spec fn thens(&self, o: Ordering) -> Ordering; fn vreverse(self) -> (r: Ordering) ensures r == self.revs(); fn then(self, o: Ordering) -> (r: Ordering) ensures r == self.thens(o);
  fn is_lt(self) -> (r: bool) ensures r == (self.revs() == Ordering::Greater); fn is_gt(self) -> (r: bool) ensures r == (self.revs() == Ordering::Less); fn is_eq(self) -> (r: bool) ensures r == (self.revs() == Ordering::Equal);
  fn is_le(self) -> (r: bool) ensures r == (self.revs() != Ordering::Less); fn is_ge(self) -> (r: bool) ensures r == (self.revs() != Ordering::Greater); }
impl VOrdering for Ordering { open spec fn revs(&self) -> Ordering { match self { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } } open spec fn thens(&self, o: Ordering) -> Ordering { match self { Ordering::Equal => o, s => *s } }
  fn vreverse(self) -> (r: Ordering) { match self { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
  fn then(self, o: Ordering) -> (r: Ordering) { match self { Ordering::Equal => o, s => s } }
  fn is_lt(self) -> (r: bool) { match self { Ordering::Less => true, _ => false } } fn is_gt(self) -> (r: bool) { match self { Ordering::Greater => true, _ => false } } fn is_eq(self) -> (r: bool) { match self { Ordering::Equal => true, _ => false } }
  fn is_le(self) -> (r: bool) { match self { Ordering::Greater => false, _ => true } } fn is_ge(self) -> (r: bool) { match self { Ordering::Less => false, _ => true } } }

// ---------- panics, macros, misc ----------
#[verifier::external_body] pub fn vpanic() -> (r: !) requires false { panic!() }
pub fn vassert(b: bool) requires b { }
#[verifier::external_body] pub fn vfmt() -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn vinto<A, B>(a: A) -> (r: B) { unimplemented!() }
pub trait VDefault: Sized { spec fn is_default(&self) -> bool; fn vdef() -> (r: Self) ensures r.is_default(); }
pub fn vdefault<T: VDefault>() -> (r: T) ensures r.is_default() { T::vdef() }
impl<T> VDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@.len() == 0 } fn vdef() -> (r: Self) { Vec::new() } }
impl<T> VDefault for Option<T> { open spec fn is_default(&self) -> bool { self is None } fn vdef() -> (r: Self) { None } }
impl VDefault for usize { open spec fn is_default(&self) -> bool { *self == 0 } fn vdef() -> (r: Self) { 0 } }
impl VDefault for bool { open spec fn is_default(&self) -> bool { !*self } fn vdef() -> (r: Self) { false } }
impl VDefault for String { open spec fn is_default(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn vdef() -> (r: Self) { String::new() } }
#[verifier::external_body] pub fn vtake<T: VDefault>(a: &mut T) -> (r: T) ensures r == *old(a), final(a).is_default() { unimplemented!() }
#[verifier::external_body] pub fn vreplace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }

// ---------- strings ----------
pub trait VStr { spec fn sv(&self) -> Seq<char>; fn vas_str<'a>(&'a self) -> (r: &'a str) ensures r@ == self.sv(); }
impl VStr for str { open spec fn sv(&self) -> Seq<char> { self@ } fn vas_str<'a>(&'a self) -> (r: &'a str) { self } }
impl VStr for String { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vas_str<'a>(&'a self) -> (r: &'a str) { self.as_str() } }
impl<'b, T: VStr + ?Sized> VStr for &'b T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } fn vas_str<'a>(&'a self) -> (r: &'a str) { (**self).vas_str() } }
#[verifier::external_body] pub fn vstreq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vstr_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait VStrOps { spec fn sv2(&self) -> Seq<char>; fn vto_string(&self) -> (r: String) ensures r@ == self.sv2(); fn vto_lowercase(&self) -> (r: String) ensures r@ == lower(self.sv2()); /* length in bytes */ fn vslen(&self) -> (n: usize) ensures n >= self.sv2().len(), n == 0 <==> self.sv2().len() == 0, (forall|i: int| 0 <= i < self.sv2().len() ==> (#[trigger] self.sv2()[i] as u32) < 128) ==> n == self.sv2().len(); }
impl<T: VStr + ?Sized> VStrOps for T { open spec fn sv2(&self) -> Seq<char> { self.sv() } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vto_lowercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vslen(&self) -> (n: usize) { unimplemented!() } }
pub trait VPushStr { spec fn pv(&self) -> Seq<char>; fn vpush_str(&mut self, s: &str) ensures final(self).pv() == old(self).pv() + s@; }
impl VPushStr for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vpush_str(&mut self, s: &str) { self.push_str(s) } }
/// Two texts with the same characters are the same value.
pub axiom fn ax_str_ext() ensures forall|a: &str, b: &str| #![trigger a@, b@] a@ == b@ ==> a == b;
pub open spec fn lower_ascii(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as u8 as char } else { c } }
pub axiom fn ax_lower(s: Seq<char>) ensures (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128) ==> lower(s).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] lower(s)[i] == lower_ascii(s[i]);
/// std::fmt::Formatter: the text written so far.
#[verifier::external_body] pub struct VFmt { v: u8 }
impl View for VFmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VFmt { /* a formatter over an empty buffer, and its contents */ #[verifier::external_body] pub fn vnew() -> (r: VFmt) ensures r@ == Seq::<char>::empty() { unimplemented!() } #[verifier::external_body] pub fn vdone(self) -> (r: String) ensures r@ == self@ { unimplemented!() } #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: Result<(), VErr>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() } }

// ---------- sequences ----------
pub trait VSeq { type E; spec fn vs(&self) -> Seq<Self::E>;
  fn vlen(&self) -> (n: usize) ensures n == self.vs().len();
  fn vat(&self, i: usize) -> (r: &Self::E) requires i < self.vs().len() ensures *r == self.vs()[i as int];
  fn vis_empty(&self) -> (b: bool) ensures b == (self.vs().len() == 0);
  fn vfirst(&self) -> (r: Option<&Self::E>) ensures self.vs().len() == 0 ==> r is None, self.vs().len() > 0 ==> r is Some && *r->0 == self.vs()[0];
  fn vlast(&self) -> (r: Option<&Self::E>) ensures self.vs().len() == 0 ==> r is None, self.vs().len() > 0 ==> r is Some && *r->0 == self.vs().last();
  fn vget(&self, i: usize) -> (r: Option<&Self::E>) ensures i >= self.vs().len() ==> r is None, i < self.vs().len() ==> r is Some && *r->0 == self.vs()[i as int];
  fn vcontains(&self, x: &Self::E) -> (b: bool) where Self::E: VEq ensures b == seq_has(self.vs(), *x);
  fn vto_vec(&self) -> (r: Vec<Self::E>) ensures r@ == self.vs();
  fn vslice(&self, a: usize, b: usize) -> (r: &[Self::E]) requires a <= b <= self.vs().len() ensures r@ == self.vs().subrange(a as int, b as int);
  fn vslice_from(&self, a: usize) -> (r: &[Self::E]) requires a <= self.vs().len() ensures r@ == self.vs().subrange(a as int, self.vs().len() as int);
}
pub open spec fn seq_has<T: VEq>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].eqs(&x) }
@VSEQ@
pub trait VAsSlice: VSeq { fn vas_slice(&self) -> (r: &[Self::E]) ensures r@ == self.vs(); }
impl<S: VSeq + ?Sized> VAsSlice for S { #[verifier::external_body] fn vas_slice(&self) -> (r: &[S::E]) { unimplemented!() } }
pub fn vslice_ok(a: usize, b: usize, n: usize) requires a <= b <= n { }
pub open spec fn vrev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn vskip<T>(s: Seq<T>, k: int) -> Seq<T> { if k <= s.len() { s.subrange(k, s.len() as int) } else { Seq::empty() } }
#[verifier::external_body] pub fn vec_from_elem<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
pub trait VVec<T> { spec fn vv(&self) -> Seq<T>; }
impl<T> VVec<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ } }
pub trait VVecM<T> : VVec<T> {
  fn vappend(&mut self, o: &mut Vec<T>) ensures final(self).vv() == old(self).vv() + old(o)@, final(o)@.len() == 0;
  fn vextend(&mut self, o: &[T]) ensures final(self).vv() == old(self).vv() + o@;
  fn vreverse(&mut self) ensures final(self).vv() == vrev(old(self).vv());
  fn vsort_by<C: Fn(&T, &T) -> Ordering>(&mut self, c: C) requires forall|i: int, j: int| 0 <= i < old(self).vv().len() && 0 <= j < old(self).vv().len() ==> #[trigger] c.requires((&old(self).vv()[i], &old(self).vv()[j])), cmp_ok(c) ensures sorted_perm(c, old(self).vv(), final(self).vv()), stable_perm(c, old(self).vv(), final(self).vv());
  fn vsort_unstable_by<C: Fn(&T, &T) -> Ordering>(&mut self, c: C) requires forall|i: int, j: int| 0 <= i < old(self).vv().len() && 0 <= j < old(self).vv().len() ==> #[trigger] c.requires((&old(self).vv()[i], &old(self).vv()[j])), cmp_ok(c) ensures sorted_perm(c, old(self).vv(), final(self).vv());
  fn vsort_by_key<K: VKey, C: Fn(&T) -> K>(&mut self, c: C) requires forall|a: &T| #[trigger] c.requires((a,)) ensures exists|pi: Seq<int>| #[trigger] perm(old(self).vv(), final(self).vv(), pi), final(self).vv().len() == old(self).vv().len(), forall|i: int, j: int| 0 <= i < j < final(self).vv().len() ==> le_key(c, #[trigger] final(self).vv()[i], #[trigger] final(self).vv()[j]);
  fn vretain<C: Fn(&T) -> bool>(&mut self, c: C) requires forall|a: &T| #[trigger] c.requires((a,)) ensures final(self).vv() == old(self).vv().filter(|x: T| c.ensures((&x,), true));
}
impl<T> VVecM<T> for Vec<T> {
  #[verifier::external_body] fn vappend(&mut self, o: &mut Vec<T>) { unimplemented!() }
  #[verifier::external_body] fn vextend(&mut self, o: &[T]) { unimplemented!() }
  #[verifier::external_body] fn vreverse(&mut self) { unimplemented!() }
  #[verifier::external_body] fn vsort_by<C: Fn(&T, &T) -> Ordering>(&mut self, c: C) { unimplemented!() }
  #[verifier::external_body] fn vsort_unstable_by<C: Fn(&T, &T) -> Ordering>(&mut self, c: C) { unimplemented!() }
  #[verifier::external_body] fn vsort_by_key<K: VKey, C: Fn(&T) -> K>(&mut self, c: C) { unimplemented!() }
  #[verifier::external_body] fn vretain<C: Fn(&T) -> bool>(&mut self, c: C) { unimplemented!() }
}
pub trait VKey { spec fn kle(&self, o: &Self) -> bool; }
pub open spec fn le_key<T, K: VKey, C: Fn(&T) -> K>(c: C, a: T, b: T) -> bool { exists|x: K, y: K| #[trigger] c.ensures((&a,), x) && #[trigger] c.ensures((&b,), y) && x.kle(&y) }
pub open spec fn le_cmp<T, C: Fn(&T, &T) -> Ordering>(c: C, a: T, b: T) -> bool { exists|o: Ordering| #[trigger] c.ensures((&a, &b), o) && o != Ordering::Greater }
pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>, pi: Seq<int>) -> bool { b.len() == a.len() && pi.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] pi[i] < a.len() && b[i] == a[pi[i]]) && (forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] pi[i] != #[trigger] pi[j]) }
pub open spec fn sorted_perm<T, C: Fn(&T, &T) -> Ordering>(c: C, a: Seq<T>, b: Seq<T>) -> bool { (exists|pi: Seq<int>| #[trigger] perm(a, b, pi)) && b.len() == a.len() && forall|i: int, j: int| 0 <= i < j < b.len() ==> le_cmp(c, #[trigger] b[i], #[trigger] b[j]) }
/// A stable sort: elements out of their original order are strictly ordered.
pub open spec fn stable_perm<T, C: Fn(&T, &T) -> Ordering>(c: C, a: Seq<T>, b: Seq<T>) -> bool { exists|pi: Seq<int>| #[trigger] perm(a, b, pi) && forall|i: int, j: int| 0 <= i < j < b.len() && #[trigger] pi[i] > #[trigger] pi[j] ==> c.ensures((&b[i], &b[j]), Ordering::Less) }
/// The comparison closure is antisymmetric: needed for the sort to be defined.
pub open spec fn cmp_ok<T, C: Fn(&T, &T) -> Ordering>(c: C) -> bool {
  (forall|a: T, b: T, o: Ordering, p: Ordering| #[trigger] c.ensures((&a, &b), o) && #[trigger] c.ensures((&b, &a), p) ==> (o == Ordering::Less <==> p == Ordering::Greater))
  && (forall|a: T, b: T, d: T, o: Ordering, p: Ordering, q: Ordering| #[trigger] c.ensures((&a, &b), o) && #[trigger] c.ensures((&b, &d), p) && #[trigger] c.ensures((&a, &d), q) && o != Ordering::Greater && p != Ordering::Greater ==> q != Ordering::Greater) }

// ---------- hex ----------
pub open spec fn hex_val(c: char) -> Option<int> { if '0' <= c && c <= '9' { Some(c as int - '0' as int) } else if 'a' <= c && c <= 'f' { Some(c as int - 'a' as int + 10) } else if 'A' <= c && c <= 'F' { Some(c as int - 'A' as int + 10) } else { None } }
pub open spec fn hex_chr(v: int) -> char { if v < 10 { (v + '0' as int) as u8 as char } else { (v - 10 + 'a' as int) as u8 as char } }
/// The bytes a hexadecimal text denotes, if it is one (two digits of either case per byte).
pub open spec fn hex_dec(s: Seq<char>) -> Option<Seq<u8>> { if s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> hex_val(#[trigger] s[i]) is Some { Some(Seq::new(s.len() / 2, |i: int| (hex_val(s[2 * i])->0 * 16 + hex_val(s[2 * i + 1])->0) as u8)) } else { None } }
pub open spec fn hex_enc(b: Seq<u8>) -> Seq<char> { Seq::new(2 * b.len(), |i: int| hex_chr(if i % 2 == 0 { b[i / 2] as int / 16 } else { b[i / 2] as int % 16 })) }
#[verifier::external_body] pub fn vhex_decode<S: VStr + ?Sized>(s: &S) -> (r: Result<Vec<u8>, VErr>) ensures r is Ok <==> hex_dec(s.sv()) is Some, r is Ok ==> r->Ok_0@ == hex_dec(s.sv())->0 { unimplemented!() }
#[verifier::external_body] pub fn vhex_encode<S: VSeq<E = u8> + ?Sized>(b: &S) -> (r: String) ensures r@ == hex_enc(b.vs()) { unimplemented!() }
#[verifier::external_body] pub fn vtry_arr<const N: usize, S: VSeq<E = u8> + ?Sized>(s: &S) -> (r: Result<[u8; N], VErr>) ensures r is Ok <==> s.vs().len() == N, r is Ok ==> r->Ok_0@ == s.vs() { unimplemented!() }
pub trait VTryArr: VSeq<E = u8> { fn vtry_into<const N: usize>(&self) -> (r: Result<[u8; N], VErr>) ensures r is Ok <==> self.vs().len() == N, r is Ok ==> r->Ok_0@ == self.vs(); }
impl<S: VSeq<E = u8> + ?Sized> VTryArr for S { #[verifier::external_body] fn vtry_into<const N: usize>(&self) -> (r: Result<[u8; N], VErr>) { unimplemented!() } }
pub trait VUnwR<T> { spec fn u_ok(&self) -> bool; spec fn u_val(&self) -> T; fn vunwrap(self) -> (r: T) where Self: Sized requires self.u_ok() ensures r == self.u_val(); }
impl<T, E> VUnwR<T> for Result<T, E> { open spec fn u_ok(&self) -> bool { *self is Ok } open spec fn u_val(&self) -> T { self->Ok_0 } #[verifier::external_body] fn vunwrap(self) -> (r: T) { unimplemented!() } }

// ---------- iterators passed on as values ----------
/// `rest`: the items still to come.
pub trait VIt { type Item; spec fn rest(&self) -> Seq<Self::Item>;
  fn next(&mut self) -> (r: Option<Self::Item>) ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(), old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1); }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct SliceIt<'a, T> { v: &'a T }
impl<'a, T> VIt for SliceIt<'a, T> { type Item = &'a T; uninterp spec fn rest(&self) -> Seq<&'a T>; #[verifier::external_body] fn next(&mut self) -> (r: Option<&'a T>) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct KeysIt<'a, K, V> { k: &'a K, v: &'a V }
impl<'a, K, V> VIt for KeysIt<'a, K, V> { type Item = &'a K; uninterp spec fn rest(&self) -> Seq<&'a K>; #[verifier::external_body] fn next(&mut self) -> (r: Option<&'a K>) { unimplemented!() } }
pub open spec fn refs_of<'a, T>(r: Seq<&'a T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i] }
/// Each key of the map exactly once.
pub open spec fn keys_of<'a, K, V>(r: Seq<&'a K>, m: Map<K, V>) -> bool { (forall|i: int| 0 <= i < r.len() ==> m.contains_key(*(#[trigger] r[i]))) && (forall|i: int, j: int| 0 <= i < j < r.len() ==> *(#[trigger] r[i]) != *(#[trigger] r[j])) && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]) == k) }
pub trait VSIt: VSeq { fn vsit<'a>(&'a self) -> (r: SliceIt<'a, Self::E>) ensures refs_of(r.rest(), self.vs()); }
impl<S: VSeq + ?Sized> VSIt for S { #[verifier::external_body] fn vsit<'a>(&'a self) -> (r: SliceIt<'a, S::E>) { unimplemented!() } }
#[verifier::external_body] pub struct ProgressBar { v: u8 }
impl ProgressBar { #[verifier::external_body] pub fn new(n: u64) -> (r: Self) { unimplemented!() } }

// ---------- iteration by value ----------
/// `vok`: no step of the iteration panics.
pub trait VNext { type It; spec fn vns(&self) -> Seq<Self::It>; open spec fn vok(&self) -> bool { true } }
#[verifier::external_body] pub fn vnlen<S: VNext>(s: &S) -> (n: usize) requires s.vok() ensures n == s.vns().len() { unimplemented!() }
#[verifier::external_body] pub fn vnx<S: VNext>(s: &S, i: usize) -> (r: S::It) requires i < s.vns().len() ensures r == s.vns()[i as int] { unimplemented!() }
impl<T> VNext for Vec<T> { type It = T; open spec fn vns(&self) -> Seq<T> { self@ } }
impl<'a, T> VNext for &'a Vec<T> { type It = &'a T; open spec fn vns(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<'a, T> VNext for &'a [T] { type It = &'a T; open spec fn vns(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<T, const N: usize> VNext for [T; N] { type It = T; open spec fn vns(&self) -> Seq<T> { self@ } }
impl<'a, T, const N: usize> VNext for &'a [T; N] { type It = &'a T; open spec fn vns(&self) -> Seq<&'a T> { Seq::new(N as nat, |i: int| &self@[i]) } }
impl<T> VNext for Option<T> { type It = T; open spec fn vns(&self) -> Seq<T> { match self { Some(x) => seq![*x], None => Seq::empty() } } }

// ---------- std::collections::HashMap ----------
/// The key a borrowed form stands for (Borrow).
pub trait VQ<K> { spec fn vq(&self) -> K; }
impl<K> VQ<K> for K { open spec fn vq(&self) -> K { *self } }
impl<'a> VQ<&'a str> for str { uninterp spec fn vq(&self) -> &'a str; }
impl VQ<String> for str { uninterp spec fn vq(&self) -> String; }
pub axiom fn ax_vq() ensures forall|s: &str| #![trigger VQ::<&str>::vq(s)] VQ::<&str>::vq(s) == s, forall|s: &str| #![trigger VQ::<String>::vq(s)] VQ::<String>::vq(s)@ == s@;

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HMap<K, V> { m: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HMap<K, V> {
  /// the order in which this map is iterated
  pub uninterp spec fn en(&self) -> Seq<(K, V)>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.contains_key(k), r is Some ==> r->0 == old(self)@[k] { unimplemented!() }
  #[verifier::external_body] pub fn get<'a, Q: VQ<K> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>) ensures r is Some <==> self@.contains_key(k.vq()), r is Some ==> *r->0 == self@[k.vq()] { unimplemented!() }
  #[verifier::external_body] pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>) ensures r is Some <==> old(self)@.contains_key(*k), r is None ==> final(self)@ == old(self)@, r is Some ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key<Q: VQ<K> + ?Sized>(&self, k: &Q) -> (b: bool) ensures b == self@.contains_key(k.vq()) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains_key(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
  #[verifier::external_body] pub fn ventry<'a>(&'a mut self, k: K, d: V) -> (r: &'a mut V) ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
  #[verifier::external_body] pub fn vlen(&self) -> (n: usize) ensures n == self.en().len() { unimplemented!() }
  #[verifier::external_body] pub fn vis_empty(&self) -> (b: bool) ensures b == (self.en().len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn vkit<'a>(&'a self) -> (r: KeysIt<'a, K, V>) ensures keys_of(r.rest(), self@) { unimplemented!() }
  #[verifier::external_body] pub fn vkeys<'a>(&'a self) -> (r: Vec<&'a K>) ensures r@.len() == self.en().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.en()[i].0 { unimplemented!() }
  #[verifier::external_body] pub fn vvalues<'a>(&'a self) -> (r: Vec<&'a V>) ensures r@.len() == self.en().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.en()[i].1 { unimplemented!() }
  #[verifier::external_body] pub fn vinto_keys(self) -> (r: Vec<K>) ensures r@.len() == self.en().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self.en()[i].0 { unimplemented!() }
  #[verifier::external_body] pub fn vinto_values(self) -> (r: Vec<V>) ensures r@.len() == self.en().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self.en()[i].1 { unimplemented!() }
}
/// Iteration visits every entry exactly once; a map has fewer than usize::MAX entries.
pub broadcast axiom fn ax_en<K, V>(m: HMap<K, V>) ensures #![trigger m.en()] m.en().len() < usize::MAX,
  forall|i: int| 0 <= i < m.en().len() ==> m@.contains_key((#[trigger] m.en()[i]).0) && m@[m.en()[i].0] == m.en()[i].1,
  forall|i: int, j: int| 0 <= i < j < m.en().len() ==> (#[trigger] m.en()[i]).0 != (#[trigger] m.en()[j]).0,
  forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < m.en().len() && (#[trigger] m.en()[i]).0 == k;
/// The values paired with key `k`, in order.
pub open spec fn picks<K, V>(v: Seq<(K, V)>, k: K) -> Seq<V> decreases v.len() { if v.len() == 0 { Seq::<V>::empty() } else if v.last().0 == k { picks(v.drop_last(), k).push(v.last().1) } else { picks(v.drop_last(), k) } }
#[verifier::external_body] pub fn vgroup<K, V>(v: Vec<(K, V)>) -> (r: HMap<K, Vec<V>>) ensures forall|k: K| #[trigger] r@.contains_key(k) <==> picks(v@, k).len() > 0, forall|k: K| #[trigger] r@.contains_key(k) ==> r@[k]@ == picks(v@, k) { unimplemented!() }
impl<K, V> VNext for HMap<K, V> { type It = (K, V); open spec fn vns(&self) -> Seq<(K, V)> { self.en() } }
pub open spec fn vents<'a, K, V>(h: &'a HMap<K, V>) -> Seq<(&'a K, &'a V)> { VNext::vns(&h) }
impl<'a, K, V> VNext for &'a HMap<K, V> { type It = (&'a K, &'a V); open spec fn vns(&self) -> Seq<(&'a K, &'a V)> { Seq::new(self.en().len(), |i: int| (&self.en()[i].0, &self.en()[i].1)) } }
impl<'a, K, V> core::ops::Index<&'a K> for HMap<K, V> { type Output = V; #[verifier::external_body] fn index(&self, k: &'a K) -> (r: &V) ensures *r == self@[*k] { unimplemented!() } }
impl<'a, K, V> vstd::std_specs::core::IndexSpecImpl<&'a K> for HMap<K, V> { open spec fn index_req(&self, k: &&'a K) -> bool { self@.contains_key(**k) } }

// ---------- f64 ----------
/// f64.  `ok`: finite; `rv`: its real value; operations on finite values are exact (rounding and overflow idealised).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { v: f64 }
impl F { /// -1, 0, 1: negative infinity, finite (or NaN), positive infinity
  pub uninterp spec fn fi(self) -> int; pub uninterp spec fn rv(self) -> real; pub uninterp spec fn ok(self) -> bool; pub uninterp spec fn nan_s(self) -> bool; }
pub uninterp spec fn flt(a: F, b: F) -> bool;
pub uninterp spec fn fle(a: F, b: F) -> bool;
pub uninterp spec fn feq(a: F, b: F) -> bool;
pub open spec fn xlt(a: F, b: F) -> bool { !a.nan_s() && !b.nan_s() && (a.fi() < b.fi() || (a.fi() == 0 && b.fi() == 0 && a.rv() < b.rv())) }
pub open spec fn xeq(a: F, b: F) -> bool { !a.nan_s() && !b.nan_s() && a.fi() == b.fi() && (a.fi() == 0 ==> a.rv() == b.rv()) }
pub broadcast axiom fn ax_flt(a: F, b: F) ensures #![trigger flt(a, b)] flt(a, b) == xlt(a, b), -1 <= a.fi() <= 1, -1 <= b.fi() <= 1, a.ok() == (!a.nan_s() && a.fi() == 0), b.ok() == (!b.nan_s() && b.fi() == 0);
pub broadcast axiom fn ax_fle(a: F, b: F) ensures #![trigger fle(a, b)] fle(a, b) == (xlt(a, b) || xeq(a, b)), -1 <= a.fi() <= 1, -1 <= b.fi() <= 1, a.ok() == (!a.nan_s() && a.fi() == 0), b.ok() == (!b.nan_s() && b.fi() == 0);
pub broadcast axiom fn ax_feq(a: F, b: F) ensures #![trigger feq(a, b)] feq(a, b) == xeq(a, b), a.ok() == (!a.nan_s() && a.fi() == 0), b.ok() == (!b.nan_s() && b.fi() == 0);
pub broadcast axiom fn ax_nan(a: F) ensures #![trigger a.nan_s()] a.ok() ==> !a.nan_s();
impl VEq for F { open spec fn eqs(&self, o: &Self) -> bool { feq(*self, *o) } #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) { unimplemented!() } }
impl VOrd for F { open spec fn lts(&self, o: &Self) -> bool { flt(*self, *o) } open spec fn les(&self, o: &Self) -> bool { fle(*self, *o) }
  #[verifier::external_body] fn vlt(&self, o: &Self) -> (b: bool) { unimplemented!() } #[verifier::external_body] fn vle(&self, o: &Self) -> (b: bool) { unimplemented!() } #[verifier::external_body] fn vgt(&self, o: &Self) -> (b: bool) { unimplemented!() } #[verifier::external_body] fn vge(&self, o: &Self) -> (b: bool) { unimplemented!() } }
@FOPS@
pub uninterp spec fn s_abs(a: F) -> F; pub uninterp spec fn s_sqrt(a: F) -> F; pub uninterp spec fn s_atan2(a: F, b: F) -> F; pub uninterp spec fn s_asin(a: F) -> F; pub uninterp spec fn s_atan(a: F) -> F; pub uninterp spec fn s_acos(a: F) -> F; pub uninterp spec fn s_powi(a: F, n: i32) -> F; pub uninterp spec fn s_min(a: F, b: F) -> F; pub uninterp spec fn s_max(a: F, b: F) -> F;
pub uninterp spec fn r_sin(a: real) -> real; pub uninterp spec fn r_cos(a: real) -> real; pub uninterp spec fn r_pi() -> real; pub uninterp spec fn r_hyp(a: real, b: real) -> real;
pub broadcast axiom fn ax_abs(a: F) ensures #![trigger s_abs(a)] a.ok() ==> s_abs(a).ok() && s_abs(a).rv() == (if a.rv() < 0real { -a.rv() } else { a.rv() }), s_abs(a).nan_s() == a.nan_s(), s_abs(a).fi() == (if a.fi() < 0 { -a.fi() } else { a.fi() });
pub broadcast axiom fn ax_sqrt(a: F) ensures #![trigger s_sqrt(a)] a.ok() && a.rv() >= 0real ==> s_sqrt(a).ok() && s_sqrt(a).rv() >= 0real && s_sqrt(a).rv() * s_sqrt(a).rv() == a.rv();
pub broadcast axiom fn ax_fmin(a: F, b: F) ensures #![trigger s_min(a, b)] a.ok() && b.ok() ==> s_min(a, b).ok() && s_min(a, b).rv() == (if a.rv() < b.rv() { a.rv() } else { b.rv() }), xlt(a, b) ==> s_min(a, b) == a, xlt(b, a) ==> s_min(a, b) == b, a.nan_s() ==> s_min(a, b) == b, b.nan_s() ==> s_min(a, b) == a, a.ok() == (!a.nan_s() && a.fi() == 0), b.ok() == (!b.nan_s() && b.fi() == 0);
pub broadcast axiom fn ax_fmax(a: F, b: F) ensures #![trigger s_max(a, b)] a.ok() && b.ok() ==> s_max(a, b).ok() && s_max(a, b).rv() == (if a.rv() > b.rv() { a.rv() } else { b.rv() }), xlt(a, b) ==> s_max(a, b) == b, xlt(b, a) ==> s_max(a, b) == a, a.nan_s() ==> s_max(a, b) == b, b.nan_s() ==> s_max(a, b) == a, a.ok() == (!a.nan_s() && a.fi() == 0), b.ok() == (!b.nan_s() && b.fi() == 0);
pub broadcast axiom fn ax_powi(a: F, n: i32) ensures #![trigger s_powi(a, n)] a.ok() && n == 2 ==> s_powi(a, n).ok() && s_powi(a, n).rv() == a.rv() * a.rv(), a.ok() && n == 1 ==> s_powi(a, n).ok() && s_powi(a, n).rv() == a.rv();
pub broadcast group grp_f { ax_flt, ax_fle, ax_feq, ax_nan, ax_abs, ax_sqrt, ax_fmin, ax_fmax, ax_powi, ax_en, ax_total }
pub axiom fn ax_pi() ensures 3real < r_pi() < 4real;
pub axiom fn ax_hyp(a: real, b: real) requires a != 0real || b != 0real ensures r_hyp(a, b) > 0real, r_hyp(a, b) * r_hyp(a, b) == a * a + b * b;
/// atan2 gives the angle of the point (b, a) in (-pi, pi].
pub axiom fn ax_atan2(a: F, b: F) requires a.ok(), b.ok(), a.rv() != 0real || b.rv() != 0real
  ensures s_atan2(a, b).ok(), -r_pi() <= s_atan2(a, b).rv() <= r_pi(),
    r_hyp(a.rv(), b.rv()) > 0real, r_hyp(a.rv(), b.rv()) * r_hyp(a.rv(), b.rv()) == a.rv() * a.rv() + b.rv() * b.rv(),
    r_hyp(a.rv(), b.rv()) * r_sin(s_atan2(a, b).rv()) == a.rv(), r_hyp(a.rv(), b.rv()) * r_cos(s_atan2(a, b).rv()) == b.rv();
pub axiom fn ax_atan2_range(a: F, b: F) requires a.ok(), b.ok() ensures s_atan2(a, b).ok(), -r_pi() <= s_atan2(a, b).rv() <= r_pi();
pub axiom fn ax_asin(a: F) requires a.ok(), -1real <= a.rv() <= 1real ensures s_asin(a).ok(), -r_pi() <= 2real * s_asin(a).rv() <= r_pi(), r_sin(s_asin(a).rv()) == a.rv(), r_cos(s_asin(a).rv()) >= 0real;
/// atan gives the angle of the point (1, a) in (-pi/2, pi/2).
pub axiom fn ax_atan(a: F) requires a.ok() ensures s_atan(a).ok(), -r_pi() < 2real * s_atan(a).rv() < r_pi(), a.rv() >= 0real ==> s_atan(a).rv() >= 0real, a.rv() <= 0real ==> s_atan(a).rv() <= 0real, r_cos(s_atan(a).rv()) > 0real, r_sin(s_atan(a).rv()) == a.rv() * r_cos(s_atan(a).rv());
pub axiom fn ax_acos(a: F) requires a.ok(), -1real <= a.rv() <= 1real ensures s_acos(a).ok(), 0real <= s_acos(a).rv() <= r_pi(), r_cos(s_acos(a).rv()) == a.rv(), r_sin(s_acos(a).rv()) >= 0real;
pub axiom fn ax_trig0() ensures r_sin(0real) == 0real, r_cos(0real) == 1real, r_sin(r_pi()) == 0real, r_cos(r_pi()) == -1real;
/// sin(pi/2) = 1, cos(pi/2) = 0
pub axiom fn ax_trig_half(h: real) requires 2real * h == r_pi() ensures r_sin(h) == 1real, r_cos(h) == 0real;
pub axiom fn ax_trig_neg(a: real) ensures r_sin(-a) == -r_sin(a), r_cos(-a) == r_cos(a);
pub axiom fn ax_trig_add(a: real, b: real) ensures r_sin(a + b) == r_sin(a) * r_cos(b) + r_cos(a) * r_sin(b), r_cos(a + b) == r_cos(a) * r_cos(b) - r_sin(a) * r_sin(b);
/// An angle in [-pi, pi] is determined by its sine and cosine, up to the sign of pi.
pub axiom fn ax_trig_inj(a: real, b: real) requires -r_pi() <= a <= r_pi(), -r_pi() <= b <= r_pi(), r_sin(a) == r_sin(b), r_cos(a) == r_cos(b) ensures a == b || (a == r_pi() && b == -r_pi()) || (a == -r_pi() && b == r_pi());
pub axiom fn ax_cos_pos(a: real) requires -r_pi() < 2real * a < r_pi() ensures r_cos(a) > 0real;
pub axiom fn ax_pyth(t: real) ensures r_sin(t) * r_sin(t) + r_cos(t) * r_cos(t) == 1real;
pub uninterp spec fn s_nan() -> F; pub uninterp spec fn s_fmaxv() -> F; pub uninterp spec fn s_fminv() -> F; pub uninterp spec fn s_inf() -> F; pub uninterp spec fn s_ninf() -> F; pub uninterp spec fn s_eps() -> F; pub uninterp spec fn s_pi() -> F;
impl F {
  #[verifier::external_body] pub fn nan() -> (r: F) ensures r == s_nan(), r.nan_s(), !r.ok() { unimplemented!() }
  #[verifier::external_body] pub fn max() -> (r: F) ensures r == s_fmaxv(), !r.ok(), !r.nan_s(), r.fi() == 1 { unimplemented!() }
  #[verifier::external_body] pub fn min() -> (r: F) ensures r == s_fminv(), !r.ok(), !r.nan_s(), r.fi() == -1 { unimplemented!() }
  #[verifier::external_body] pub fn infinity() -> (r: F) ensures r == s_inf(), !r.ok(), !r.nan_s(), r.fi() == 1 { unimplemented!() }
  #[verifier::external_body] pub fn neg_infinity() -> (r: F) ensures r == s_ninf(), !r.ok(), !r.nan_s(), r.fi() == -1 { unimplemented!() }
  #[verifier::external_body] pub fn epsilon() -> (r: F) ensures r == s_eps(), r.ok(), 0real < r.rv() < 1real { unimplemented!() }
  #[verifier::external_body] pub fn pi() -> (r: F) ensures r == s_pi(), r.ok(), r.rv() == r_pi(), 3real < r_pi() < 4real { unimplemented!() }
  #[verifier::external_body] pub fn vabs(self) -> (r: F) ensures r == s_abs(self) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: F) ensures r == s_sqrt(self) { unimplemented!() }
  #[verifier::external_body] pub fn atan2(self, o: F) -> (r: F) ensures r == s_atan2(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn atan(self) -> (r: F) ensures r == s_atan(self) { unimplemented!() }
  #[verifier::external_body] pub fn acos(self) -> (r: F) ensures r == s_acos(self) { unimplemented!() }
  #[verifier::external_body] pub fn rem_euclid(self, o: F) -> (r: F) ensures self.ok() && o.ok() && o.rv() > 0real ==> r.ok() && 0real <= r.rv() < o.rv() && exists|k: int| #[trigger] r_mul(k, o.rv()) + r.rv() == self.rv() { unimplemented!() }
  #[verifier::external_body] pub fn mul_add(self, a: F, b: F) -> (r: F) ensures r == fadd(fmul(self, a), b) { unimplemented!() }
  #[verifier::external_body] pub fn recip(self) -> (r: F) ensures self.ok() && self.rv() != 0real ==> r.ok() && r.rv() == 1real / self.rv() { unimplemented!() }
  #[verifier::external_body] pub fn asin(self) -> (r: F) ensures r == s_asin(self) { unimplemented!() }
  #[verifier::external_body] pub fn sin(self) -> (r: F) ensures self.ok() ==> r.ok() && r.rv() == r_sin(self.rv()) { unimplemented!() }
  #[verifier::external_body] pub fn cos(self) -> (r: F) ensures self.ok() ==> r.ok() && r.rv() == r_cos(self.rv()) { unimplemented!() }
  #[verifier::external_body] pub fn hypot(self, o: F) -> (r: F) ensures self.ok() && o.ok() ==> r.ok() && r.rv() >= 0real && r.rv() * r.rv() == self.rv() * self.rv() + o.rv() * o.rv() { unimplemented!() }
  #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F) ensures r == s_powi(self, n) { unimplemented!() }
  #[verifier::external_body] pub fn vmin(self, o: F) -> (r: F) ensures r == s_min(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn vmax(self, o: F) -> (r: F) ensures r == s_max(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn clamp(self, a: F, b: F) -> (r: F) requires a.ok(), b.ok(), a.rv() <= b.rv() ensures self.ok() ==> r.ok() && r.rv() == (if self.rv() < a.rv() { a.rv() } else if self.rv() > b.rv() { b.rv() } else { self.rv() }) { unimplemented!() }
  #[verifier::external_body] pub fn is_nan(self) -> (b: bool) ensures b == self.nan_s() { unimplemented!() }
  #[verifier::external_body] pub fn is_finite(self) -> (b: bool) ensures b == self.ok() { unimplemented!() }
  #[verifier::external_body] pub fn vpartial_cmp(&self, o: &F) -> (r: Option<Ordering>) ensures r is None <==> !flt(*self, *o) && !flt(*o, *self) && !feq(*self, *o), r is Some ==> (r->0 == Ordering::Less <==> flt(*self, *o)) && (r->0 == Ordering::Greater <==> flt(*o, *self)) && (r->0 == Ordering::Equal <==> feq(*self, *o)), self.ok() && o.ok() ==> r is Some { unimplemented!() }
  #[verifier::external_body] pub fn vtotal_cmp(&self, o: &F) -> (r: Ordering) ensures r == s_total(*self, *o) { unimplemented!() }
}
pub open spec fn r_mul(k: int, x: real) -> real { (k as real) * x }
pub uninterp spec fn s_total(a: F, b: F) -> Ordering;
pub broadcast axiom fn ax_total(a: F, b: F) ensures (#[trigger] s_total(a, b) == Ordering::Less) == (s_total(b, a) == Ordering::Greater), a.ok() && b.ok() ==> (a.rv() < b.rv() ==> s_total(a, b) == Ordering::Less) && (a.rv() > b.rv() ==> s_total(a, b) == Ordering::Greater);
pub axiom fn ax_total_trans() ensures forall|a: F, b: F, c: F| #[trigger] s_total(a, b) != Ordering::Greater && #[trigger] s_total(b, c) != Ordering::Greater ==> s_total(a, c) != Ordering::Greater;
/// Conversion of integers to f64: exact for the integers an f64 can represent (`f_int`); counts (usize and narrower) are taken to be such.
pub trait VToF { spec fn iv(&self) -> int; spec fn exact(&self) -> bool; fn vtof(self) -> (r: F) where Self: Sized ensures r.ok(), self.exact() ==> r.rv() == self.iv() as real; }
pub uninterp spec fn f_int(i: int) -> bool;
pub open spec fn trunc_is(x: real, k: int) -> bool { if x >= 0real { (k as real) <= x && x < ((k + 1) as real) } else { ((k - 1) as real) < x && x <= (k as real) } }
pub axiom fn ax_f_small(i: int) requires -9007199254740992 <= i <= 9007199254740992 ensures f_int(i);
pub axiom fn ax_f_trunc(x: F, k: int) requires x.ok(), trunc_is(x.rv(), k) ensures f_int(k);
/// Conversion of f64 to i64: truncating, saturating, NaN to zero.
impl F { #[verifier::external_body] pub fn vf2i64(self) -> (r: i64)
  ensures self.ok() ==> exists|k: int| #[trigger] trunc_is(self.rv(), k) && r as int == (if k > i64::MAX { i64::MAX as int } else if k < i64::MIN { i64::MIN as int } else { k }), !self.ok() && self.fi() == 1 ==> r == i64::MAX, !self.ok() && self.fi() == -1 ==> r == i64::MIN { unimplemented!() } }

// ---------- chrono, paths, errors ----------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Time { v: i64 }
/// A date and time, in nanoseconds since the epoch.
pub uninterp spec fn t_ns(t: Time) -> int; pub uninterp spec fn t_ms(t: Time) -> int; pub uninterp spec fn t_us(t: Time) -> int;
pub axiom fn ax_us(t: Time) ensures t_us(t) == t_ns(t) / 1000;
pub axiom fn ax_ms(t: Time) ensures t_ms(t) == t_ns(t) / 1000000;
pub axiom fn ax_ns_ext(a: Time, b: Time) ensures t_ns(a) == t_ns(b) ==> a == b, t_lt(a, b) == (t_ns(a) < t_ns(b));
/// The microseconds chrono can represent.
pub uninterp spec fn t_repr(us: int) -> bool;
pub axiom fn ax_t_repr() ensures forall|u: int| #[trigger] t_repr(u) ==> -9223372036854775000 < u < 9223372036854775000;
impl VEq for Time { open spec fn eqs(&self, o: &Self) -> bool { *self == *o } #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) { unimplemented!() } }
pub uninterp spec fn t_lt(a: Time, b: Time) -> bool;
impl VOrd for Time { open spec fn lts(&self, o: &Self) -> bool { t_lt(*self, *o) } open spec fn les(&self, o: &Self) -> bool { t_lt(*self, *o) || *self == *o }
  #[verifier::external_body] fn vlt(&self, o: &Self) -> (b: bool) { unimplemented!() } #[verifier::external_body] fn vle(&self, o: &Self) -> (b: bool) { unimplemented!() } #[verifier::external_body] fn vgt(&self, o: &Self) -> (b: bool) { unimplemented!() } #[verifier::external_body] fn vge(&self, o: &Self) -> (b: bool) { unimplemented!() } }
impl Time {
  #[verifier::external_body] pub fn timestamp_millis(&self) -> (r: i64) ensures r == t_ms(*self), -9223372036854775 <= r <= 9223372036854775 { unimplemented!() }
  #[verifier::external_body] pub fn timestamp_micros(&self) -> (r: i64) ensures r == t_us(*self), t_repr(r as int) { unimplemented!() }
  #[verifier::external_body] pub fn from_timestamp_micros(u: i64) -> (r: Option<Time>) ensures r is Some <==> t_repr(u as int), r is Some ==> t_ns(r->0) == 1000 * u { unimplemented!() }
  #[verifier::external_body] pub fn vcmp(&self, o: &Time) -> (r: Ordering) ensures r == (if t_lt(*self, *o) { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater }) { unimplemented!() }
}
impl VKey for Time { open spec fn kle(&self, o: &Self) -> bool { t_lt(*self, *o) || *self == *o } }
impl<'a> VKey for &'a Time { open spec fn kle(&self, o: &Self) -> bool { t_lt(**self, **o) || **self == **o } }
pub axiom fn ax_tlt() ensures forall|a: Time, b: Time| #[trigger] t_lt(a, b) ==> !t_lt(b, a) && a != b, forall|a: Time, b: Time| a != b ==> t_lt(a, b) || #[trigger] t_lt(b, a), forall|a: Time, b: Time, c: Time| #[trigger] t_lt(a, b) && #[trigger] t_lt(b, c) ==> t_lt(a, c);
// ---------- serde: the value written or read ----------
/// A value of a document (JSON or YAML) as serde presents it; `Absent`: no such entry.
pub enum VTok { Str(Seq<char>), Num(F), Int(int), Bool(bool), Nul, Absent, Other(int) }
/// the entry of a map, the items of a list, the entries of a map
pub uninterp spec fn d_get(t: VTok, k: Seq<char>) -> VTok;
pub uninterp spec fn d_list(t: VTok) -> Seq<VTok>;
pub uninterp spec fn d_ents(t: VTok) -> Seq<(Seq<char>, VTok)>;
/// `de(t, v)`: deserialising `t` may give `v`.
pub trait De: Sized { spec fn de(t: VTok, v: Self) -> bool; }
impl De for String { open spec fn de(t: VTok, v: Self) -> bool { t == VTok::Str(v@) } }
impl De for bool { open spec fn de(t: VTok, v: Self) -> bool { t == VTok::Bool(v) } }
impl De for usize { open spec fn de(t: VTok, v: Self) -> bool { t == VTok::Int(v as int) } }
impl De for F { open spec fn de(t: VTok, v: Self) -> bool { match t { VTok::Num(x) => v == x, VTok::Int(i) => v.ok() && (f_int(i) ==> v.rv() == (i as real)), _ => false } } }
impl<T: De> De for Option<T> { open spec fn de(t: VTok, v: Self) -> bool { match v { None => t is Nul || t is Absent, Some(x) => !(t is Nul) && T::de(t, x) } } }
impl<T: De> De for Vec<T> { open spec fn de(t: VTok, v: Self) -> bool { !(t is Absent) && v@.len() == d_list(t).len() && forall|i: int| 0 <= i < v@.len() ==> T::de(d_list(t)[i], #[trigger] v@[i]) } }
pub open spec fn de_ent<T: De>(t: VTok, k: Seq<char>, v: T) -> bool { exists|j: int| 0 <= j < d_ents(t).len() && (#[trigger] d_ents(t)[j]).0 == k && T::de(d_ents(t)[j].1, v) }
impl<T: De> De for HMap<String, T> { open spec fn de(t: VTok, v: Self) -> bool { !(t is Absent) && (v.en().len() == 0 <==> d_ents(t).len() == 0) && (d_ents(t).len() == 1 ==> v.en().len() == 1) && forall|i: int| 0 <= i < v.en().len() ==> de_ent::<T>(t, (#[trigger] v.en()[i]).0@, v.en()[i].1) } }
impl De for VPath { open spec fn de(t: VTok, v: Self) -> bool { t == VTok::Str(v.pt()) } }
/// The document in the file of a path; whether it can be opened.
pub uninterp spec fn file_doc(p: Seq<char>) -> VTok;
pub uninterp spec fn file_ok(p: Seq<char>) -> bool;
pub uninterp spec fn pjoin(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn psetfn(a: Seq<char>, b: Seq<char>) -> Seq<char>;
/// Replacing the file name of the empty path.
pub axiom fn ax_psetfn() ensures forall|b: Seq<char>| #[trigger] psetfn(Seq::empty(), b) == b;
pub trait PT { spec fn pt(&self) -> Seq<char>; }
impl PT for str { open spec fn pt(&self) -> Seq<char> { self@ } }
impl PT for String { open spec fn pt(&self) -> Seq<char> { self@ } }
impl PT for VPath { uninterp spec fn pt(&self) -> Seq<char>; }
impl<'a, P: PT + ?Sized> PT for &'a P { open spec fn pt(&self) -> Seq<char> { (**self).pt() } }
#[verifier::external_body] pub struct File { v: u8 }
#[verifier::external_body] pub struct BufReader { v: u8 }
impl File { pub uninterp spec fn doc(&self) -> VTok; #[verifier::external_body] pub fn open<P: PT>(p: P) -> (r: Result<File, IoError>) ensures r is Ok <==> file_ok(p.pt()), r is Ok ==> (r->Ok_0).doc() == file_doc(p.pt()) { unimplemented!() } }
impl BufReader { pub uninterp spec fn doc(&self) -> VTok; #[verifier::external_body] pub fn new(f: File) -> (r: BufReader) ensures r.doc() == f.doc() { unimplemented!() } }
/// serde gives a value the document describes, or an error; it fails only if there is none.
#[verifier::external_body] pub fn vfrom_reader<T: De>(b: BufReader) -> (r: Result<T, VErr>) ensures r is Ok ==> T::de(b.doc(), r->Ok_0), (exists|v: T| T::de(b.doc(), v)) ==> r is Ok { unimplemented!() }

#[verifier::external_body] pub struct VSer { v: u8 }
#[verifier::external_body] pub struct VSerOk { v: u8 }
#[verifier::external_body] pub struct VDe { v: u8 }
impl VSerOk { pub uninterp spec fn tok(&self) -> VTok; }
impl VDe { pub uninterp spec fn tok(&self) -> VTok; }
impl VSer {
  #[verifier::external_body] pub fn serialize_str(self, s: &str) -> (r: Result<VSerOk, VErr>) ensures r is Ok ==> r->Ok_0.tok() == VTok::Str(s@) { unimplemented!() }
  #[verifier::external_body] pub fn serialize_i64(self, x: i64) -> (r: Result<VSerOk, VErr>) ensures r is Ok ==> r->Ok_0.tok() == VTok::Int(x as int) { unimplemented!() }
  #[verifier::external_body] pub fn serialize_f64(self, x: F) -> (r: Result<VSerOk, VErr>) ensures r is Ok ==> r->Ok_0.tok() == VTok::Num(x) { unimplemented!() }
}
#[verifier::external_body] pub fn vde_f64(d: VDe) -> (r: Result<F, VErr>) ensures match d.tok() { VTok::Num(x) => r is Ok && r->Ok_0 == x, VTok::Int(i) => r is Ok && (r->Ok_0).ok() && (f_int(i) ==> (r->Ok_0).rv() == (i as real)), _ => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn vde_string(d: VDe) -> (r: Result<String, VErr>) ensures r is Ok <==> d.tok() is Str, r is Ok ==> d.tok() == VTok::Str(r->Ok_0@) { unimplemented!() }
#[verifier::external_body] pub fn verr1<A>(a: A) -> (r: VErr) { unimplemented!() }
#[verifier::external_body] pub fn verr2<A, B>(a: A, b: B) -> (r: VErr) { unimplemented!() }
#[verifier::external_body] pub fn vign<A>(a: A) -> (r: ()) { unimplemented!() }
#[verifier::external_body] pub struct VPath { v: u8 }
impl VPath { pub fn as_ref(&self) -> (r: &VPath) ensures r == self { self } 
  #[verifier::external_body] pub fn new() -> (r: VPath) ensures r.pt() == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn set_file_name<P: PT>(&mut self, p: P) ensures final(self).pt() == psetfn(old(self).pt(), p.pt()) { unimplemented!() }
  #[verifier::external_body] pub fn join<P: PT>(&self, p: P) -> (r: VPath) ensures r.pt() == pjoin(self.pt(), p.pt()) { unimplemented!() }
  #[verifier::external_body] pub fn to_path_buf(&self) -> (r: VPath) ensures r.pt() == self.pt() { unimplemented!() }
}
#[verifier::external_body] pub fn vpath<P: PT>(p: P) -> (r: VPath) ensures r.pt() == p.pt() { unimplemented!() }
#[verifier::external_body] #[derive(Debug)] pub struct DynErr { v: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct VErr { v: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct IoError { v: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct ImageError { v: u8 }
'''
ints=[]
for t in "usize u64 i64 u32 i32 u8 i8 u16 i16 u128 i128 isize".split():
    ints.append(f"""impl VEq for {t} {{ open spec fn eqs(&self, o: &Self) -> bool {{ *self == *o }} fn veq(&self, o: &Self) -> (b: bool) {{ *self == *o }} }}
impl VOrd for {t} {{ open spec fn lts(&self, o: &Self) -> bool {{ *self < *o }} open spec fn les(&self, o: &Self) -> bool {{ *self <= *o }} fn vlt(&self, o: &Self) -> (b: bool) {{ *self < *o }} fn vle(&self, o: &Self) -> (b: bool) {{ *self <= *o }} fn vgt(&self, o: &Self) -> (b: bool) {{ *self > *o }} fn vge(&self, o: &Self) -> (b: bool) {{ *self >= *o }} }}
impl VToF for {t} {{ open spec fn iv(&self) -> int {{ *self as int }} open spec fn exact(&self) -> bool {{ {'f_int(*self as int)' if t in ('i64', 'u64', 'i128', 'u128') else 'true'} }} #[verifier::external_body] fn vtof(self) -> (r: F) {{ unimplemented!() }} }}
impl VKey for {t} {{ open spec fn kle(&self, o: &Self) -> bool {{ *self <= *o }} }}
""")
ints.append("""pub trait VInt: Sized { fn vmin(self, o: Self) -> (r: Self) ensures r.iv2() == (if self.iv2() < o.iv2() { self.iv2() } else { o.iv2() }); fn vmax(self, o: Self) -> (r: Self) ensures r.iv2() == (if self.iv2() > o.iv2() { self.iv2() } else { o.iv2() }); fn vcmp(&self, o: &Self) -> (r: Ordering) ensures r == ord_of(self.iv2(), o.iv2()); fn vpartial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == Some(ord_of(self.iv2(), o.iv2())); spec fn iv2(&self) -> int; }
""")
for t in "usize u64 i64 u32 i32".split():
    ints.append(f"""impl VInt for {t} {{ open spec fn iv2(&self) -> int {{ *self as int }} fn vmin(self, o: Self) -> (r: Self) {{ if self < o {{ self }} else {{ o }} }} fn vmax(self, o: Self) -> (r: Self) {{ if self > o {{ self }} else {{ o }} }} fn vcmp(&self, o: &Self) -> (r: Ordering) {{ if *self < *o {{ Ordering::Less }} else if *self > *o {{ Ordering::Greater }} else {{ Ordering::Equal }} }} fn vpartial_cmp(&self, o: &Self) -> (r: Option<Ordering>) {{ Some(self.vcmp(o)) }} }}
""")
ints.append("""pub trait VSigned: Sized { spec fn iv3(&self) -> int; fn vabs(self) -> (r: Self) requires self.iv3() > -0x8000_0000_0000_0000int ensures r.iv3() == (if self.iv3() < 0 { -self.iv3() } else { self.iv3() }); }
impl VSigned for i64 { open spec fn iv3(&self) -> int { *self as int } fn vabs(self) -> (r: Self) { if self < 0 { -self } else { self } } }
pub trait VUns: Sized { spec fn iv4(&self) -> int; fn vsaturating_sub(self, o: Self) -> (r: Self) ensures r.iv4() == (if self.iv4() >= o.iv4() { self.iv4() - o.iv4() } else { 0 }); fn vabs_diff(self, o: Self) -> (r: Self) ensures r.iv4() == (if self.iv4() >= o.iv4() { self.iv4() - o.iv4() } else { o.iv4() - self.iv4() }); }
impl VUns for usize { open spec fn iv4(&self) -> int { *self as int } fn vsaturating_sub(self, o: Self) -> (r: Self) { if self >= o { self - o } else { 0 } } fn vabs_diff(self, o: Self) -> (r: Self) { if self >= o { self - o } else { o - self } } }
pub trait VI64 { spec fn iv5(&self) -> int; fn vunsigned_abs(self) -> (r: u64) where Self: Sized ensures r == (if self.iv5() < 0 { -self.iv5() } else { self.iv5() }); fn abs_diff(self, o: i64) -> (r: u64) where Self: Sized ensures r == (if self.iv5() < o { o - self.iv5() } else { self.iv5() - o }); }
impl VI64 for i64 { open spec fn iv5(&self) -> int { *self as int } #[verifier::external_body] fn vunsigned_abs(self) -> (r: u64) { unimplemented!() } #[verifier::external_body] fn abs_diff(self, o: i64) -> (r: u64) { unimplemented!() } }
""")
vseq=""
for (g,t) in [("<T>","Vec<T>"),("<T>","[T]"),("<T, const N: usize>","[T; N]")]:
    ex = "#[verifier::external_body] "
    vseq+=f"""impl{g} VSeq for {t} {{ type E = T; open spec fn vs(&self) -> Seq<T> {{ self@ }}
  {ex}fn vlen(&self) -> (n: usize) {{ unimplemented!() }} {ex}fn vat(&self, i: usize) -> (r: &T) {{ unimplemented!() }} {ex}fn vis_empty(&self) -> (b: bool) {{ unimplemented!() }}
  {ex}fn vfirst(&self) -> (r: Option<&T>) {{ unimplemented!() }} {ex}fn vlast(&self) -> (r: Option<&T>) {{ unimplemented!() }} {ex}fn vget(&self, i: usize) -> (r: Option<&T>) {{ unimplemented!() }} {ex}fn vcontains(&self, x: &T) -> (b: bool) where T: VEq {{ unimplemented!() }}
  {ex}fn vto_vec(&self) -> (r: Vec<T>) {{ unimplemented!() }} {ex}fn vslice(&self, a: usize, b: usize) -> (r: &[T]) {{ unimplemented!() }} {ex}fn vslice_from(&self, a: usize) -> (r: &[T]) {{ unimplemented!() }} }}
"""
vseq+="""pub trait VSp: Sized { type P; spec fn sps(&self, i: int) -> Self::P; spec fn spn(&self) -> int; fn vsp(self, i: usize) -> (r: Self::P) requires i < self.spn() ensures r == self.sps(i as int); }
impl<T: Copy, const N: usize> VSp for [T; N] { type P = T; open spec fn sps(&self, i: int) -> T { self@[i] } open spec fn spn(&self) -> int { N as int } #[verifier::external_body] fn vsp(self, i: usize) -> (r: T) { unimplemented!() } }
impl<'a, T, const N: usize> VSp for &'a [T; N] { type P = &'a T; open spec fn sps(&self, i: int) -> &'a T { &self@[i] } open spec fn spn(&self) -> int { N as int } #[verifier::external_body] fn vsp(self, i: usize) -> (r: &'a T) { unimplemented!() } }
"""
fops=""
for (tr,m,op) in [("Add","add","+"),("Sub","sub","-"),("Mul","mul","*"),("Div","div","/")]:
    cond = " && b.rv() != 0real" if tr=="Div" else ""
    fops+=f"pub uninterp spec fn f{m}(a: F, b: F) -> F;\n"
    fops+=f"pub broadcast axiom fn ax_f{m}(a: F, b: F) ensures #![trigger f{m}(a, b)] a.ok() && b.ok(){cond} ==> f{m}(a, b).ok() && f{m}(a, b).rv() == a.rv() {op} b.rv();\n"
    for (l,r,ls,rs) in [("F","F","self","o"),("&'a F","F","*self","o"),("F","&'a F","self","*o"),("&'a F","&'b F","*self","*o")]:
        lt=sorted(set(x for x in ("'a","'b") if x in l+r)); g="<"+", ".join(lt)+">" if lt else ""
        fops+=f"impl{g} core::ops::{tr}<{r}> for {l} {{ type Output = F; #[verifier::external_body] fn {m}(self, o: {r}) -> (r: F) ensures r == f{m}({ls}, {rs}) {{ unimplemented!() }} }}\n"
        fops+=f"impl{g} vstd::std_specs::ops::{tr}SpecImpl<{r}> for {l} {{ open spec fn obeys_{m}_spec() -> bool {{ false }} open spec fn {m}_req(self, o: {r}) -> bool {{ true }} open spec fn {m}_spec(self, o: {r}) -> F {{ arbitrary() }} }}\n"
fops+="""pub uninterp spec fn fneg(a: F) -> F;
pub broadcast axiom fn ax_fneg(a: F) ensures #![trigger fneg(a)] a.ok() ==> fneg(a).ok() && fneg(a).rv() == -a.rv(), fneg(a).nan_s() == a.nan_s(), fneg(a).fi() == -a.fi();
impl core::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> (r: F) ensures r == fneg(self) { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for F { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F { arbitrary() } }
impl<'a> core::ops::Neg for &'a F { type Output = F; #[verifier::external_body] fn neg(self) -> (r: F) ensures r == fneg(*self) { unimplemented!() } }
impl<'a> vstd::std_specs::ops::NegSpecImpl for &'a F { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F { arbitrary() } }
pub broadcast group grp_ops { ax_fadd, ax_fsub, ax_fmul, ax_fdiv, ax_fneg }
"""
s=HEAD.replace("@INTS@","".join(ints)).replace("@VSEQ@",vseq).replace("@FOPS@",fops)
open(os.path.join(os.path.dirname(__file__),"..","contracts","prelude.rs"),"w").write(s.lstrip())
