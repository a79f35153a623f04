//@needs nav
//@rename_p serde_json::from_reader vfrom_reader
// ----- reading -----
/// A record with its own token.
pub trait Rec { type K; spec fn tok(&self) -> Self::K; }
impl Rec for Attribute { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for CalibratedSensor { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for Category { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for EgoPose { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for Instance { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for Log { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for Map { type K = ShortToken; open spec fn tok(&self) -> ShortToken { self.token } }
impl Rec for Sample { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for SampleAnnotation { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for SampleData { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for Scene { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for Sensor { type K = LongToken; open spec fn tok(&self) -> LongToken { self.token } }
impl Rec for Visibility { type K = String; open spec fn tok(&self) -> String { self.token } }
/// The map holds the first `k` records under their own tokens.
pub open spec fn indexed<R: Rec>(s: Seq<R>, m: vstd::map::Map<R::K, R>, k: int) -> bool {
  (forall|j: int| 0 <= j < k ==> m.contains_key((#[trigger] s[j]).tok())) && (forall|t: R::K| #[trigger] m.contains_key(t) ==> exists|j: int| 0 <= j < k && (#[trigger] s[j]).tok() == t && m[t] == s[j]) }
/// The map holds the records of a file.
pub open spec fn reads<R: Rec + De>(p: Seq<char>, m: vstd::map::Map<R::K, R>) -> bool { exists|l: Vec<R>| #[trigger] Vec::<R>::de(file_doc(p), l) && indexed(l@, m, l@.len() as int) }
// ----- chains -----
pub trait Link { spec fn prv(&self) -> Option<LongToken>; spec fn nxt(&self) -> Option<LongToken>; }
impl Link for Sample { open spec fn prv(&self) -> Option<LongToken> { self.prev } open spec fn nxt(&self) -> Option<LongToken> { self.next } }
impl Link for SampleAnnotation { open spec fn prv(&self) -> Option<LongToken> { self.prev } open spec fn nxt(&self) -> Option<LongToken> { self.next } }
/// The record reached from `f` after `k` next links.
pub open spec fn walk<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int) -> Option<LongToken> decreases k { if k <= 0 { Some(f) } else { match walk(m, f, k - 1) { Some(u) => m[u].nxt(), None => None } } }
/// The first `k` records of the chain exist, and each is linked back to the one before.
pub open spec fn walked<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int) -> bool { forall|q: int| 0 <= q < k ==> (#[trigger] walk(m, f, q)) is Some && m.contains_key(walk(m, f, q)->0) && m[walk(m, f, q)->0].prv() == (if q == 0 { None } else { walk(m, f, q - 1) }) }
/// A chain of exactly `n` records from `f` to `l`.
#[verifier::opaque] pub open spec fn chain<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, l: LongToken, n: int) -> bool { n >= 1 && walked(m, f, n) && walk(m, f, n - 1) == Some(l) && walk(m, f, n) is None }
pub proof fn lemma_walk_ne<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int, a: int, b: int) requires walked(m, f, k), 0 <= a < b < k ensures walk(m, f, a) != walk(m, f, b) decreases a { assert(walk(m, f, a) is Some && walk(m, f, b) is Some); if a > 0 { lemma_walk_ne(m, f, k, a - 1, b - 1); } else { assert(walk(m, f, b - 1) is Some); } }
/// A chain without a dead end visits each record once: it is no longer than the map.
/// Distinct values that all occur in `b` are no more than `b` has entries.
pub proof fn lemma_inj(w: Seq<LongToken>, b: Seq<LongToken>) requires w.no_duplicates(), forall|q: int| 0 <= q < w.len() ==> b.contains(#[trigger] w[q]) ensures w.len() <= b.len()
{
  b.lemma_cardinality_of_set(); w.unique_seq_to_set();
  assert(w.to_set().subset_of(b.to_set())) by { assert forall|t: LongToken| w.to_set().contains(t) implies b.to_set().contains(t) by { let q = choose|q: int| 0 <= q < w.len() && w[q] == t; assert(b.contains(w[q])); } }
  vstd::set_lib::lemma_len_subset(w.to_set(), b.to_set());
}
pub proof fn lemma_walk_nodup<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int, w: Seq<LongToken>) requires walked(m, f, k), k >= 0, w == Seq::new(k as nat, |q: int| walk(m, f, q)->0) ensures w.no_duplicates()
{ assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by { assert(walk(m, f, i) is Some && walk(m, f, j) is Some); if i < j { lemma_walk_ne(m, f, k, i, j); } else { lemma_walk_ne(m, f, k, j, i); } } }
pub open spec fn keyseq<V>(h: HMap<LongToken, V>) -> Seq<LongToken> { Seq::new(h.en().len(), |i: int| h.en()[i].0) }
pub proof fn lemma_keyseq<V>(h: HMap<LongToken, V>, t: LongToken) requires h@.contains_key(t) ensures keyseq(h).contains(t) { ax_en(h); let i = choose|i: int| 0 <= i < h.en().len() && (#[trigger] h.en()[i]).0 == t; assert(keyseq(h)[i] == t); }
pub proof fn lemma_walk_len<V: Link>(h: HMap<LongToken, V>, f: LongToken, k: int) requires walked(h@, f, k), k >= 0 ensures k <= h.en().len()
{
  let w = Seq::new(k as nat, |q: int| walk(h@, f, q)->0);
  lemma_walk_nodup(h@, f, k, w);
  assert forall|q: int| 0 <= q < w.len() implies keyseq(h).contains(#[trigger] w[q]) by { assert(walk(h@, f, q) is Some); lemma_keyseq(h, w[q]); }
  lemma_inj(w, keyseq(h));
}
//@fn dataset/nuscenes/internal.rs SampleInternal::from(sample, annotation_tokens, sample_data_tokens) -> r
ensures r.token == sample.token, r.next == sample.next, r.prev == sample.prev, r.timestamp == sample.timestamp, r.scene_token == sample.scene_token, r.annotation_tokens == annotation_tokens, r.sample_data_tokens == sample_data_tokens
//@end
pub proof fn lemma_tok_eq() ensures forall|a: LongToken, b: LongToken| #[trigger] a.eqs(&b) <==> a == b { assert forall|a: LongToken, b: LongToken| #[trigger] a.eqs(&b) <==> a == b by { lemma_token_eq(a, b); if a.0@ == b.0@ { assert(a.0 =~= b.0); } } }
/// The tokens of the first `k` records of the chain from `f`.
pub open spec fn links<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, s: Seq<LongToken>, k: int) -> bool { s.len() == k && forall|q: int| 0 <= q < k ==> walk(m, f, q) == Some(#[trigger] s[q]) }
pub open spec fn inst_chain(m: vstd::map::Map<LongToken, SampleAnnotation>, x: Instance) -> bool { chain(m, x.first_annotation_token, x.last_annotation_token, x.nbr_annotations as int) }
pub open spec fn inst_conv(m: vstd::map::Map<LongToken, SampleAnnotation>, x: Instance, r: InstanceInternal) -> bool { r.token == x.token && r.category_token == x.category_token && links(m, x.first_annotation_token, r.annotation_tokens@, x.nbr_annotations as int) }
pub open spec fn scene_chain(m: vstd::map::Map<LongToken, Sample>, x: Scene) -> bool { chain(m, x.first_sample_token, x.last_sample_token, x.nbr_samples as int) }
pub open spec fn scene_conv(m: vstd::map::Map<LongToken, Sample>, x: Scene, r: SceneInternal) -> bool { r.token == x.token && r.log_token == x.log_token && r.name == x.name && r.description == x.description && links(m, x.first_sample_token, r.sample_tokens@, x.nbr_samples as int) }
#[verifier::opaque] pub open spec fn own_tok<R: Rec<K = LongToken>>(m: vstd::map::Map<LongToken, R>) -> bool { forall|t: LongToken| #[trigger] m.contains_key(t) ==> m[t].tok() == t }
/// Nothing follows the end of a chain.
pub proof fn lemma_walk_end<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, n: int, k: int) requires walk(m, f, n) is None, n >= 0, k >= n ensures walk(m, f, k) is None decreases k { if k > n { lemma_walk_end(m, f, n, k - 1); } }
pub proof fn lemma_walk_ends<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, n: int) requires walk(m, f, n) is None, n >= 0 ensures forall|k: int| #![trigger walk(m, f, k)] k >= n ==> walk(m, f, k) is None { assert forall|k: int| #![trigger walk(m, f, k)] k >= n implies walk(m, f, k) is None by { lemma_walk_end(m, f, n, k); } }
//@fn dataset/nuscenes/internal.rs InstanceInternal::from(instance, sample_annotation_map) -> r
requires own_tok(sample_annotation_map@), inst_chain(sample_annotation_map@, instance)
ensures r is Ok, inst_conv(sample_annotation_map@, instance, r->Ok_0)
start reveal(own_tok::<Log>); reveal(chain::<Sample>);
start lemma_tok_eq(); lemma_walk_ends(sample_annotation_map@, instance.first_annotation_token, instance.nbr_annotations as int);
inv (A:Vec<LongToken>) links(sample_annotation_map@, instance.first_annotation_token, $A@, $i) && $i <= instance.nbr_annotations
inv (A:Option<LongToken>) match $A { Some(u) => walk(sample_annotation_map@, instance.first_annotation_token, $i) == Some(*u), None => walk(sample_annotation_map@, instance.first_annotation_token, $i) is None }
dec instance.nbr_annotations - $i
//@end
//@fn dataset/nuscenes/internal.rs SceneInternal::from(scene, sample_map) -> r
requires own_tok(sample_map@), scene_chain(sample_map@, scene)
ensures r is Ok, scene_conv(sample_map@, scene, r->Ok_0)
start reveal(own_tok::<Log>); reveal(chain::<Sample>);
start lemma_tok_eq(); lemma_walk_ends(sample_map@, scene.first_sample_token, scene.nbr_samples as int);
inv (A:Vec<LongToken>) links(sample_map@, scene.first_sample_token, $A@, $i) && $i <= scene.nbr_samples
inv (A:Option<LongToken>) match $A { Some(u) => walk(sample_map@, scene.first_sample_token, $i) == Some(*u), None => walk(sample_map@, scene.first_sample_token, $i) is None }
dec scene.nbr_samples - $i
//@end
//@fn dataset/nuscenes.rs load_json(path) -> r {{gen=P:VPath;generics=<T: De>}}
ensures r is Ok ==> T::de(file_doc(path.pt()), r->Ok_0)
//@end
// ----- checking -----
pub type Ents<'a, V> = Seq<(&'a LongToken, &'a V)>;
pub open spec fn opt_at(t: Option<LongToken>, s: Set<LongToken>) -> bool { t is Some ==> s.contains(t->0) }
pub open spec fn cs_chk(sm: Set<LongToken>, x: CalibratedSensor) -> bool { sm.contains(x.sensor_token) }
pub open spec fn cs_upto(s: Ents<'_, CalibratedSensor>, sm: Set<LongToken>, k: int) -> bool { forall|j: int| 0 <= j < k ==> cs_chk(sm, *(#[trigger] s[j]).1) }
#[verifier::opaque] pub open spec fn cs_all(m: vstd::map::Map<LongToken, CalibratedSensor>, sm: Set<LongToken>) -> bool { forall|t: LongToken| #[trigger] m.contains_key(t) ==> cs_chk(sm, m[t]) }
pub open spec fn inst_chk(am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>, x: Instance) -> bool { cm.contains(x.category_token) && inst_chain(am, x) }
pub open spec fn inst_upto(s: Ents<'_, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>, k: int) -> bool { forall|j: int| 0 <= j < k ==> inst_chk(am, cm, *(#[trigger] s[j]).1) }
#[verifier::opaque] pub open spec fn inst_all(m: vstd::map::Map<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>) -> bool { forall|t: LongToken| #[trigger] m.contains_key(t) ==> inst_chk(am, cm, m[t]) }
pub open spec fn scene_chk(lm: Set<LongToken>, sm: vstd::map::Map<LongToken, Sample>, x: Scene) -> bool { lm.contains(x.log_token) && scene_chain(sm, x) }
pub open spec fn scene_upto(s: Ents<'_, Scene>, lm: Set<LongToken>, sm: vstd::map::Map<LongToken, Sample>, k: int) -> bool { forall|j: int| 0 <= j < k ==> scene_chk(lm, sm, *(#[trigger] s[j]).1) }
#[verifier::opaque] pub open spec fn scene_all(m: vstd::map::Map<LongToken, Scene>, lm: Set<LongToken>, sm: vstd::map::Map<LongToken, Sample>) -> bool { forall|t: LongToken| #[trigger] m.contains_key(t) ==> scene_chk(lm, sm, m[t]) }
pub open spec fn samp_chk(cm: Set<LongToken>, sm: Set<LongToken>, x: Sample) -> bool { cm.contains(x.scene_token) && opt_at(x.prev, sm) && opt_at(x.next, sm) }
pub open spec fn samp_upto(s: Ents<'_, Sample>, cm: Set<LongToken>, sm: Set<LongToken>, k: int) -> bool { forall|j: int| 0 <= j < k ==> samp_chk(cm, sm, *(#[trigger] s[j]).1) }
#[verifier::opaque] pub open spec fn samp_all(m: vstd::map::Map<LongToken, Sample>, cm: Set<LongToken>, sm: Set<LongToken>) -> bool { forall|t: LongToken| #[trigger] m.contains_key(t) ==> samp_chk(cm, sm, m[t]) }
pub open spec fn ann_chk(sm: Set<LongToken>, im: Set<LongToken>, tm: vstd::map::Map<LongToken, Attribute>, vm: Set<String>, am: Set<LongToken>, x: SampleAnnotation) -> bool { sm.contains(x.sample_token) && im.contains(x.instance_token) && all_in(x.attribute_tokens@, tm) && (x.visibility_token is Some ==> vm.contains(x.visibility_token->0)) && opt_at(x.prev, am) && opt_at(x.next, am) }
pub open spec fn ann_upto(s: Ents<'_, SampleAnnotation>, sm: Set<LongToken>, im: Set<LongToken>, tm: vstd::map::Map<LongToken, Attribute>, vm: Set<String>, am: Set<LongToken>, k: int) -> bool { forall|j: int| 0 <= j < k ==> ann_chk(sm, im, tm, vm, am, *(#[trigger] s[j]).1) }
#[verifier::opaque] pub open spec fn ann_all(m: vstd::map::Map<LongToken, SampleAnnotation>, sm: Set<LongToken>, im: Set<LongToken>, tm: vstd::map::Map<LongToken, Attribute>, vm: Set<String>, am: Set<LongToken>) -> bool { forall|t: LongToken| #[trigger] m.contains_key(t) ==> ann_chk(sm, im, tm, vm, am, m[t]) }
pub open spec fn sd_chk(sm: Set<LongToken>, em: Set<LongToken>, cm: Set<LongToken>, dm: Set<LongToken>, x: SampleData) -> bool { sm.contains(x.sample_token) && em.contains(x.ego_pose_token) && cm.contains(x.calibrated_sensor_token) && opt_at(x.prev, dm) && opt_at(x.next, dm) }
pub open spec fn sd_upto(s: Ents<'_, SampleData>, sm: Set<LongToken>, em: Set<LongToken>, cm: Set<LongToken>, dm: Set<LongToken>, k: int) -> bool { forall|j: int| 0 <= j < k ==> sd_chk(sm, em, cm, dm, *(#[trigger] s[j]).1) }
#[verifier::opaque] pub open spec fn sd_all(m: vstd::map::Map<LongToken, SampleData>, sm: Set<LongToken>, em: Set<LongToken>, cm: Set<LongToken>, dm: Set<LongToken>) -> bool { forall|t: LongToken| #[trigger] m.contains_key(t) ==> sd_chk(sm, em, cm, dm, m[t]) }
/// Checking every entry of a map checks the map.
pub proof fn lemma_checks() ensures
  forall|h: &HMap<LongToken, CalibratedSensor>, sm: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] cs_upto(vents(h), sm, k) ==> cs_all(h@, sm),
  forall|h: &HMap<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] inst_upto(vents(h), am, cm, k) ==> inst_all(h@, am, cm),
  forall|h: &HMap<LongToken, Scene>, lm: Set<LongToken>, sm: vstd::map::Map<LongToken, Sample>, k: int| k == vents(h).len() && #[trigger] scene_upto(vents(h), lm, sm, k) ==> scene_all(h@, lm, sm),
  forall|h: &HMap<LongToken, Sample>, cm: Set<LongToken>, sm: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] samp_upto(vents(h), cm, sm, k) ==> samp_all(h@, cm, sm),
  forall|h: &HMap<LongToken, SampleAnnotation>, sm: Set<LongToken>, im: Set<LongToken>, tm: vstd::map::Map<LongToken, Attribute>, vm: Set<String>, am: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] ann_upto(vents(h), sm, im, tm, vm, am, k) ==> ann_all(h@, sm, im, tm, vm, am),
  forall|h: &HMap<LongToken, SampleData>, sm: Set<LongToken>, em: Set<LongToken>, cm: Set<LongToken>, dm: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] sd_upto(vents(h), sm, em, cm, dm, k) ==> sd_all(h@, sm, em, cm, dm),
{ reveal(cs_all); reveal(inst_all); reveal(scene_all); reveal(samp_all); reveal(ann_all); reveal(sd_all); reveal(chain::<Sample>);
  assert forall|h: &HMap<LongToken, CalibratedSensor>, sm: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] cs_upto(vents(h), sm, k) implies cs_all(h@, sm) by { assert forall|t: LongToken| #[trigger] h@.contains_key(t) implies cs_chk(sm, h@[t]) by { let i = lemma_at(h, t); assert(cs_chk(sm, *vents(h)[i].1)); } }
  assert forall|h: &HMap<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] inst_upto(vents(h), am, cm, k) implies inst_all(h@, am, cm) by { assert forall|t: LongToken| #[trigger] h@.contains_key(t) implies inst_chk(am, cm, h@[t]) by { let i = lemma_at(h, t); assert(inst_chk(am, cm, *vents(h)[i].1)); } }
  assert forall|h: &HMap<LongToken, Scene>, lm: Set<LongToken>, sm: vstd::map::Map<LongToken, Sample>, k: int| k == vents(h).len() && #[trigger] scene_upto(vents(h), lm, sm, k) implies scene_all(h@, lm, sm) by { assert forall|t: LongToken| #[trigger] h@.contains_key(t) implies scene_chk(lm, sm, h@[t]) by { let i = lemma_at(h, t); assert(scene_chk(lm, sm, *vents(h)[i].1)); } }
  assert forall|h: &HMap<LongToken, Sample>, cm: Set<LongToken>, sm: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] samp_upto(vents(h), cm, sm, k) implies samp_all(h@, cm, sm) by { assert forall|t: LongToken| #[trigger] h@.contains_key(t) implies samp_chk(cm, sm, h@[t]) by { let i = lemma_at(h, t); assert(samp_chk(cm, sm, *vents(h)[i].1)); } }
  assert forall|h: &HMap<LongToken, SampleAnnotation>, sm: Set<LongToken>, im: Set<LongToken>, tm: vstd::map::Map<LongToken, Attribute>, vm: Set<String>, am: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] ann_upto(vents(h), sm, im, tm, vm, am, k) implies ann_all(h@, sm, im, tm, vm, am) by { assert forall|t: LongToken| #[trigger] h@.contains_key(t) implies ann_chk(sm, im, tm, vm, am, h@[t]) by { let i = lemma_at(h, t); assert(ann_chk(sm, im, tm, vm, am, *vents(h)[i].1)); } }
  assert forall|h: &HMap<LongToken, SampleData>, sm: Set<LongToken>, em: Set<LongToken>, cm: Set<LongToken>, dm: Set<LongToken>, k: int| k == vents(h).len() && #[trigger] sd_upto(vents(h), sm, em, cm, dm, k) implies sd_all(h@, sm, em, cm, dm) by { assert forall|t: LongToken| #[trigger] h@.contains_key(t) implies sd_chk(sm, em, cm, dm, h@[t]) by { let i = lemma_at(h, t); assert(sd_chk(sm, em, cm, dm, *vents(h)[i].1)); } }
}
/// The entry of a key.
pub proof fn lemma_at<V>(h: &HMap<LongToken, V>, t: LongToken) -> (i: int) requires h@.contains_key(t) ensures 0 <= i < vents(h).len(), *vents(h)[i].0 == t, *vents(h)[i].1 == h@[t] { ax_en(*h); let i = choose|i: int| 0 <= i < h.en().len() && (#[trigger] h.en()[i]).0 == t; assert(h.en()[i].1 == h@[t]); i }
pub proof fn lemma_ent<V>(h: &HMap<LongToken, V>, i: int) requires 0 <= i < vents(h).len() ensures h@.contains_key(*vents(h)[i].0), h@[*vents(h)[i].0] == *vents(h)[i].1 { ax_en(*h); assert(h@.contains_key(h.en()[i].0)); }
// ----- groups -----
pub trait OfSample { spec fn smp(&self) -> LongToken; }
impl OfSample for SampleAnnotation { open spec fn smp(&self) -> LongToken { self.sample_token } }
impl OfSample for SampleData { open spec fn smp(&self) -> LongToken { self.sample_token } }
pub open spec fn pairs<V: OfSample>(s: Ents<'_, V>, v: Seq<(LongToken, LongToken)>, k: int) -> bool { v.len() == k && forall|j: int| 0 <= j < k ==> (#[trigger] v[j]).0 == (*s[j].1).smp() && v[j].1 == *s[j].0 }
/// `s` lists exactly the records of sample `k`, each once.
pub open spec fn lists<V: OfSample>(s: Seq<LongToken>, k: LongToken, m: vstd::map::Map<LongToken, V>) -> bool { s.no_duplicates() && (forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i]) && m[s[i]].smp() == k) && (forall|t: LongToken| #[trigger] m.contains_key(t) && m[t].smp() == k ==> s.contains(t)) }
pub open spec fn grp<V: OfSample>(g: vstd::map::Map<LongToken, Vec<LongToken>>, m: vstd::map::Map<LongToken, V>, k: LongToken) -> bool { if g.contains_key(k) { lists(g[k]@, k, m) } else { lists(Seq::<LongToken>::empty(), k, m) } }
pub open spec fn grps<V: OfSample>(g: vstd::map::Map<LongToken, Vec<LongToken>>, m: vstd::map::Map<LongToken, V>) -> bool { forall|k: LongToken| #[trigger] grp(g, m, k) }
/// What grouping picks: the second components of the pairs with that key.
pub proof fn lemma_picks_in(v: Seq<(LongToken, LongToken)>, k: LongToken, i: int) -> (j: int)
  requires 0 <= i < picks(v, k).len() ensures 0 <= j < v.len(), v[j].0 == k, v[j].1 == picks(v, k)[i] decreases v.len()
{ let w = v.drop_last(); if v.last().0 == k && i == picks(w, k).len() { v.len() - 1 } else { assert(picks(v, k)[i] == picks(w, k)[i]); let j = lemma_picks_in(w, k, i); assert(w[j] == v[j]); j } }
pub proof fn lemma_picks_has(v: Seq<(LongToken, LongToken)>, k: LongToken, j: int) -> (i: int)
  requires 0 <= j < v.len(), v[j].0 == k ensures 0 <= i < picks(v, k).len(), picks(v, k)[i] == v[j].1 decreases v.len()
{ let w = v.drop_last(); if j == v.len() - 1 { picks(w, k).len() as int } else { assert(w[j] == v[j]); let i = lemma_picks_has(w, k, j); assert(picks(v, k)[i] == picks(w, k)[i]); i } }
pub proof fn lemma_picks_dup(v: Seq<(LongToken, LongToken)>, k: LongToken)
  requires forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1 != (#[trigger] v[j]).1 ensures picks(v, k).no_duplicates() decreases v.len()
{
  if v.len() > 0 {
    let w = v.drop_last(); let p = picks(w, k); let q = picks(v, k);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).1 != (#[trigger] w[j]).1 by { assert(w[i] == v[i] && w[j] == v[j]); }
    lemma_picks_dup(w, k);
    if v.last().0 == k {
      assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
        let a = if i < j { i } else { j }; let b = if i < j { j } else { i };
        assert(q[a] == p[a]);
        if b < p.len() { assert(q[b] == p[b]); assert(p[a] != p[b]); } else { let z = lemma_picks_in(w, k, a); assert(w[z] == v[z]); assert(v[z].1 != v[v.len() - 1].1); } }
    }
  }
}
pub proof fn lemma_group<V: OfSample>(h: &HMap<LongToken, V>, v: Seq<(LongToken, LongToken)>, k: LongToken) requires pairs(vents(h), v, vents(h).len() as int) ensures lists(picks(v, k), k, h@)
{
  ax_en(*h); let p = picks(v, k);
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).1 != (#[trigger] v[j]).1 by { assert(h.en()[i].0 != h.en()[j].0); }
  lemma_picks_dup(v, k);
  assert forall|i: int| 0 <= i < p.len() implies h@.contains_key(#[trigger] p[i]) && h@[p[i]].smp() == k by { let j = lemma_picks_in(v, k, i); lemma_ent(h, j); }
  assert forall|t: LongToken| #[trigger] h@.contains_key(t) && h@[t].smp() == k implies p.contains(t) by { let j = lemma_at(h, t); assert(v[j].0 == k); let i = lemma_picks_has(v, k, j); assert(p[i] == t); }
}
/// Grouping the pairs of a map lists the records of every sample.
pub proof fn lemma_groups<V: OfSample>() ensures forall|h: &HMap<LongToken, V>, v: Seq<(LongToken, LongToken)>, n: int, g: HMap<LongToken, Vec<LongToken>>| #![trigger pairs(vents(h), v, n), g@] n == vents(h).len() && pairs(vents(h), v, n) && (forall|k: LongToken| #[trigger] g@.contains_key(k) <==> picks(v, k).len() > 0) && (forall|k: LongToken| #[trigger] g@.contains_key(k) ==> g@[k]@ == picks(v, k)) ==> grps(g@, h@)
{
  assert forall|h: &HMap<LongToken, V>, v: Seq<(LongToken, LongToken)>, n: int, g: HMap<LongToken, Vec<LongToken>>| #![trigger pairs(vents(h), v, n), g@] n == vents(h).len() && pairs(vents(h), v, n) && (forall|k: LongToken| #[trigger] g@.contains_key(k) <==> picks(v, k).len() > 0) && (forall|k: LongToken| #[trigger] g@.contains_key(k) ==> g@[k]@ == picks(v, k)) implies grps(g@, h@) by {
    assert forall|k: LongToken| #[trigger] grp(g@, h@, k) by { lemma_group(h, v, k); if !g@.contains_key(k) { assert(picks(v, k) =~= Seq::<LongToken>::empty()); } } }
}
// ----- conversions -----
pub proof fn lemma_own<R: Rec<K = LongToken>>() ensures forall|s: Seq<R>, m: vstd::map::Map<LongToken, R>, k: int| #[trigger] indexed(s, m, k) ==> own_tok(m) { reveal(own_tok::<Log>); assert forall|s: Seq<R>, m: vstd::map::Map<LongToken, R>, k: int| #[trigger] indexed(s, m, k) implies own_tok(m) by { assert forall|t: LongToken| #[trigger] m.contains_key(t) implies m[t].tok() == t by { } } }
/// `s` lists the chain from `f` to `l`: every record of it once, in order.
pub open spec fn lists_chain<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, l: LongToken, s: Seq<LongToken>) -> bool { chain(m, f, l, s.len() as int) && links(m, f, s, s.len() as int) }
/// The neighbours in `s` are the links of the records.
pub open spec fn linked<V: Link>(m: vstd::map::Map<LongToken, V>, s: Seq<LongToken>) -> bool { s.len() > 0 && s.no_duplicates() && forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i]) && m[s[i]].prv() == at(s, i - 1) && m[s[i]].nxt() == at(s, i + 1) }
pub proof fn lemma_link_at<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, s: Seq<LongToken>, i: int) requires walked(m, f, s.len() as int), links(m, f, s, s.len() as int), walk(m, f, s.len() as int) is None, 0 <= i < s.len() ensures m.contains_key(s[i]), m[s[i]].prv() == at(s, i - 1), m[s[i]].nxt() == at(s, i + 1), walk(m, f, i) == Some(s[i])
{ let n = s.len() as int; assert(walk(m, f, i) == Some(s[i])); if i > 0 { assert(walk(m, f, i - 1) == Some(s[i - 1])); } assert(m.contains_key(walk(m, f, i)->0)); lemma_next(m, f, i, s[i]); if i + 1 < n { assert(walk(m, f, i + 1) == Some(s[i + 1])); } else { assert(i + 1 == n); } }
pub proof fn lemma_link_ne<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, s: Seq<LongToken>, i: int, j: int) requires walked(m, f, s.len() as int), links(m, f, s, s.len() as int), 0 <= i < j < s.len() ensures s[i] != s[j]
{ assert(walk(m, f, i) == Some(s[i])); assert(walk(m, f, j) == Some(s[j])); lemma_walk_ne(m, f, s.len() as int, i, j); }
pub open spec fn link_of<V: Link>(m: vstd::map::Map<LongToken, V>, s: Seq<LongToken>, i: int) -> bool { m.contains_key(s[i]) && m[s[i]].prv() == at(s, i - 1) && m[s[i]].nxt() == at(s, i + 1) }
pub proof fn lemma_linked<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, l: LongToken, s: Seq<LongToken>) requires lists_chain(m, f, l, s) ensures linked(m, s), s[0] == f, s[s.len() - 1] == l
{
  let n = s.len() as int; assert(n >= 1 && walk(m, f, n) is None && walked(m, f, n) && walk(m, f, n - 1) == Some(l)) by { reveal(chain::<Sample>); }
  lemma_link_at(m, f, s, 0); lemma_link_at(m, f, s, n - 1); assert(walk(m, f, 0) == Some(f));
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] link_of(m, s, i) by { lemma_link_at(m, f, s, i); }
  assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { lemma_link_ne(m, f, s, i, j); } else { lemma_link_ne(m, f, s, j, i); } } }
  assert forall|i: int| 0 <= i < s.len() implies m.contains_key(#[trigger] s[i]) && m[s[i]].prv() == at(s, i - 1) && m[s[i]].nxt() == at(s, i + 1) by { assert(link_of(m, s, i)); }
}
/// The entries still to be converted are consistent.
pub open spec fn inst_pre(s: Seq<(LongToken, Instance)>, am: vstd::map::Map<LongToken, SampleAnnotation>) -> bool { forall|j: int| 0 <= j < s.len() ==> inst_chain(am, (#[trigger] s[j]).1) }
/// The first `k` entries are converted.
pub open spec fn inst_part(s: Seq<(LongToken, Instance)>, am: vstd::map::Map<LongToken, SampleAnnotation>, m: vstd::map::Map<LongToken, InstanceInternal>, k: int) -> bool {
  (forall|j: int| 0 <= j < k ==> m.contains_key((#[trigger] s[j]).0)) && (forall|t: LongToken| #[trigger] m.contains_key(t) ==> exists|j: int| 0 <= j < k && (#[trigger] s[j]).0 == t && inst_conv(am, s[j].1, m[t])) }
/// The converted records.
#[verifier::opaque] pub open spec fn inst_done(m: vstd::map::Map<LongToken, InstanceInternal>, h: vstd::map::Map<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>) -> bool { m.dom() == h.dom() && forall|t: LongToken| #[trigger] m.contains_key(t) ==> inst_conv(am, h[t], m[t]) && lists_chain(am, h[t].first_annotation_token, h[t].last_annotation_token, m[t].annotation_tokens@) }
pub proof fn lemma_inst_pre(h: HMap<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>) requires inst_all(h@, am, cm) ensures inst_pre(h.en(), am)
{ reveal(inst_all); reveal(chain::<Sample>); ax_en(h); assert forall|j: int| 0 <= j < h.en().len() implies inst_chain(am, (#[trigger] h.en()[j]).1) by { assert(h@.contains_key(h.en()[j].0)); } }
pub proof fn lemma_inst_done(h: HMap<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>, m: vstd::map::Map<LongToken, InstanceInternal>) requires inst_all(h@, am, cm), inst_part(h.en(), am, m, h.en().len() as int) ensures inst_done(m, h@, am)
{ reveal(inst_all); reveal(inst_done); reveal(chain::<Sample>);
  ax_en(h);
  assert forall|t: LongToken| #[trigger] m.contains_key(t) implies h@.contains_key(t) && inst_conv(am, h@[t], m[t]) && lists_chain(am, h@[t].first_annotation_token, h@[t].last_annotation_token, m[t].annotation_tokens@) by { let j = choose|j: int| 0 <= j < h.en().len() && (#[trigger] h.en()[j]).0 == t && inst_conv(am, h.en()[j].1, m[t]); assert(h@.contains_key(h.en()[j].0)); assert(inst_chk(am, cm, h@[t])); }
  assert forall|t: LongToken| h@.contains_key(t) implies #[trigger] m.contains_key(t) by { let j = choose|j: int| 0 <= j < h.en().len() && (#[trigger] h.en()[j]).0 == t; }
  assert(m.dom() =~= h@.dom());
}
pub proof fn lemma_insts() ensures
  forall|h: HMap<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>| #![trigger inst_all(h@, am, cm), h.en()] inst_all(h@, am, cm) ==> inst_pre(h.en(), am),
  forall|h: HMap<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>, m: vstd::map::Map<LongToken, InstanceInternal>, k: int| #![trigger inst_all(h@, am, cm), inst_part(h.en(), am, m, k)] k == h.en().len() && inst_all(h@, am, cm) && inst_part(h.en(), am, m, k) ==> inst_done(m, h@, am),
{ reveal(inst_all); reveal(inst_done); reveal(chain::<Sample>);
  assert forall|h: HMap<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>| #![trigger inst_all(h@, am, cm), h.en()] inst_all(h@, am, cm) implies inst_pre(h.en(), am) by { lemma_inst_pre(h, am, cm); }
  assert forall|h: HMap<LongToken, Instance>, am: vstd::map::Map<LongToken, SampleAnnotation>, cm: Set<LongToken>, m: vstd::map::Map<LongToken, InstanceInternal>, k: int| #![trigger inst_all(h@, am, cm), inst_part(h.en(), am, m, k)] k == h.en().len() && inst_all(h@, am, cm) && inst_part(h.en(), am, m, k) implies inst_done(m, h@, am) by { lemma_inst_done(h, am, cm, m); }
}
/// The entries still to be converted are consistent.
pub open spec fn scene_pre(s: Seq<(LongToken, Scene)>, am: vstd::map::Map<LongToken, Sample>) -> bool { forall|j: int| 0 <= j < s.len() ==> scene_chain(am, (#[trigger] s[j]).1) }
/// The first `k` entries are converted.
pub open spec fn scene_part(s: Seq<(LongToken, Scene)>, am: vstd::map::Map<LongToken, Sample>, m: vstd::map::Map<LongToken, SceneInternal>, k: int) -> bool {
  (forall|j: int| 0 <= j < k ==> m.contains_key((#[trigger] s[j]).0)) && (forall|t: LongToken| #[trigger] m.contains_key(t) ==> exists|j: int| 0 <= j < k && (#[trigger] s[j]).0 == t && scene_conv(am, s[j].1, m[t])) }
/// The converted records.
#[verifier::opaque] pub open spec fn scene_done(m: vstd::map::Map<LongToken, SceneInternal>, h: vstd::map::Map<LongToken, Scene>, am: vstd::map::Map<LongToken, Sample>) -> bool { m.dom() == h.dom() && forall|t: LongToken| #[trigger] m.contains_key(t) ==> scene_conv(am, h[t], m[t]) && lists_chain(am, h[t].first_sample_token, h[t].last_sample_token, m[t].sample_tokens@) }
pub proof fn lemma_scene_pre(h: HMap<LongToken, Scene>, am: vstd::map::Map<LongToken, Sample>, cm: Set<LongToken>) requires scene_all(h@, cm, am) ensures scene_pre(h.en(), am)
{ reveal(scene_all); reveal(chain::<Sample>); ax_en(h); assert forall|j: int| 0 <= j < h.en().len() implies scene_chain(am, (#[trigger] h.en()[j]).1) by { assert(h@.contains_key(h.en()[j].0)); } }
pub proof fn lemma_scene_done(h: HMap<LongToken, Scene>, am: vstd::map::Map<LongToken, Sample>, cm: Set<LongToken>, m: vstd::map::Map<LongToken, SceneInternal>) requires scene_all(h@, cm, am), scene_part(h.en(), am, m, h.en().len() as int) ensures scene_done(m, h@, am)
{ reveal(scene_all); reveal(scene_done); reveal(chain::<Sample>);
  ax_en(h);
  assert forall|t: LongToken| #[trigger] m.contains_key(t) implies h@.contains_key(t) && scene_conv(am, h@[t], m[t]) && lists_chain(am, h@[t].first_sample_token, h@[t].last_sample_token, m[t].sample_tokens@) by { let j = choose|j: int| 0 <= j < h.en().len() && (#[trigger] h.en()[j]).0 == t && scene_conv(am, h.en()[j].1, m[t]); assert(h@.contains_key(h.en()[j].0)); assert(scene_chk(cm, am, h@[t])); }
  assert forall|t: LongToken| h@.contains_key(t) implies #[trigger] m.contains_key(t) by { let j = choose|j: int| 0 <= j < h.en().len() && (#[trigger] h.en()[j]).0 == t; }
  assert(m.dom() =~= h@.dom());
}
pub proof fn lemma_scenes() ensures
  forall|h: HMap<LongToken, Scene>, am: vstd::map::Map<LongToken, Sample>, cm: Set<LongToken>| #![trigger scene_all(h@, cm, am), h.en()] scene_all(h@, cm, am) ==> scene_pre(h.en(), am),
  forall|h: HMap<LongToken, Scene>, am: vstd::map::Map<LongToken, Sample>, cm: Set<LongToken>, m: vstd::map::Map<LongToken, SceneInternal>, k: int| #![trigger scene_all(h@, cm, am), scene_part(h.en(), am, m, k)] k == h.en().len() && scene_all(h@, cm, am) && scene_part(h.en(), am, m, k) ==> scene_done(m, h@, am),
{ reveal(scene_all); reveal(scene_done); reveal(chain::<Sample>);
  assert forall|h: HMap<LongToken, Scene>, am: vstd::map::Map<LongToken, Sample>, cm: Set<LongToken>| #![trigger scene_all(h@, cm, am), h.en()] scene_all(h@, cm, am) implies scene_pre(h.en(), am) by { lemma_scene_pre(h, am, cm); }
  assert forall|h: HMap<LongToken, Scene>, am: vstd::map::Map<LongToken, Sample>, cm: Set<LongToken>, m: vstd::map::Map<LongToken, SceneInternal>, k: int| #![trigger scene_all(h@, cm, am), scene_part(h.en(), am, m, k)] k == h.en().len() && scene_all(h@, cm, am) && scene_part(h.en(), am, m, k) implies scene_done(m, h@, am) by { lemma_scene_done(h, am, cm, m); }
}
/// The converted sample: its own fields, and the annotations and sample data that refer to it.
pub open spec fn samp_conv(am: vstd::map::Map<LongToken, SampleAnnotation>, dm: vstd::map::Map<LongToken, SampleData>, x: Sample, r: SampleInternal) -> bool {
  r.token == x.token && r.next == x.next && r.prev == x.prev && r.timestamp == x.timestamp && r.scene_token == x.scene_token && lists(r.annotation_tokens@, x.token, am) && lists(r.sample_data_tokens@, x.token, dm) }
pub open spec fn samp_ents(s: Seq<(LongToken, Sample)>) -> bool { (forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).1.token == s[j].0) && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
/// The groups of the samples from `k` on are still there.
pub open spec fn grps_from<V: OfSample>(s: Seq<(LongToken, Sample)>, g: vstd::map::Map<LongToken, Vec<LongToken>>, m: vstd::map::Map<LongToken, V>, k: int) -> bool { forall|j: int| k <= j < s.len() ==> grp(g, m, (#[trigger] s[j]).0) }
pub open spec fn samp_part(s: Seq<(LongToken, Sample)>, am: vstd::map::Map<LongToken, SampleAnnotation>, dm: vstd::map::Map<LongToken, SampleData>, m: vstd::map::Map<LongToken, SampleInternal>, k: int) -> bool {
  (forall|j: int| 0 <= j < k ==> m.contains_key((#[trigger] s[j]).0)) && (forall|t: LongToken| #[trigger] m.contains_key(t) ==> exists|j: int| 0 <= j < k && (#[trigger] s[j]).0 == t && samp_conv(am, dm, s[j].1, m[t])) }
#[verifier::opaque] pub open spec fn samp_done(m: vstd::map::Map<LongToken, SampleInternal>, h: vstd::map::Map<LongToken, Sample>, am: vstd::map::Map<LongToken, SampleAnnotation>, dm: vstd::map::Map<LongToken, SampleData>) -> bool { m.dom() == h.dom() && forall|t: LongToken| #[trigger] m.contains_key(t) ==> samp_conv(am, dm, h[t], m[t]) }
pub proof fn lemma_samp_ents(h: HMap<LongToken, Sample>) requires own_tok(h@) ensures samp_ents(h.en()) { reveal(own_tok::<Log>); ax_en(h); assert forall|j: int| 0 <= j < h.en().len() implies (#[trigger] h.en()[j]).1.token == h.en()[j].0 by { assert(h@.contains_key(h.en()[j].0)); assert(h@[h.en()[j].0].tok() == h.en()[j].0); } }
pub proof fn lemma_samp_done(h: HMap<LongToken, Sample>, am: vstd::map::Map<LongToken, SampleAnnotation>, dm: vstd::map::Map<LongToken, SampleData>, m: vstd::map::Map<LongToken, SampleInternal>) requires samp_part(h.en(), am, dm, m, h.en().len() as int) ensures samp_done(m, h@, am, dm)
{ reveal(samp_done);
  ax_en(h);
  assert forall|t: LongToken| #[trigger] m.contains_key(t) implies h@.contains_key(t) && samp_conv(am, dm, h@[t], m[t]) by { let j = choose|j: int| 0 <= j < h.en().len() && (#[trigger] h.en()[j]).0 == t && samp_conv(am, dm, h.en()[j].1, m[t]); assert(h@.contains_key(h.en()[j].0)); }
  assert forall|t: LongToken| h@.contains_key(t) implies #[trigger] m.contains_key(t) by { let j = choose|j: int| 0 <= j < h.en().len() && (#[trigger] h.en()[j]).0 == t; }
  assert(m.dom() =~= h@.dom());
}
pub proof fn lemma_samps() ensures
  forall|h: HMap<LongToken, Sample>| #![trigger own_tok(h@), h.en()] own_tok(h@) ==> samp_ents(h.en()),
  forall|h: HMap<LongToken, Sample>, am: vstd::map::Map<LongToken, SampleAnnotation>, dm: vstd::map::Map<LongToken, SampleData>, m: vstd::map::Map<LongToken, SampleInternal>, k: int| k == h.en().len() && #[trigger] samp_part(h.en(), am, dm, m, k) ==> samp_done(m, h@, am, dm),
  forall|s: Seq<(LongToken, Sample)>, g: vstd::map::Map<LongToken, Vec<LongToken>>, m: vstd::map::Map<LongToken, SampleAnnotation>, k: int| #[trigger] grps(g, m) ==> #[trigger] grps_from(s, g, m, k),
  forall|s: Seq<(LongToken, Sample)>, g: vstd::map::Map<LongToken, Vec<LongToken>>, m: vstd::map::Map<LongToken, SampleData>, k: int| #[trigger] grps(g, m) ==> #[trigger] grps_from(s, g, m, k),
{ reveal(samp_done); reveal(own_tok::<Log>);
  assert forall|h: HMap<LongToken, Sample>| #![trigger own_tok(h@), h.en()] own_tok(h@) implies samp_ents(h.en()) by { lemma_samp_ents(h); }
  assert forall|h: HMap<LongToken, Sample>, am: vstd::map::Map<LongToken, SampleAnnotation>, dm: vstd::map::Map<LongToken, SampleData>, m: vstd::map::Map<LongToken, SampleInternal>, k: int| k == h.en().len() && #[trigger] samp_part(h.en(), am, dm, m, k) implies samp_done(m, h@, am, dm) by { lemma_samp_done(h, am, dm, m); }
  assert forall|s: Seq<(LongToken, Sample)>, g: vstd::map::Map<LongToken, Vec<LongToken>>, m: vstd::map::Map<LongToken, SampleAnnotation>, k: int| #[trigger] grps(g, m) implies #[trigger] grps_from(s, g, m, k) by { assert forall|j: int| k <= j < s.len() implies grp(g, m, (#[trigger] s[j]).0) by { } }
  assert forall|s: Seq<(LongToken, Sample)>, g: vstd::map::Map<LongToken, Vec<LongToken>>, m: vstd::map::Map<LongToken, SampleData>, k: int| #[trigger] grps(g, m) implies #[trigger] grps_from(s, g, m, k) by { assert forall|j: int| k <= j < s.len() implies grp(g, m, (#[trigger] s[j]).0) by { } }
}
// ----- time order -----
pub trait Timed { spec fn tm(&self) -> Time; }
impl Timed for EgoPose { open spec fn tm(&self) -> Time { self.timestamp } }
impl Timed for SampleInternal { open spec fn tm(&self) -> Time { self.timestamp } }
impl Timed for SampleData { open spec fn tm(&self) -> Time { self.timestamp } }
pub open spec fn t_le(a: Time, b: Time) -> bool { t_lt(a, b) || a == b }
pub type Stamps<'a> = Seq<(&'a LongToken, Time)>;
pub open spec fn times_upto<V: Timed>(s: Ents<'_, V>, p: Stamps<'_>, k: int) -> bool { p.len() == k && forall|j: int| 0 <= j < k ==> (#[trigger] p[j]).0 == s[j].0 && p[j].1 == s[j].1.tm() }
pub open spec fn toks_upto(q: Stamps<'_>, t: Seq<LongToken>, k: int) -> bool { t.len() == k && forall|j: int| 0 <= j < k ==> #[trigger] t[j] == *q[j].0 }
pub open spec fn sorted_of(p: Stamps<'_>, q: Stamps<'_>) -> bool { (exists|pi: Seq<int>| #[trigger] perm(p, q, pi)) && forall|i: int, j: int| 0 <= i < j < q.len() ==> t_le((#[trigger] q[i]).1, (#[trigger] q[j]).1) }
/// `s` lists every key of `m` once.
pub open spec fn lists_keys<V>(m: vstd::map::Map<LongToken, V>, s: Seq<LongToken>) -> bool { s.no_duplicates() && (forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i])) && forall|t: LongToken| #[trigger] m.contains_key(t) ==> s.contains(t) }
/// `s` lists every key of `m` once, in ascending order of time.
#[verifier::opaque] pub open spec fn in_time<V: Timed>(m: vstd::map::Map<LongToken, V>, s: Seq<LongToken>) -> bool { lists_keys(m, s) && forall|i: int, j: int| 0 <= i < j < s.len() ==> t_le(m[#[trigger] s[i]].tm(), m[#[trigger] s[j]].tm()) }
/// The start of a scene: the earliest time of its samples.
pub open spec fn is_start(sm: vstd::map::Map<LongToken, SampleInternal>, x: SceneInternal, t: Time) -> bool { (exists|j: int| 0 <= j < x.sample_tokens@.len() && sm[#[trigger] x.sample_tokens@[j]].timestamp == t) && forall|j: int| 0 <= j < x.sample_tokens@.len() ==> t_le(t, sm[#[trigger] x.sample_tokens@[j]].timestamp) }
pub open spec fn start(sm: vstd::map::Map<LongToken, SampleInternal>, x: SceneInternal) -> Time { choose|t: Time| #[trigger] is_start(sm, x, t) }
#[verifier::opaque] pub open spec fn scenes_in_time(m: vstd::map::Map<LongToken, SceneInternal>, sm: vstd::map::Map<LongToken, SampleInternal>, s: Seq<LongToken>) -> bool { lists_keys(m, s) && forall|i: int, j: int| 0 <= i < j < s.len() ==> t_le(start(sm, m[#[trigger] s[i]]), start(sm, m[#[trigger] s[j]])) }
pub open spec fn starts_upto(s: Ents<'_, SceneInternal>, sm: vstd::map::Map<LongToken, SampleInternal>, p: Stamps<'_>, k: int) -> bool { p.len() == k && forall|j: int| 0 <= j < k ==> (#[trigger] p[j]).0 == s[j].0 && is_start(sm, *s[j].1, p[j].1) }
pub open spec fn stamps_upto(s: Seq<LongToken>, sm: vstd::map::Map<LongToken, SampleInternal>, p: Seq<Time>, k: int) -> bool { p.len() == k && forall|j: int| 0 <= j < k ==> #[trigger] p[j] == sm[s[j]].timestamp }
pub open spec fn min_upto(s: Seq<Time>, o: Option<Time>, k: int) -> bool { match o { None => k == 0, Some(t) => (exists|j: int| 0 <= j < k && #[trigger] s[j] == t) && forall|j: int| 0 <= j < k ==> t_le(t, #[trigger] s[j]) } }
pub proof fn lemma_start(sm: vstd::map::Map<LongToken, SampleInternal>, x: SceneInternal, t: Time) requires is_start(sm, x, t) ensures start(sm, x) == t { ax_tlt(); let u = start(sm, x); assert(is_start(sm, x, u)); let a = choose|j: int| 0 <= j < x.sample_tokens@.len() && sm[#[trigger] x.sample_tokens@[j]].timestamp == t; let b = choose|j: int| 0 <= j < x.sample_tokens@.len() && sm[#[trigger] x.sample_tokens@[j]].timestamp == u; assert(t_le(t, u)); assert(t_le(u, t)); }
pub proof fn lemma_min(sm: vstd::map::Map<LongToken, SampleInternal>, x: SceneInternal, p: Seq<Time>, t: Time, n: int, k: int) requires stamps_upto(x.sample_tokens@, sm, p, n), n == x.sample_tokens@.len(), k == p.len(), min_upto(p, Some(t), k) ensures is_start(sm, x, t) { let j = choose|j: int| 0 <= j < k && #[trigger] p[j] == t; assert(sm[x.sample_tokens@[j]].timestamp == t); assert forall|j: int| 0 <= j < x.sample_tokens@.len() implies t_le(t, sm[#[trigger] x.sample_tokens@[j]].timestamp) by { assert(p[j] == sm[x.sample_tokens@[j]].timestamp); } }
pub proof fn lemma_mins() ensures forall|x: SceneInternal, sm: vstd::map::Map<LongToken, SampleInternal>, p: Seq<Time>, t: Time, n: int, k: int| #![trigger stamps_upto(x.sample_tokens@, sm, p, n), min_upto(p, Some(t), k)] stamps_upto(x.sample_tokens@, sm, p, n) && n == x.sample_tokens@.len() && k == p.len() && min_upto(p, Some(t), k) ==> is_start(sm, x, t)
{ assert forall|x: SceneInternal, sm: vstd::map::Map<LongToken, SampleInternal>, p: Seq<Time>, t: Time, n: int, k: int| #![trigger stamps_upto(x.sample_tokens@, sm, p, n), min_upto(p, Some(t), k)] stamps_upto(x.sample_tokens@, sm, p, n) && n == x.sample_tokens@.len() && k == p.len() && min_upto(p, Some(t), k) implies is_start(sm, x, t) by { lemma_min(sm, x, p, t, n, k); } }
/// An injection of a finite range into itself reaches everything.
pub proof fn lemma_reach(pi: Seq<int>, n: int, k: int) requires pi.len() == n, 0 <= k < n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pi[i] < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] pi[i] != #[trigger] pi[j] ensures exists|i: int| 0 <= i < n && #[trigger] pi[i] == k
{
  if forall|i: int| 0 <= i < n ==> #[trigger] pi[i] != k {
    let all = vstd::set_lib::set_int_range(0, n); vstd::set_lib::lemma_int_range(0, n);
    assert(pi.no_duplicates()); pi.unique_seq_to_set();
    assert(pi.to_set().subset_of(all.remove(k))) by { assert forall|x: int| pi.to_set().contains(x) implies all.remove(k).contains(x) by { let i = choose|i: int| 0 <= i < n && pi[i] == x; assert(pi[i] != k); } }
    vstd::set_lib::lemma_len_subset(pi.to_set(), all.remove(k));
  }
}
/// Reading the tokens off a sorted list of the entries.
pub proof fn lemma_order<V>(h: &HMap<LongToken, V>, p: Stamps<'_>, q: Stamps<'_>, t: Seq<LongToken>, pi: Seq<int>)
  requires p.len() == vents(h).len(), forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).0 == vents(h)[j].0, perm(p, q, pi), toks_upto(q, t, q.len() as int)
  ensures lists_keys(h@, t), forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] pi[i] < p.len() && t[i] == h.en()[pi[i]].0 && h@[t[i]] == h.en()[pi[i]].1 && q[i] == p[pi[i]]
{
  ax_en(*h); let n = p.len() as int;
  assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] pi[i] < n && t[i] == h.en()[pi[i]].0 && h@.contains_key(t[i]) && h@[t[i]] == h.en()[pi[i]].1 && q[i] == p[pi[i]] by { assert(t[i] == *q[i].0); assert(q[i] == p[pi[i]]); assert(h@.contains_key(h.en()[pi[i]].0)); }
  assert forall|i: int| 0 <= i < t.len() implies h@.contains_key(#[trigger] t[i]) by { assert(0 <= pi[i] < n); }
  assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { let a = if i < j { i } else { j }; let b = if i < j { j } else { i }; assert(pi[a] != pi[b]); let x = pi[a]; let y = pi[b]; if x < y { assert(h.en()[x].0 != h.en()[y].0); } else { assert(h.en()[y].0 != h.en()[x].0); } }
  assert forall|k: LongToken| #[trigger] h@.contains_key(k) implies t.contains(k) by { let z = lemma_at(h, k); lemma_reach(pi, n, z); let i = choose|i: int| 0 <= i < n && #[trigger] pi[i] == z; assert(t[i] == k); }
}
pub proof fn lemma_sorted<V: Timed>(h: &HMap<LongToken, V>, p: Stamps<'_>, q: Stamps<'_>, t: Seq<LongToken>) requires times_upto(vents(h), p, vents(h).len() as int), sorted_of(p, q), toks_upto(q, t, q.len() as int) ensures in_time(h@, t)
{ reveal(in_time::<EgoPose>);
  let pi = choose|pi: Seq<int>| #[trigger] perm(p, q, pi); lemma_order(h, p, q, t, pi);
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies t_le(h@[#[trigger] t[i]].tm(), h@[#[trigger] t[j]].tm()) by { assert(0 <= pi[i] < p.len() && 0 <= pi[j] < p.len()); assert(t_le(q[i].1, q[j].1)); assert(p[pi[i]].1 == h@[t[i]].tm()); assert(p[pi[j]].1 == h@[t[j]].tm()); }
}
pub proof fn lemma_sorteds<V: Timed>() ensures forall|h: &HMap<LongToken, V>, p: Stamps<'_>, q: Stamps<'_>, t: Seq<LongToken>, n: int, k: int| #![trigger times_upto(vents(h), p, n), sorted_of(p, q), toks_upto(q, t, k)] n == vents(h).len() && k == q.len() && times_upto(vents(h), p, n) && sorted_of(p, q) && toks_upto(q, t, k) ==> in_time(h@, t)
{ reveal(in_time::<EgoPose>); assert forall|h: &HMap<LongToken, V>, p: Stamps<'_>, q: Stamps<'_>, t: Seq<LongToken>, n: int, k: int| #![trigger times_upto(vents(h), p, n), sorted_of(p, q), toks_upto(q, t, k)] n == vents(h).len() && k == q.len() && times_upto(vents(h), p, n) && sorted_of(p, q) && toks_upto(q, t, k) implies in_time(h@, t) by { lemma_sorted(h, p, q, t); } }
pub proof fn lemma_sorted_sc(h: &HMap<LongToken, SceneInternal>, sm: vstd::map::Map<LongToken, SampleInternal>, p: Stamps<'_>, q: Stamps<'_>, t: Seq<LongToken>) requires starts_upto(vents(h), sm, p, vents(h).len() as int), sorted_of(p, q), toks_upto(q, t, q.len() as int) ensures scenes_in_time(h@, sm, t)
{ reveal(scenes_in_time);
  let pi = choose|pi: Seq<int>| #[trigger] perm(p, q, pi); lemma_order(h, p, q, t, pi);
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies t_le(start(sm, h@[#[trigger] t[i]]), start(sm, h@[#[trigger] t[j]])) by { assert(0 <= pi[i] < p.len() && 0 <= pi[j] < p.len()); assert(t_le(q[i].1, q[j].1)); assert(p[pi[i]].0 == vents(h)[pi[i]].0); assert(p[pi[j]].0 == vents(h)[pi[j]].0); lemma_start(sm, h@[t[i]], q[i].1); lemma_start(sm, h@[t[j]], q[j].1); }
}
pub proof fn lemma_sorted_scs() ensures forall|h: &HMap<LongToken, SceneInternal>, sm: vstd::map::Map<LongToken, SampleInternal>, p: Stamps<'_>, q: Stamps<'_>, t: Seq<LongToken>, n: int, k: int| #![trigger starts_upto(vents(h), sm, p, n), sorted_of(p, q), toks_upto(q, t, k)] n == vents(h).len() && k == q.len() && starts_upto(vents(h), sm, p, n) && sorted_of(p, q) && toks_upto(q, t, k) ==> scenes_in_time(h@, sm, t)
{ reveal(scenes_in_time); assert forall|h: &HMap<LongToken, SceneInternal>, sm: vstd::map::Map<LongToken, SampleInternal>, p: Stamps<'_>, q: Stamps<'_>, t: Seq<LongToken>, n: int, k: int| #![trigger starts_upto(vents(h), sm, p, n), sorted_of(p, q), toks_upto(q, t, k)] n == vents(h).len() && k == q.len() && starts_upto(vents(h), sm, p, n) && sorted_of(p, q) && toks_upto(q, t, k) implies scenes_in_time(h@, sm, t) by { lemma_sorted_sc(h, sm, p, q, t); } }
// ----- loading -----
pub open spec fn prevs<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int, o: Option<&LongToken>) -> bool { match o { Some(u) => k > 0 && walk(m, f, k - 1) == Some(*u), None => k == 0 } }
/// After `k` steps along the chain from `f`: the next record is `t`, the one before was `p`.
#[verifier::opaque] pub open spec fn stepped<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int, t: LongToken, p: Option<&LongToken>) -> bool { k >= 0 && walked(m, f, k) && walk(m, f, k) == Some(t) && prevs(m, f, k, p) }
pub open spec fn linked_back(p: Option<&LongToken>, q: Option<LongToken>) -> bool { match p { Some(u) => q == Some(*u), None => q is None } }
pub proof fn lemma_next<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int, t: LongToken) requires k >= 0, walk(m, f, k) == Some(t) ensures walk(m, f, k + 1) == m[t].nxt() {}
pub proof fn lemma_more<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int, t: LongToken) requires k >= 0, walked(m, f, k), walk(m, f, k) == Some(t), m.contains_key(t), m[t].prv() == (if k == 0 { None } else { walk(m, f, k - 1) }) ensures walked(m, f, k + 1)
{ assert forall|q: int| 0 <= q < k + 1 implies (#[trigger] walk(m, f, q)) is Some && m.contains_key(walk(m, f, q)->0) && m[walk(m, f, q)->0].prv() == (if q == 0 { None } else { walk(m, f, q - 1) }) by { if q < k {} else { assert(q == k); } } }
pub proof fn lemma_stepped<V: Link>(m: vstd::map::Map<LongToken, V>, f: LongToken, k: int, t: &LongToken) requires k >= 0, walked(m, f, k + 1), walk(m, f, k) == Some(*t), walk(m, f, k + 1) == m[*t].nxt() ensures match m[*t].nxt() { Some(u) => stepped(m, f, k + 1, u, Some(t)), None => chain(m, f, *t, k + 1) }
{ reveal(stepped::<Sample>); reveal(chain::<Sample>); }
pub proof fn lemma_step0<V: Link>(h: &HMap<LongToken, V>, f: LongToken) ensures stepped(h@, f, 0, f, None) { reveal(stepped::<Sample>);}
pub proof fn lemma_step<V: Link>(h: &HMap<LongToken, V>, f: LongToken, k: int, t: &LongToken, p: Option<&LongToken>) ensures stepped(h@, f, k, *t, p) && h@.contains_key(*t) && linked_back(p, h@[*t].prv()) ==> k + 1 <= h.en().len() < usize::MAX && (match h@[*t].nxt() { Some(u) => stepped(h@, f, k + 1, u, Some(t)), None => chain(h@, f, *t, k + 1) })
{ if stepped(h@, f, k, *t, p) && h@.contains_key(*t) && linked_back(p, h@[*t].prv()) {
    reveal(stepped::<Sample>); lemma_more(h@, f, k, *t); lemma_walk_len(*h, f, k + 1); ax_en(*h); lemma_next(h@, f, k, *t); lemma_stepped(h@, f, k, t); } }
pub uninterp spec fn de_Attribute(t: VTok, v: Attribute) -> bool;
impl De for Attribute { open spec fn de(t: VTok, v: Self) -> bool { de_Attribute(t, v) } }
pub uninterp spec fn de_CalibratedSensor(t: VTok, v: CalibratedSensor) -> bool;
impl De for CalibratedSensor { open spec fn de(t: VTok, v: Self) -> bool { de_CalibratedSensor(t, v) } }
pub uninterp spec fn de_Category(t: VTok, v: Category) -> bool;
impl De for Category { open spec fn de(t: VTok, v: Self) -> bool { de_Category(t, v) } }
pub uninterp spec fn de_EgoPose(t: VTok, v: EgoPose) -> bool;
impl De for EgoPose { open spec fn de(t: VTok, v: Self) -> bool { de_EgoPose(t, v) } }
pub uninterp spec fn de_Instance(t: VTok, v: Instance) -> bool;
impl De for Instance { open spec fn de(t: VTok, v: Self) -> bool { de_Instance(t, v) } }
pub uninterp spec fn de_Log(t: VTok, v: Log) -> bool;
impl De for Log { open spec fn de(t: VTok, v: Self) -> bool { de_Log(t, v) } }
pub uninterp spec fn de_Sample(t: VTok, v: Sample) -> bool;
impl De for Sample { open spec fn de(t: VTok, v: Self) -> bool { de_Sample(t, v) } }
pub uninterp spec fn de_SampleAnnotation(t: VTok, v: SampleAnnotation) -> bool;
impl De for SampleAnnotation { open spec fn de(t: VTok, v: Self) -> bool { de_SampleAnnotation(t, v) } }
pub uninterp spec fn de_SampleData(t: VTok, v: SampleData) -> bool;
impl De for SampleData { open spec fn de(t: VTok, v: Self) -> bool { de_SampleData(t, v) } }
pub uninterp spec fn de_Scene(t: VTok, v: Scene) -> bool;
impl De for Scene { open spec fn de(t: VTok, v: Self) -> bool { de_Scene(t, v) } }
pub uninterp spec fn de_Sensor(t: VTok, v: Sensor) -> bool;
impl De for Sensor { open spec fn de(t: VTok, v: Self) -> bool { de_Sensor(t, v) } }
pub uninterp spec fn de_Map(t: VTok, v: Map) -> bool;
impl De for Map { open spec fn de(t: VTok, v: Self) -> bool { de_Map(t, v) } }
pub uninterp spec fn de_Visibility(t: VTok, v: Visibility) -> bool;
impl De for Visibility { open spec fn de(t: VTok, v: Self) -> bool { de_Visibility(t, v) } }
/// The records are consistent, and the dataset holds them, converted, grouped and ordered (C15, C16); `im`, `cm`, `sm`: the instances, scenes and samples as read.
pub open spec fn built(n: NuScenes, im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>) -> bool {
  own_tok(im) && own_tok(cm) && own_tok(sm) && own_tok(n.attribute_map@) && own_tok(n.calibrated_sensor_map@) && own_tok(n.category_map@) && own_tok(n.ego_pose_map@) && own_tok(n.log_map@) && own_tok(n.sample_annotation_map@) && own_tok(n.sample_data_map@) && own_tok(n.sensor_map@)
  && cs_all(n.calibrated_sensor_map@, n.sensor_map@.dom())
  && inst_all(im, n.sample_annotation_map@, n.category_map@.dom()) && inst_done(n.instance_map@, im, n.sample_annotation_map@)
  && scene_all(cm, n.log_map@.dom(), sm) && scene_done(n.scene_map@, cm, sm)
  && samp_all(sm, cm.dom(), sm.dom()) && samp_done(n.sample_map@, sm, n.sample_annotation_map@, n.sample_data_map@)
  && ann_all(n.sample_annotation_map@, sm.dom(), im.dom(), n.attribute_map@, n.visibility_map@.dom(), n.sample_annotation_map@.dom())
  && sd_all(n.sample_data_map@, sm.dom(), n.ego_pose_map@.dom(), n.calibrated_sensor_map@.dom(), n.sample_data_map@.dom())
  && in_time(n.ego_pose_map@, n.sorted_ego_pose_tokens@) && in_time(n.sample_map@, n.sorted_sample_tokens@) && in_time(n.sample_data_map@, n.sorted_sample_data_tokens@) && scenes_in_time(n.scene_map@, n.sample_map@, n.sorted_scene_tokens@)
}
/// The files the dataset is read from.
pub open spec fn files(n: NuScenes, p: Seq<char>, im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>) -> bool {
  reads(pjoin(p, "attribute.json"@), n.attribute_map@)
  && reads(pjoin(p, "calibrated_sensor.json"@), n.calibrated_sensor_map@)
  && reads(pjoin(p, "category.json"@), n.category_map@)
  && reads(pjoin(p, "ego_pose.json"@), n.ego_pose_map@)
  && reads(pjoin(p, "instance.json"@), im)
  && reads(pjoin(p, "log.json"@), n.log_map@)
  && reads(pjoin(p, "map.json"@), n.map_map@)
  && reads(pjoin(p, "sample.json"@), sm)
  && reads(pjoin(p, "sample_annotation.json"@), n.sample_annotation_map@)
  && reads(pjoin(p, "sample_data.json"@), n.sample_data_map@)
  && reads(pjoin(p, "scene.json"@), cm)
  && reads(pjoin(p, "sensor.json"@), n.sensor_map@)
  && reads(pjoin(p, "visibility.json"@), n.visibility_map@)
}
#[verifier::opaque] pub open spec fn seen(im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>) -> bool { true }
pub proof fn lemma_seen(im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>) ensures seen(im, cm, sm) { reveal(seen); }
/// The dataset read from a directory.
pub open spec fn loads(version: Seq<char>, dir: Seq<char>, n: NuScenes) -> bool { exists|im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>| #[trigger] seen(im, cm, sm) && built(n, im, cm, sm) && files(n, pjoin(dir, version), im, cm, sm) }
/// Every sample lists sample data and annotations that refer to it (C16).
pub open spec fn grouped(n: NuScenes) -> bool {
  (forall|s: LongToken, j: int| #![trigger n.sample_map@[s].annotation_tokens@[j]] n.sample_map@.contains_key(s) && 0 <= j < n.sample_map@[s].annotation_tokens@.len() ==> n.sample_annotation_map@[n.sample_map@[s].annotation_tokens@[j]].sample_token == s)
  && (forall|s: LongToken, j: int| #![trigger n.sample_map@[s].sample_data_tokens@[j]] n.sample_map@.contains_key(s) && 0 <= j < n.sample_map@[s].sample_data_tokens@.len() ==> n.sample_data_map@[n.sample_map@[s].sample_data_tokens@[j]].sample_token == s) }
pub proof fn lemma_sample_at(n: NuScenes, im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>, t: LongToken) requires built(n, im, cm, sm), n.sample_map@.contains_key(t) ensures sm.contains_key(t), samp_conv(n.sample_annotation_map@, n.sample_data_map@, sm[t], n.sample_map@[t]), sample_refs(n, n.sample_map@[t]), n.sample_map@[t].token == t,
  forall|j: int| 0 <= j < n.sample_map@[t].annotation_tokens@.len() ==> n.sample_annotation_map@[#[trigger] n.sample_map@[t].annotation_tokens@[j]].sample_token == t, forall|j: int| 0 <= j < n.sample_map@[t].sample_data_tokens@.len() ==> n.sample_data_map@[#[trigger] n.sample_map@[t].sample_data_tokens@[j]].sample_token == t
{ lemma_doms(n, im, cm, sm); reveal(samp_done); reveal(samp_all); reveal(own_tok::<Log>); assert(sm.contains_key(t)); assert(samp_chk(cm.dom(), sm.dom(), sm[t])); }
pub proof fn lemma_doms(n: NuScenes, im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>) requires built(n, im, cm, sm) ensures n.sample_map@.dom() == sm.dom(), n.scene_map@.dom() == cm.dom(), n.instance_map@.dom() == im.dom() { reveal(samp_done); reveal(scene_done); reveal(inst_done); }
pub proof fn lemma_scene_at(n: NuScenes, im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>, t: LongToken) requires built(n, im, cm, sm), n.scene_map@.contains_key(t) ensures cm.contains_key(t), scene_refs(n, n.scene_map@[t]), n.scene_map@[t].token == t, sample_chain(n, n.scene_map@[t].sample_tokens@), linked(sm, n.scene_map@[t].sample_tokens@)
{ lemma_doms(n, im, cm, sm); reveal(scene_done); reveal(scene_all); reveal(own_tok::<Log>); assert(cm.contains_key(t)); let x = n.scene_map@[t]; lemma_linked(sm, cm[t].first_sample_token, cm[t].last_sample_token, x.sample_tokens@);
  assert forall|i: int| 0 <= i < x.sample_tokens@.len() implies n.sample_map@[#[trigger] x.sample_tokens@[i]].prev == at(x.sample_tokens@, i - 1) && n.sample_map@[x.sample_tokens@[i]].next == at(x.sample_tokens@, i + 1) && n.sample_map@.contains_key(x.sample_tokens@[i]) by { let u = x.sample_tokens@[i]; assert(sm.contains_key(u)); assert(n.sample_map@.dom().contains(u)); lemma_sample_at(n, im, cm, sm, u); } }
pub proof fn lemma_inst_at(n: NuScenes, im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>, t: LongToken) requires built(n, im, cm, sm), n.instance_map@.contains_key(t) ensures im.contains_key(t), inst_refs(n, n.instance_map@[t]), n.instance_map@[t].token == t, ann_chain(n, n.instance_map@[t].annotation_tokens@)
{ lemma_doms(n, im, cm, sm); reveal(inst_done); reveal(inst_all); reveal(own_tok::<Log>); assert(im.contains_key(t)); let x = n.instance_map@[t]; assert(inst_chk(n.sample_annotation_map@, n.category_map@.dom(), im[t])); lemma_linked(n.sample_annotation_map@, im[t].first_annotation_token, im[t].last_annotation_token, x.annotation_tokens@); }
/// A dataset that loads satisfies the invariant of the navigation (C24) and of the conversion to frames (C17).
pub proof fn lemma_built(n: NuScenes, im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>) requires built(n, im, cm, sm) ensures wf(n), grouped(n)
{
  lemma_doms(n, im, cm, sm);
  assert(keyed(n)) by { reveal(own_tok::<Log>);
    assert forall|t: LongToken| #[trigger] n.instance_map@.contains_key(t) implies n.instance_map@[t].token == t by { lemma_inst_at(n, im, cm, sm, t); }
    assert forall|t: LongToken| #[trigger] n.scene_map@.contains_key(t) implies n.scene_map@[t].token == t by { lemma_scene_at(n, im, cm, sm, t); }
    assert forall|t: LongToken| #[trigger] n.sample_map@.contains_key(t) implies n.sample_map@[t].token == t by { lemma_sample_at(n, im, cm, sm, t); }
    assert forall|t: LongToken| #[trigger] n.attribute_map@.contains_key(t) implies n.attribute_map@[t].token == t by { assert(n.attribute_map@[t].tok() == t); }
    assert forall|t: LongToken| #[trigger] n.calibrated_sensor_map@.contains_key(t) implies n.calibrated_sensor_map@[t].token == t by { assert(n.calibrated_sensor_map@[t].tok() == t); }
    assert forall|t: LongToken| #[trigger] n.category_map@.contains_key(t) implies n.category_map@[t].token == t by { assert(n.category_map@[t].tok() == t); }
    assert forall|t: LongToken| #[trigger] n.ego_pose_map@.contains_key(t) implies n.ego_pose_map@[t].token == t by { assert(n.ego_pose_map@[t].tok() == t); }
    assert forall|t: LongToken| #[trigger] n.log_map@.contains_key(t) implies n.log_map@[t].token == t by { assert(n.log_map@[t].tok() == t); }
    assert forall|t: LongToken| #[trigger] n.sample_annotation_map@.contains_key(t) implies n.sample_annotation_map@[t].token == t by { assert(n.sample_annotation_map@[t].tok() == t); }
    assert forall|t: LongToken| #[trigger] n.sample_data_map@.contains_key(t) implies n.sample_data_map@[t].token == t by { assert(n.sample_data_map@[t].tok() == t); }
    assert forall|t: LongToken| #[trigger] n.sensor_map@.contains_key(t) implies n.sensor_map@[t].token == t by { assert(n.sensor_map@[t].tok() == t); }
  }
  assert(refs_ok(n)) by {
    assert forall|t: LongToken| #[trigger] n.calibrated_sensor_map@.contains_key(t) implies cs_refs(n, n.calibrated_sensor_map@[t]) by { reveal(cs_all); assert(cs_chk(n.sensor_map@.dom(), n.calibrated_sensor_map@[t])); }
    assert forall|t: LongToken| #[trigger] n.instance_map@.contains_key(t) implies inst_refs(n, n.instance_map@[t]) by { lemma_inst_at(n, im, cm, sm, t); }
    assert forall|t: LongToken| #[trigger] n.scene_map@.contains_key(t) implies scene_refs(n, n.scene_map@[t]) by { lemma_scene_at(n, im, cm, sm, t); }
    assert forall|t: LongToken| #[trigger] n.sample_map@.contains_key(t) implies sample_refs(n, n.sample_map@[t]) by { lemma_sample_at(n, im, cm, sm, t); }
    assert forall|t: LongToken| #[trigger] n.sample_annotation_map@.contains_key(t) implies ann_refs(n, n.sample_annotation_map@[t]) by { reveal(ann_all); assert(ann_chk(sm.dom(), im.dom(), n.attribute_map@, n.visibility_map@.dom(), n.sample_annotation_map@.dom(), n.sample_annotation_map@[t])); }
    assert forall|t: LongToken| #[trigger] n.sample_data_map@.contains_key(t) implies sd_refs(n, n.sample_data_map@[t]) by { reveal(sd_all); assert(sd_chk(sm.dom(), n.ego_pose_map@.dom(), n.calibrated_sensor_map@.dom(), n.sample_data_map@.dom(), n.sample_data_map@[t])); }
  }
  assert(sorted_in(n)) by { reveal(in_time::<EgoPose>); reveal(scenes_in_time); }
  assert(chained(n)) by {
    assert forall|t: LongToken| #[trigger] n.scene_map@.contains_key(t) implies sample_chain(n, n.scene_map@[t].sample_tokens@) by { lemma_scene_at(n, im, cm, sm, t); }
    assert forall|t: LongToken| #[trigger] n.instance_map@.contains_key(t) implies ann_chain(n, n.instance_map@[t].annotation_tokens@) by { lemma_inst_at(n, im, cm, sm, t); }
  }
  assert(grouped(n)) by {
    assert forall|s: LongToken, j: int| #![trigger n.sample_map@[s].annotation_tokens@[j]] n.sample_map@.contains_key(s) && 0 <= j < n.sample_map@[s].annotation_tokens@.len() implies n.sample_annotation_map@[n.sample_map@[s].annotation_tokens@[j]].sample_token == s by { lemma_sample_at(n, im, cm, sm, s); }
    assert forall|s: LongToken, j: int| #![trigger n.sample_map@[s].sample_data_tokens@[j]] n.sample_map@.contains_key(s) && 0 <= j < n.sample_map@[s].sample_data_tokens@.len() implies n.sample_data_map@[n.sample_map@[s].sample_data_tokens@[j]].sample_token == s by { lemma_sample_at(n, im, cm, sm, s); }
  }
}
pub proof fn lemma_loads() ensures forall|v: Seq<char>, d: Seq<char>, n: NuScenes| #[trigger] loads(v, d, n) ==> wf(n) && grouped(n)
{ assert forall|v: Seq<char>, d: Seq<char>, n: NuScenes| #[trigger] loads(v, d, n) implies wf(n) && grouped(n) by { let (im, cm, sm) = choose|im: vstd::map::Map<LongToken, Instance>, cm: vstd::map::Map<LongToken, Scene>, sm: vstd::map::Map<LongToken, Sample>| #[trigger] seen(im, cm, sm) && built(n, im, cm, sm) && files(n, pjoin(d, v), im, cm, sm); lemma_built(n, im, cm, sm); } }
//@fn dataset/nuscenes.rs NuScenes::load(version, dir) -> r {{gen=S:&str,P:&VPath;isolate}}
ensures r is Ok ==> loads(version@, dir.pt(), r->Ok_0)
start lemma_tok_eq(); lemma_checks(); lemma_insts(); lemma_scenes(); lemma_samps(); lemma_mins(); lemma_sorted_scs();
start lemma_groups::<SampleAnnotation>(); lemma_groups::<SampleData>();
start lemma_sorteds::<EgoPose>(); lemma_sorteds::<SampleInternal>(); lemma_sorteds::<SampleData>();
start lemma_own::<Attribute>();
start lemma_own::<CalibratedSensor>();
start lemma_own::<Category>();
start lemma_own::<EgoPose>();
start lemma_own::<Instance>();
start lemma_own::<Log>();
start lemma_own::<Sample>();
start lemma_own::<SampleAnnotation>();
start lemma_own::<SampleData>();
start lemma_own::<Scene>();
start lemma_own::<Sensor>();
inv@0 (S:(ShortToken,Map), A:Map<ShortToken,Map>) indexed($s, $A@, $i as int)
inv@0 (S:(str,Visibility), A:Map<str,Visibility>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,Attribute), A:Map<LongToken,Attribute>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,CalibratedSensor), A:Map<LongToken,CalibratedSensor>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,Category), A:Map<LongToken,Category>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,EgoPose), A:Map<LongToken,EgoPose>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,Instance), A:Map<LongToken,Instance>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,Log), A:Map<LongToken,Log>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,SampleAnnotation), A:Map<LongToken,SampleAnnotation>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,SampleData), A:Map<LongToken,SampleData>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,Sample), A:Map<LongToken,Sample>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,Scene), A:Map<LongToken,Scene>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,Sensor), A:Map<LongToken,Sensor>) indexed($s, $A@, $i as int)
inv@0 (S:(LongToken,CalibratedSensor), U:Map<LongToken,Sensor>) cs_upto($s, $U@.dom(), $i as int)
inv@0 (S:(LongToken,Instance), U:Map<LongToken,SampleAnnotation>, V:Map<LongToken,Category>) inst_upto($s, $U@, $V@.dom(), $i as int)
inv@0 (S:(LongToken,Scene), U:Map<LongToken,Sample>, V:Map<LongToken,Log>) scene_upto($s, $V@.dom(), $U@, $i as int)
inv@0 (S:(LongToken,Sample), U:Map<LongToken,Scene>, V:Map<LongToken,Sample>) samp_upto($s, $U@.dom(), $V@.dom(), $i as int)
inv@0 (S:(LongToken,SampleAnnotation), U:Map<LongToken,Sample>, V:Map<LongToken,Instance>, W:Map<LongToken,Attribute>) ann_upto($s, $U@.dom(), $V@.dom(), $W@, visibility_map@.dom(), sample_annotation_map@.dom(), $i as int)
inv@0 (S:(LongToken,SampleData), U:Map<LongToken,Sample>, V:Map<LongToken,EgoPose>, W:Map<LongToken,CalibratedSensor>) sd_upto($s, $U@.dom(), $V@.dom(), $W@.dom(), sample_data_map@.dom(), $i as int)
inv@1 (S:LongToken, U:Map<LongToken,Attribute>, V:SampleAnnotation) forall|j: int| 0 <= j < $i ==> $U@.contains_key(#[trigger] $s[j])
pre@1 (A:Option<LongToken>, U:Map<LongToken,SampleAnnotation>, V:Instance) lemma_step0(&$U, $V.first_annotation_token);
xinv@1 (A:LongToken, B:Option<LongToken>, U:Map<LongToken,SampleAnnotation>, V:Instance) stepped($U@, $V.first_annotation_token, $i, *$A, $B)
inv@1 (A:Option<LongToken>, U:Map<LongToken,SampleAnnotation>, V:Instance) $i <= $U.en().len()
inv@1 (A:int, B:Option<LongToken>, U:Map<LongToken,SampleAnnotation>, V:Instance) $A == $i
lens@1 (A:Option<LongToken>, U:Map<LongToken,SampleAnnotation>, V:Instance) inst_chain($U@, *$V)
begin@1 (A:LongToken, B:Option<LongToken>, U:Map<LongToken,SampleAnnotation>, V:Instance) lemma_step(&$U, $V.first_annotation_token, $i - 1, $A, $B);
dec@1 (A:Option<LongToken>, U:Map<LongToken,SampleAnnotation>, V:Instance) $U.en().len() + 1 - $i
pre@1 (A:Option<LongToken>, U:Map<LongToken,Sample>, V:Scene) lemma_step0(&$U, $V.first_sample_token);
xinv@1 (A:LongToken, B:Option<LongToken>, U:Map<LongToken,Sample>, V:Scene) stepped($U@, $V.first_sample_token, $i, *$A, $B)
inv@1 (A:Option<LongToken>, U:Map<LongToken,Sample>, V:Scene) $i <= $U.en().len()
inv@1 (A:int, B:Option<LongToken>, U:Map<LongToken,Sample>, V:Scene) $A == $i
lens@1 (A:Option<LongToken>, U:Map<LongToken,Sample>, V:Scene) scene_chain($U@, *$V)
begin@1 (A:LongToken, B:Option<LongToken>, U:Map<LongToken,Sample>, V:Scene) lemma_step(&$U, $V.first_sample_token, $i - 1, $A, $B);
dec@1 (A:Option<LongToken>, U:Map<LongToken,Sample>, V:Scene) $U.en().len() + 1 - $i
begin@1 lemma_tok_eq();
inv@0 (S:(LongToken,LongToken), A:Vec<(LongToken,LongToken)>) pairs($s, $A@, $i as int)
inv@0 (S:Result<(LongToken,InstanceInternal),?>, A:Map<LongToken,InstanceInternal>, U:Map<LongToken,SampleAnnotation>) inst_pre($s, $U@) && own_tok($U@)
inv@0 (S:Result<(LongToken,InstanceInternal),?>, A:Map<LongToken,InstanceInternal>, U:Map<LongToken,SampleAnnotation>) inst_part($s, $U@, $A@, $i as int)
inv@0 (S:Result<(LongToken,SceneInternal),?>, A:Map<LongToken,SceneInternal>, U:Map<LongToken,Sample>) scene_pre($s, $U@) && own_tok($U@)
inv@0 (S:Result<(LongToken,SceneInternal),?>, A:Map<LongToken,SceneInternal>, U:Map<LongToken,Sample>) scene_part($s, $U@, $A@, $i as int)
inv@0 (S:Result<(LongToken,SampleInternal),?>) samp_ents($s)
inv@0 (S:Result<(LongToken,SampleInternal),?>, A:Map<LongToken,Vec<LongToken>>, U:Map<LongToken,SampleAnnotation>) grps_from($s, $A@, $U@, $i as int)
inv@0 (S:Result<(LongToken,SampleInternal),?>, A:Map<LongToken,Vec<LongToken>>, U:Map<LongToken,SampleData>) grps_from($s, $A@, $U@, $i as int)
inv@0 (S:Result<(LongToken,SampleInternal),?>, A:Map<LongToken,SampleInternal>, U:Map<LongToken,SampleAnnotation>, V:Map<LongToken,SampleData>) samp_part($s, $U@, $V@, $A@, $i as int)
inv@0 (S:(LongToken,NaiveDateTime), A:Vec<(LongToken,NaiveDateTime)>) times_upto($s, $A@, $i as int)
inv@0 (A:Vec<LongToken>) toks_upto($s, $A@, $i as int)
inv@0 (A:Vec<?>) toks_upto($s, $A@, $i as int)
inv@0 (A:Vec<(LongToken,?)>, U:Map<LongToken,SampleInternal>) starts_upto($s, $U@, $A@, $i as int)
inv@1 (S:Result<NaiveDateTime,?>, A:Vec<NaiveDateTime>, U:Map<LongToken,SampleInternal>) stamps_upto($s, $U@, $A@, $i as int)
inv@1 (A:Option<?>) min_upto($s, $A, $i as int)
begin (A:Vec<(LongToken,?)>) lemma_mins(); ax_tlt();
pre@0 (S:(LongToken,NaiveDateTime), U:Map<LongToken,Instance>, V:Map<LongToken,Scene>, W:Map<LongToken,Sample>) lemma_seen($U@, $V@, $W@);
clos vret == $0.1
aft assert(sorted_of($p, $0@));
//@end
