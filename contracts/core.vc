//@type label.rs Label
//@type frame_id.rs FrameID
//@type object/object3d.rs DynamicObject noeq
impl VEq for DynamicObject { open spec fn eqs(&self, o: &Self) -> bool { self.timestamp == o.timestamp && self.frame_id == o.frame_id && self.position.eqs(&o.position) && self.orientation.eqs(&o.orientation) && self.label == o.label }
  #[verifier::external_body] fn veq(&self, o: &Self) -> (b: bool) { unimplemented!() } }
/// Position of the first occurrence of a label.
pub open spec fn first_at(ls: Seq<Label>, l: Label) -> int decreases ls.len() { if ls.len() == 0 { 0 } else if ls[0] == l { 0 } else { 1 + first_at(ls.drop_first(), l) } }
pub open spec fn lab_in(ls: Seq<Label>, l: Label) -> bool { exists|i: int| 0 <= i < ls.len() && #[trigger] ls[i] == l }
/// The threshold of a label: the value at the position of its first occurrence.
pub open spec fn thr_of<T>(ls: Seq<Label>, l: Label, t: Seq<T>) -> Option<T> { if lab_in(ls, l) { Some(t[first_at(ls, l)]) } else { None } }
pub proof fn lemma_first_at(ls: Seq<Label>, l: Label) ensures lab_in(ls, l) ==> 0 <= first_at(ls, l) < ls.len() && ls[first_at(ls, l)] == l, forall|j: int| 0 <= j < first_at(ls, l) && j < ls.len() ==> #[trigger] ls[j] != l, first_at(ls, l) <= ls.len(), !lab_in(ls, l) ==> first_at(ls, l) == ls.len()
  decreases ls.len()
{ if ls.len() > 0 && ls[0] != l { let t = ls.drop_first(); lemma_first_at(t, l);
    assert forall|j: int| 0 <= j < first_at(ls, l) && j < ls.len() implies #[trigger] ls[j] != l by { if j > 0 { assert(t[j - 1] == ls[j]); } }
    if lab_in(ls, l) { let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i] == l; assert(t[i - 1] == l); }
    if lab_in(t, l) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == l; assert(ls[i + 1] == l); } }
  else if ls.len() > 0 { assert(ls[0] == l); } }
/// Index `k` is the first occurrence.
pub proof fn lemma_first_is(ls: Seq<Label>, l: Label, k: int) requires 0 <= k < ls.len(), ls[k] == l, forall|j: int| 0 <= j < k ==> ls[j] != l ensures lab_in(ls, l), first_at(ls, l) == k
{ lemma_first_at(ls, l); assert(ls[k] == l); }
pub proof fn lemma_seq_has_label(ls: Seq<Label>, l: Label) ensures seq_has(ls, l) == lab_in(ls, l)
{ if seq_has(ls, l) { let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i].eqs(&l); assert(ls[i] == l); }
  if lab_in(ls, l) { let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i] == l; assert(ls[i].eqs(&l)); } }
