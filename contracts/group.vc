//@needs filter
//@type result/object.rs PerceptionResult
pub open spec fn ol(l: Label) -> spec_fn(DynamicObject) -> bool { |o: DynamicObject| o.label == l }
pub open spec fn rl(l: Label) -> spec_fn(PerceptionResult) -> bool { |o: PerceptionResult| o.estimated_object.label == l }
/// Every target label, and no other label, has the group of exactly its items in input order.
pub open spec fn grouped_o(m: Map<Label, Vec<DynamicObject>>, s: Seq<DynamicObject>, ls: Seq<Label>) -> bool { (forall|k: Label| #[trigger] m.contains_key(k) <==> lab_in(ls, k)) && (forall|k: Label| #[trigger] m.contains_key(k) ==> m[k]@ == s.filter(ol(k))) }
pub open spec fn grouped_r(m: Map<Label, Vec<PerceptionResult>>, s: Seq<PerceptionResult>, ls: Seq<Label>) -> bool { (forall|k: Label| #[trigger] m.contains_key(k) <==> lab_in(ls, k)) && (forall|k: Label| #[trigger] m.contains_key(k) ==> m[k]@ == s.filter(rl(k))) }
pub open spec fn counted_o(m: Map<Label, usize>, s: Seq<DynamicObject>, ls: Seq<Label>) -> bool { (forall|k: Label| #[trigger] m.contains_key(k) <==> lab_in(ls, k)) && (forall|k: Label| #[trigger] m.contains_key(k) ==> m[k] == s.filter(ol(k)).len()) }
pub open spec fn counted_r(m: Map<Label, usize>, s: Seq<PerceptionResult>, ls: Seq<Label>) -> bool { (forall|k: Label| #[trigger] m.contains_key(k) <==> lab_in(ls, k)) && (forall|k: Label| #[trigger] m.contains_key(k) ==> m[k] == s.filter(rl(k)).len()) }
pub open spec fn fstep<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool) -> bool { s.take(i + 1).filter(p) == (if p(s[i]) { s.take(i).filter(p).push(s[i]) } else { s.take(i).filter(p) }) && s.take(i).filter(p).len() <= i && s.take(i + 1).filter(p).len() <= i + 1 }
pub proof fn lemma_flen<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures s.filter(p).len() <= s.len() decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { lemma_flen(s.drop_last(), p); } }
pub proof fn lemma_step_o(s: Seq<DynamicObject>, i: int) requires 0 <= i < s.len() ensures forall|k: Label| #[trigger] s.take(i + 1).filter(ol(k)) == (if s[i].label == k { s.take(i).filter(ol(k)).push(s[i]) } else { s.take(i).filter(ol(k)) }), forall|k: Label| (#[trigger] s.take(i).filter(ol(k))).len() <= i
{ assert forall|k: Label| #[trigger] s.take(i + 1).filter(ol(k)) == (if s[i].label == k { s.take(i).filter(ol(k)).push(s[i]) } else { s.take(i).filter(ol(k)) }) by { lemma_filter_step(s, i, ol(k)); }
  assert forall|k: Label| (#[trigger] s.take(i).filter(ol(k))).len() <= i by { lemma_flen(s.take(i), ol(k)); } }
pub proof fn lemma_step_r(s: Seq<PerceptionResult>, i: int) requires 0 <= i < s.len() ensures forall|k: Label| #[trigger] s.take(i + 1).filter(rl(k)) == (if s[i].estimated_object.label == k { s.take(i).filter(rl(k)).push(s[i]) } else { s.take(i).filter(rl(k)) }), forall|k: Label| (#[trigger] s.take(i).filter(rl(k))).len() <= i
{ assert forall|k: Label| #[trigger] s.take(i + 1).filter(rl(k)) == (if s[i].estimated_object.label == k { s.take(i).filter(rl(k)).push(s[i]) } else { s.take(i).filter(rl(k)) }) by { lemma_filter_step(s, i, rl(k)); }
  assert forall|k: Label| (#[trigger] s.take(i).filter(rl(k))).len() <= i by { lemma_flen(s.take(i), rl(k)); } }
pub proof fn lemma_zero_o(s: Seq<DynamicObject>) ensures forall|k: Label| #[trigger] s.take(0).filter(ol(k)) == Seq::<DynamicObject>::empty(), s.take(s.len() as int) == s
{ assert(s.take(s.len() as int) =~= s); assert forall|k: Label| #[trigger] s.take(0).filter(ol(k)) == Seq::<DynamicObject>::empty() by { lemma_filter_zero(s, ol(k)); } }
pub proof fn lemma_zero_r(s: Seq<PerceptionResult>) ensures forall|k: Label| #[trigger] s.take(0).filter(rl(k)) == Seq::<PerceptionResult>::empty(), s.take(s.len() as int) == s
{ assert(s.take(s.len() as int) =~= s); assert forall|k: Label| #[trigger] s.take(0).filter(rl(k)) == Seq::<PerceptionResult>::empty() by { lemma_filter_zero(s, rl(k)); } }
//@fn filter.rs hash_objects(objects, target_labels) -> r
ensures grouped_o(r@, objects.vs(), target_labels.vs())
start lemma_zero_o(objects.vs());
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) <==> exists|j: int| 0 <= j < $i && #[trigger] target_labels.vs()[j] == k
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k]@.len() == 0
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) <==> lab_in(target_labels.vs(), k)
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k]@ == objects.vs().take($i as int).filter(ol(k))
begin lemma_step_o(objects.vs(), $i - 1);
//@end
//@fn filter.rs hash_num_objects(objects, target_labels) -> r
ensures counted_o(r@, objects.vs(), target_labels.vs())
start lemma_zero_o(objects.vs());
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) <==> exists|j: int| 0 <= j < $i && #[trigger] target_labels.vs()[j] == k
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k] == 0
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) <==> lab_in(target_labels.vs(), k)
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k] == objects.vs().take($i as int).filter(ol(k)).len()
begin lemma_step_o(objects.vs(), $i - 1);
//@end
//@fn filter.rs hash_results(results, target_labels) -> r
ensures grouped_r(r@, results.vs(), target_labels.vs())
start lemma_zero_r(results.vs());
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) <==> exists|j: int| 0 <= j < $i && #[trigger] target_labels.vs()[j] == k
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k]@.len() == 0
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) <==> lab_in(target_labels.vs(), k)
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k]@ == results.vs().take($i as int).filter(rl(k))
begin lemma_step_r(results.vs(), $i - 1);
//@end
//@fn filter.rs hash_num_results(results, target_labels) -> r
ensures counted_r(r@, results.vs(), target_labels.vs())
start lemma_zero_r(results.vs());
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) <==> exists|j: int| 0 <= j < $i && #[trigger] target_labels.vs()[j] == k
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k] == 0
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) <==> lab_in(target_labels.vs(), k)
inv (A:Map) forall|k: Label| #[trigger] $A@.contains_key(k) ==> $A@[k] == results.vs().take($i as int).filter(rl(k)).len()
begin lemma_step_r(results.vs(), $i - 1);
//@end
