//@needs core
//@type threshold.rs LabelThreshold
//@fn threshold.rs get_label_threshold(label, target_labels, thresholds) -> r {{generics=<T: Copy>}}
requires thresholds@.len() >= target_labels.vs().len()
ensures r == thr_of(target_labels.vs(), *label, thresholds@)
start lemma_first_at(target_labels.vs(), *label);
start lemma_seq_has_label(target_labels.vs(), *label);
inv forall|j: int| 0 <= j < $i ==> #[trigger] target_labels.vs()[j] != *label
inv (A:Option) $A is Some ==> 0 <= $A->0 < target_labels.vs().len() && target_labels.vs()[$A->0 as int] == *label && forall|j: int| 0 <= j < $A->0 ==> #[trigger] target_labels.vs()[j] != *label
inv (A:Option) $A is None ==> forall|j: int| 0 <= j < $i ==> #[trigger] target_labels.vs()[j] != *label
inv (A:usize) forall|j: int| 0 <= j < $A ==> #[trigger] target_labels.vs()[j] != *label
inv (A:usize) $A == $i
//@end
//@fn threshold.rs LabelThreshold::new(label, target_labels) -> r
ensures r.label == label, r.target_labels == target_labels
//@end
//@fn threshold.rs LabelThreshold::get_threshold(thresholds) -> r {{generics=<T: Copy>}}
requires thresholds@.len() >= self.target_labels@.len()
ensures r == thr_of(self.target_labels@, *self.label, thresholds@)
//@end
