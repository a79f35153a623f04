//@needs nusc
//@rename_t SliceIter SliceIt
//@rename_t HashMapKeys KeysIt
//@type dataset/nuscenes.rs WithDataset manual
//@type dataset/nuscenes/iter.rs Iter
use core::marker::PhantomData;
// ----- a loaded dataset (C15, C16): what loading establishes -----
/// Every record is stored under its own token.
pub open spec fn keyed(n: NuScenes) -> bool {
  (forall|t: LongToken| #[trigger] n.attribute_map@.contains_key(t) ==> n.attribute_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.calibrated_sensor_map@.contains_key(t) ==> n.calibrated_sensor_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.category_map@.contains_key(t) ==> n.category_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.ego_pose_map@.contains_key(t) ==> n.ego_pose_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.instance_map@.contains_key(t) ==> n.instance_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.log_map@.contains_key(t) ==> n.log_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.scene_map@.contains_key(t) ==> n.scene_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.sample_map@.contains_key(t) ==> n.sample_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.sample_annotation_map@.contains_key(t) ==> n.sample_annotation_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.sample_data_map@.contains_key(t) ==> n.sample_data_map@[t].token == t)
  && (forall|t: LongToken| #[trigger] n.sensor_map@.contains_key(t) ==> n.sensor_map@[t].token == t)
}
pub open spec fn opt_in<V>(t: Option<LongToken>, m: vstd::map::Map<LongToken, V>) -> bool { t is Some ==> m.contains_key(t->0) }
pub open spec fn all_in<V>(s: Seq<LongToken>, m: vstd::map::Map<LongToken, V>) -> bool { forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i]) }
pub open spec fn cs_refs(n: NuScenes, x: CalibratedSensor) -> bool { n.sensor_map@.contains_key(x.sensor_token) }
pub open spec fn inst_refs(n: NuScenes, x: InstanceInternal) -> bool { n.category_map@.contains_key(x.category_token) && all_in(x.annotation_tokens@, n.sample_annotation_map@) }
pub open spec fn scene_refs(n: NuScenes, x: SceneInternal) -> bool { n.log_map@.contains_key(x.log_token) && all_in(x.sample_tokens@, n.sample_map@) }
pub open spec fn sample_refs(n: NuScenes, x: SampleInternal) -> bool { n.scene_map@.contains_key(x.scene_token) && opt_in(x.prev, n.sample_map@) && opt_in(x.next, n.sample_map@) && all_in(x.annotation_tokens@, n.sample_annotation_map@) && all_in(x.sample_data_tokens@, n.sample_data_map@) }
pub open spec fn ann_refs(n: NuScenes, x: SampleAnnotation) -> bool { n.sample_map@.contains_key(x.sample_token) && n.instance_map@.contains_key(x.instance_token) && all_in(x.attribute_tokens@, n.attribute_map@) && opt_in(x.prev, n.sample_annotation_map@) && opt_in(x.next, n.sample_annotation_map@) && (x.visibility_token is Some ==> n.visibility_map@.contains_key(x.visibility_token->0)) }
pub open spec fn sd_refs(n: NuScenes, x: SampleData) -> bool { n.sample_map@.contains_key(x.sample_token) && n.ego_pose_map@.contains_key(x.ego_pose_token) && n.calibrated_sensor_map@.contains_key(x.calibrated_sensor_token) && opt_in(x.prev, n.sample_data_map@) && opt_in(x.next, n.sample_data_map@) }
/// Every reference that is followed refers to an existing record.
pub open spec fn refs_ok(n: NuScenes) -> bool {
  (forall|t: LongToken| #[trigger] n.calibrated_sensor_map@.contains_key(t) ==> cs_refs(n, n.calibrated_sensor_map@[t]))
  && (forall|t: LongToken| #[trigger] n.instance_map@.contains_key(t) ==> inst_refs(n, n.instance_map@[t]))
  && (forall|t: LongToken| #[trigger] n.scene_map@.contains_key(t) ==> scene_refs(n, n.scene_map@[t]))
  && (forall|t: LongToken| #[trigger] n.sample_map@.contains_key(t) ==> sample_refs(n, n.sample_map@[t]))
  && (forall|t: LongToken| #[trigger] n.sample_annotation_map@.contains_key(t) ==> ann_refs(n, n.sample_annotation_map@[t]))
  && (forall|t: LongToken| #[trigger] n.sample_data_map@.contains_key(t) ==> sd_refs(n, n.sample_data_map@[t]))
}
pub open spec fn sorted_in(n: NuScenes) -> bool { all_in(n.sorted_ego_pose_tokens@, n.ego_pose_map@) && all_in(n.sorted_sample_tokens@, n.sample_map@) && all_in(n.sorted_sample_data_tokens@, n.sample_data_map@) && all_in(n.sorted_scene_tokens@, n.scene_map@) }
/// A chain of samples or annotations: each is linked to its neighbours in both directions.
pub open spec fn at(s: Seq<LongToken>, i: int) -> Option<LongToken> { if 0 <= i < s.len() { Some(s[i]) } else { None } }
pub open spec fn sample_chain(n: NuScenes, s: Seq<LongToken>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> n.sample_map@[#[trigger] s[i]].prev == at(s, i - 1) && n.sample_map@[s[i]].next == at(s, i + 1) }
pub open spec fn ann_chain(n: NuScenes, s: Seq<LongToken>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> n.sample_annotation_map@[#[trigger] s[i]].prev == at(s, i - 1) && n.sample_annotation_map@[s[i]].next == at(s, i + 1) }
pub open spec fn chained(n: NuScenes) -> bool {
  (forall|t: LongToken| #[trigger] n.scene_map@.contains_key(t) ==> sample_chain(n, n.scene_map@[t].sample_tokens@))
  && (forall|t: LongToken| #[trigger] n.instance_map@.contains_key(t) ==> ann_chain(n, n.instance_map@[t].annotation_tokens@)) }
pub open spec fn wf(n: NuScenes) -> bool { keyed(n) && refs_ok(n) && sorted_in(n) && chained(n) }
// ----- records -----
/// `x` is a record of the dataset.
pub open spec fn is_sample(n: NuScenes, x: SampleInternal) -> bool { n.sample_map@.contains_key(x.token) && n.sample_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_scene(n: NuScenes, x: SceneInternal) -> bool { n.scene_map@.contains_key(x.token) && n.scene_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_log(n: NuScenes, x: Log) -> bool { n.log_map@.contains_key(x.token) && n.log_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_inst(n: NuScenes, x: InstanceInternal) -> bool { n.instance_map@.contains_key(x.token) && n.instance_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_cat(n: NuScenes, x: Category) -> bool { n.category_map@.contains_key(x.token) && n.category_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_sensor(n: NuScenes, x: Sensor) -> bool { n.sensor_map@.contains_key(x.token) && n.sensor_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_pose(n: NuScenes, x: EgoPose) -> bool { n.ego_pose_map@.contains_key(x.token) && n.ego_pose_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_cs(n: NuScenes, x: CalibratedSensor) -> bool { n.calibrated_sensor_map@.contains_key(x.token) && n.calibrated_sensor_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_ann(n: NuScenes, x: SampleAnnotation) -> bool { n.sample_annotation_map@.contains_key(x.token) && n.sample_annotation_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_sd(n: NuScenes, x: SampleData) -> bool { n.sample_data_map@.contains_key(x.token) && n.sample_data_map@[x.token] == x }
/// `x` is a record of the dataset.
pub open spec fn is_attr(n: NuScenes, x: Attribute) -> bool { n.attribute_map@.contains_key(x.token) && n.attribute_map@[x.token] == x }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, SampleInternal, It> { type It = WithDataset<'a, SampleInternal>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.sample_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, SampleInternal>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.sample_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, SceneInternal, It> { type It = WithDataset<'a, SceneInternal>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.scene_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, SceneInternal>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.scene_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, Log, It> { type It = WithDataset<'a, Log>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.log_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, Log>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.log_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, InstanceInternal, It> { type It = WithDataset<'a, InstanceInternal>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.instance_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, InstanceInternal>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.instance_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, Category, It> { type It = WithDataset<'a, Category>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.category_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, Category>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.category_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, Sensor, It> { type It = WithDataset<'a, Sensor>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.sensor_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, Sensor>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.sensor_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, EgoPose, It> { type It = WithDataset<'a, EgoPose>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.ego_pose_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, EgoPose>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.ego_pose_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, CalibratedSensor, It> { type It = WithDataset<'a, CalibratedSensor>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.calibrated_sensor_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, CalibratedSensor>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.calibrated_sensor_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, SampleAnnotation, It> { type It = WithDataset<'a, SampleAnnotation>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.sample_annotation_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, SampleAnnotation>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.sample_annotation_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, SampleData, It> { type It = WithDataset<'a, SampleData>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.sample_data_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, SampleData>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.sample_data_map@[*self.tokens_iter.rest()[i]] }) } }
impl<'a, It: VIt<Item = &'a LongToken>> VNext for Iter<'a, Attribute, It> { type It = WithDataset<'a, Attribute>;
  open spec fn vok(&self) -> bool { forall|i: int| 0 <= i < self.tokens_iter.rest().len() ==> self.dataset.attribute_map@.contains_key(*(#[trigger] self.tokens_iter.rest()[i])) }
  open spec fn vns(&self) -> Seq<WithDataset<'a, Attribute>> { Seq::new(self.tokens_iter.rest().len(), |i: int| WithDataset { dataset: self.dataset, inner: &self.dataset.attribute_map@[*self.tokens_iter.rest()[i]] }) } }
//@fn dataset/nuscenes.rs WithDataset::refer(referred) -> r
ensures r.dataset == self.dataset, r.inner == referred
//@end
//@fn dataset/nuscenes.rs WithDataset::refer_iter(tokens_iter) -> r
ensures r.dataset == self.dataset, r.tokens_iter == tokens_iter
//@end
//@fn dataset/nuscenes.rs WithDataset::deref() -> r: &T {{key=WithDataset::deref;impl=impl<'a, T> WithDataset<'a, T>}}
ensures *r == *self.inner
//@end
//@fn dataset/nuscenes.rs NuScenes::refer_iter(tokens_iter) -> r
ensures *r.dataset == *self, r.tokens_iter == tokens_iter
//@end
//@fn dataset/nuscenes/iter.rs Iter::refer(referred) -> r {{impl=impl<'a, Value, It: VIt> Iter<'a, Value, It>}}
ensures r.dataset == self.dataset, r.inner == referred
//@end
//@fn dataset/nuscenes/iter_impl/sample.rs Iter::next() -> r: Option<WithDataset<'a, SampleInternal>> {{key=SampleInternal iterator;self=Iter<SampleInternal,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, SampleInternal, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_sample(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/scene.rs Iter::next() -> r: Option<WithDataset<'a, SceneInternal>> {{key=SceneInternal iterator;self=Iter<SceneInternal,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, SceneInternal, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_scene(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/log.rs Iter::next() -> r: Option<WithDataset<'a, Log>> {{key=Log iterator;self=Iter<Log,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, Log, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_log(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/instance.rs Iter::next() -> r: Option<WithDataset<'a, InstanceInternal>> {{key=InstanceInternal iterator;self=Iter<InstanceInternal,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, InstanceInternal, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_inst(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/category.rs Iter::next() -> r: Option<WithDataset<'a, Category>> {{key=Category iterator;self=Iter<Category,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, Category, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_cat(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/sensor.rs Iter::next() -> r: Option<WithDataset<'a, Sensor>> {{key=Sensor iterator;self=Iter<Sensor,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, Sensor, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_sensor(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/ego_pose.rs Iter::next() -> r: Option<WithDataset<'a, EgoPose>> {{key=EgoPose iterator;self=Iter<EgoPose,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, EgoPose, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_pose(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/calibrated_sensor.rs Iter::next() -> r: Option<WithDataset<'a, CalibratedSensor>> {{key=CalibratedSensor iterator;self=Iter<CalibratedSensor,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, CalibratedSensor, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_cs(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/sample_annotation.rs Iter::next() -> r: Option<WithDataset<'a, SampleAnnotation>> {{key=SampleAnnotation iterator;self=Iter<SampleAnnotation,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, SampleAnnotation, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_ann(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/sample_data.rs Iter::next() -> r: Option<WithDataset<'a, SampleData>> {{key=SampleData iterator;self=Iter<SampleData,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, SampleData, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_sd(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/attribute.rs Iter::next() -> r: Option<WithDataset<'a, Attribute>> {{key=Attribute iterator;self=Iter<Attribute,It>;impl=impl<'a, It: VIt<Item = &'a LongToken>> Iter<'a, Attribute, It>}}
requires wf(*old(self).dataset), old(self).vok()
ensures final(self).dataset == old(self).dataset, old(self).tokens_iter.rest().len() == 0 ==> r is None && final(self).tokens_iter.rest() == old(self).tokens_iter.rest(),
 old(self).tokens_iter.rest().len() > 0 ==> r is Some && r->0 == old(self).vns()[0] && is_attr(*old(self).dataset, *r->0.inner) && r->0.inner.token == *old(self).tokens_iter.rest()[0] && final(self).tokens_iter.rest() == old(self).tokens_iter.rest().skip(1)
//@end
//@fn dataset/nuscenes/iter_impl/sample.rs WithDataset::sample_annotation_iter() -> r {{key=SampleInternal::sample_annotation_iter;self=WithDataset<SampleInternal>}}
ensures r.dataset == self.dataset, refs_of(r.tokens_iter.rest(), self.inner.annotation_tokens@)
//@end
//@fn dataset/nuscenes/iter_impl/sample.rs WithDataset::sample_data_iter() -> r {{key=SampleInternal::sample_data_iter;self=WithDataset<SampleInternal>}}
ensures r.dataset == self.dataset, refs_of(r.tokens_iter.rest(), self.inner.sample_data_tokens@)
//@end
//@fn dataset/nuscenes/iter_impl/sample.rs WithDataset::scene() -> r {{key=SampleInternal::scene;self=WithDataset<SampleInternal>}}
requires wf(*self.dataset), is_sample(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_scene(*r.dataset, *r.inner), r.inner.token == self.inner.scene_token
//@end
//@fn dataset/nuscenes/iter_impl/sample.rs WithDataset::prev() -> r {{key=SampleInternal::prev;self=WithDataset<SampleInternal>}}
requires wf(*self.dataset), is_sample(*self.dataset, *self.inner)
ensures r is Some <==> self.inner.prev is Some, r is Some ==> r->0.dataset == self.dataset && is_sample(*self.dataset, *r->0.inner) && r->0.inner.token == self.inner.prev->0
//@end
//@fn dataset/nuscenes/iter_impl/sample.rs WithDataset::next() -> r {{key=SampleInternal::next;self=WithDataset<SampleInternal>}}
requires wf(*self.dataset), is_sample(*self.dataset, *self.inner)
ensures r is Some <==> self.inner.next is Some, r is Some ==> r->0.dataset == self.dataset && is_sample(*self.dataset, *r->0.inner) && r->0.inner.token == self.inner.next->0
//@end
//@fn dataset/nuscenes/iter_impl/sample_data.rs WithDataset::sample() -> r {{key=SampleData::sample;self=WithDataset<SampleData>}}
requires wf(*self.dataset), is_sd(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_sample(*r.dataset, *r.inner), r.inner.token == self.inner.sample_token
//@end
//@fn dataset/nuscenes/iter_impl/sample_data.rs WithDataset::ego_pose() -> r {{key=SampleData::ego_pose;self=WithDataset<SampleData>}}
requires wf(*self.dataset), is_sd(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_pose(*r.dataset, *r.inner), r.inner.token == self.inner.ego_pose_token
//@end
//@fn dataset/nuscenes/iter_impl/sample_data.rs WithDataset::calibrated_sensor() -> r {{key=SampleData::calibrated_sensor;self=WithDataset<SampleData>}}
requires wf(*self.dataset), is_sd(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_cs(*r.dataset, *r.inner), r.inner.token == self.inner.calibrated_sensor_token
//@end
//@fn dataset/nuscenes/iter_impl/sample_data.rs WithDataset::prev() -> r {{key=SampleData::prev;self=WithDataset<SampleData>}}
requires wf(*self.dataset), is_sd(*self.dataset, *self.inner)
ensures r is Some <==> self.inner.prev is Some, r is Some ==> r->0.dataset == self.dataset && is_sd(*self.dataset, *r->0.inner) && r->0.inner.token == self.inner.prev->0
//@end
//@fn dataset/nuscenes/iter_impl/sample_data.rs WithDataset::next() -> r {{key=SampleData::next;self=WithDataset<SampleData>}}
requires wf(*self.dataset), is_sd(*self.dataset, *self.inner)
ensures r is Some <==> self.inner.next is Some, r is Some ==> r->0.dataset == self.dataset && is_sd(*self.dataset, *r->0.inner) && r->0.inner.token == self.inner.next->0
//@end
//@fn dataset/nuscenes/iter_impl/sample_annotation.rs WithDataset::sample() -> r {{key=SampleAnnotation::sample;self=WithDataset<SampleAnnotation>}}
requires wf(*self.dataset), is_ann(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_sample(*r.dataset, *r.inner), r.inner.token == self.inner.sample_token
//@end
//@fn dataset/nuscenes/iter_impl/sample_annotation.rs WithDataset::instance() -> r {{key=SampleAnnotation::instance;self=WithDataset<SampleAnnotation>}}
requires wf(*self.dataset), is_ann(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_inst(*r.dataset, *r.inner), r.inner.token == self.inner.instance_token
//@end
//@fn dataset/nuscenes/iter_impl/sample_annotation.rs WithDataset::attribute_iter() -> r {{key=SampleAnnotation::attribute_iter;self=WithDataset<SampleAnnotation>}}
ensures r.dataset == self.dataset, refs_of(r.tokens_iter.rest(), self.inner.attribute_tokens@)
//@end
//@fn dataset/nuscenes/iter_impl/sample_annotation.rs WithDataset::prev() -> r {{key=SampleAnnotation::prev;self=WithDataset<SampleAnnotation>}}
requires wf(*self.dataset), is_ann(*self.dataset, *self.inner)
ensures r is Some <==> self.inner.prev is Some, r is Some ==> r->0.dataset == self.dataset && is_ann(*self.dataset, *r->0.inner) && r->0.inner.token == self.inner.prev->0
//@end
//@fn dataset/nuscenes/iter_impl/sample_annotation.rs WithDataset::next() -> r {{key=SampleAnnotation::next;self=WithDataset<SampleAnnotation>}}
requires wf(*self.dataset), is_ann(*self.dataset, *self.inner)
ensures r is Some <==> self.inner.next is Some, r is Some ==> r->0.dataset == self.dataset && is_ann(*self.dataset, *r->0.inner) && r->0.inner.token == self.inner.next->0
//@end
//@fn dataset/nuscenes/iter_impl/instance.rs WithDataset::category() -> r {{key=InstanceInternal::category;self=WithDataset<InstanceInternal>}}
requires wf(*self.dataset), is_inst(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_cat(*r.dataset, *r.inner), r.inner.token == self.inner.category_token
//@end
//@fn dataset/nuscenes/iter_impl/instance.rs WithDataset::sample_annotation_iter() -> r {{key=InstanceInternal::sample_annotation_iter;self=WithDataset<InstanceInternal>}}
ensures r.dataset == self.dataset, refs_of(r.tokens_iter.rest(), self.inner.annotation_tokens@)
//@end
//@fn dataset/nuscenes/iter_impl/scene.rs WithDataset::log() -> r {{key=SceneInternal::log;self=WithDataset<SceneInternal>}}
requires wf(*self.dataset), is_scene(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_log(*r.dataset, *r.inner), r.inner.token == self.inner.log_token
//@end
//@fn dataset/nuscenes/iter_impl/scene.rs WithDataset::sample_iter() -> r {{key=SceneInternal::sample_iter;self=WithDataset<SceneInternal>}}
ensures r.dataset == self.dataset, refs_of(r.tokens_iter.rest(), self.inner.sample_tokens@)
//@end
//@fn dataset/nuscenes/iter_impl/calibrated_sensor.rs WithDataset::sensor() -> r {{key=CalibratedSensor::sensor;self=WithDataset<CalibratedSensor>}}
requires wf(*self.dataset), is_cs(*self.dataset, *self.inner)
ensures r.dataset == self.dataset, is_sensor(*r.dataset, *r.inner), r.inner.token == self.inner.sensor_token
//@end
//@fn dataset/nuscenes/iter_impl/map.rs WithDataset::log_iter() -> r {{key=Map::log_iter;self=WithDataset<Map>}}
ensures r.dataset == self.dataset, refs_of(r.tokens_iter.rest(), self.inner.log_tokens@)
//@end
//@fn dataset/nuscenes.rs NuScenes::ego_pose_iter() -> r
ensures *r.dataset == *self, refs_of(r.tokens_iter.rest(), self.sorted_ego_pose_tokens@)
//@end
//@fn dataset/nuscenes.rs NuScenes::sample_iter() -> r
ensures *r.dataset == *self, refs_of(r.tokens_iter.rest(), self.sorted_sample_tokens@)
//@end
//@fn dataset/nuscenes.rs NuScenes::sample_data_iter() -> r
ensures *r.dataset == *self, refs_of(r.tokens_iter.rest(), self.sorted_sample_data_tokens@)
//@end
//@fn dataset/nuscenes.rs NuScenes::scene_iter() -> r
ensures *r.dataset == *self, refs_of(r.tokens_iter.rest(), self.sorted_scene_tokens@)
//@end
//@fn dataset/nuscenes.rs NuScenes::attribute_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.attribute_map@)
//@end
//@fn dataset/nuscenes.rs NuScenes::calibrated_sensor_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.calibrated_sensor_map@)
//@end
//@fn dataset/nuscenes.rs NuScenes::category_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.category_map@)
//@end
//@fn dataset/nuscenes.rs NuScenes::instance_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.instance_map@)
//@end
//@fn dataset/nuscenes.rs NuScenes::log_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.log_map@)
//@end
//@fn dataset/nuscenes.rs NuScenes::map_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.map_map@)
//@end
//@fn dataset/nuscenes.rs NuScenes::sample_annotation_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.sample_annotation_map@)
//@end
//@fn dataset/nuscenes.rs NuScenes::sensor_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.sensor_map@)
//@end
//@fn dataset/nuscenes.rs NuScenes::visibility_iter() -> r
ensures *r.dataset == *self, keys_of(r.tokens_iter.rest(), self.visibility_map@)
//@end
/// Following previous after next, or next after previous, along the chain of a scene or an instance returns to the start.
pub open spec fn in_scene(n: NuScenes, s: LongToken, i: int, x: SampleInternal) -> bool { n.scene_map@.contains_key(s) && 0 <= i < n.scene_map@[s].sample_tokens@.len() && x.token == n.scene_map@[s].sample_tokens@[i] && is_sample(n, x) }
pub open spec fn in_instance(n: NuScenes, s: LongToken, i: int, x: SampleAnnotation) -> bool { n.instance_map@.contains_key(s) && 0 <= i < n.instance_map@[s].annotation_tokens@.len() && x.token == n.instance_map@[s].annotation_tokens@[i] && is_ann(n, x) }
pub fn sample_round_trip<'a>(x: &WithDataset<'a, SampleInternal>, Ghost(s): Ghost<LongToken>, Ghost(i): Ghost<int>) requires wf(*x.dataset), in_scene(*x.dataset, s, i, *x.inner)
{
  let y = x.next(); assert(x.inner.next == at(x.dataset.scene_map@[s].sample_tokens@, i + 1));
  match y { Some(y) => { assert(in_scene(*x.dataset, s, i + 1, *y.inner)); let z = y.prev(); assert(z is Some && *z->0.inner == *x.inner); } None => {} }
  let y = x.prev(); assert(x.inner.prev == at(x.dataset.scene_map@[s].sample_tokens@, i - 1));
  match y { Some(y) => { assert(in_scene(*x.dataset, s, i - 1, *y.inner)); let z = y.next(); assert(z is Some && *z->0.inner == *x.inner); } None => {} }
}
pub fn annotation_round_trip<'a>(x: &WithDataset<'a, SampleAnnotation>, Ghost(s): Ghost<LongToken>, Ghost(i): Ghost<int>) requires wf(*x.dataset), in_instance(*x.dataset, s, i, *x.inner)
{
  let y = x.next(); assert(x.inner.next == at(x.dataset.instance_map@[s].annotation_tokens@, i + 1));
  match y { Some(y) => { assert(in_instance(*x.dataset, s, i + 1, *y.inner)); let z = y.prev(); assert(z is Some && *z->0.inner == *x.inner); } None => {} }
  let y = x.prev(); assert(x.inner.prev == at(x.dataset.instance_map@[s].annotation_tokens@, i - 1));
  match y { Some(y) => { assert(in_instance(*x.dataset, s, i - 1, *y.inner)); let z = y.next(); assert(z is Some && *z->0.inner == *x.inner); } None => {} }
}
