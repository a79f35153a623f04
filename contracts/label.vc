//@needs core
//@type label.rs LabelConverter
//@type label.rs LabelError
/// The documented names (all in lower case).
pub open spec fn doc_label(s: Seq<char>) -> Option<Label> {
  if doc_is(s, "car") || doc_is(s, "vehicle.car") || doc_is(s, "vehicle.construction") || doc_is(s, "vehicle.emergency (ambulance & police)") || doc_is(s, "vehicle.police") || doc_is(s, "vehicle.fire") || doc_is(s, "vehicle.ambulance") { Some(Label::Car) } else
  if doc_is(s, "truck") || doc_is(s, "vehicle.truck") || doc_is(s, "trailer") || doc_is(s, "vehicle.trailer") { Some(Label::Truck) } else
  if doc_is(s, "bus") || doc_is(s, "vehicle.bus") || doc_is(s, "vehicle.bus (bendy & rigid)") || doc_is(s, "vehicle.bus.rigid") || doc_is(s, "vehicle.bus.bendy") { Some(Label::Bus) } else
  if doc_is(s, "bicycle") || doc_is(s, "vehicle.bicycle") { Some(Label::Bicycle) } else
  if doc_is(s, "motorbike") || doc_is(s, "vehicle.motorcycle") { Some(Label::Motorbike) } else
  if doc_is(s, "pedestrian") || doc_is(s, "pedestrian.adult") || doc_is(s, "pedestrian.child") || doc_is(s, "pedestrian.construction_worker") || doc_is(s, "pedestrian.personal_mobility") || doc_is(s, "pedestrian.police_officer") || doc_is(s, "pedestrian.stroller") || doc_is(s, "pedestrian.wheelchair") || doc_is(s, "human.pedestrian.adult") || doc_is(s, "human.pedestrian.child") || doc_is(s, "human.pedestrian.construction_worker") || doc_is(s, "human.pedestrian.personal_mobility") || doc_is(s, "human.pedestrian.police_officer") || doc_is(s, "human.pedestrian.stroller") || doc_is(s, "human.pedestrian.wheelchair") { Some(Label::Pedestrian) } else
  if doc_is(s, "animal") { Some(Label::Animal) } else
  if doc_is(s, "unknown") || doc_is(s, "movable_object.barrier") || doc_is(s, "movable_object.debris") || doc_is(s, "movable_object.pushable_pullable") || doc_is(s, "movable_object.trafficcone") || doc_is(s, "movable_object.traffic_cone") || doc_is(s, "static_object.bicycle_rack") || doc_is(s, "static_object.bollard") { Some(Label::Unknown) } else
  { None } }
pub open spec fn doc_is(s: Seq<char>, n: &str) -> bool { s == n@ }
pub open spec fn name_label(s: Seq<char>) -> Label { match doc_label(lower(s)) { Some(l) => l, None => Label::Unknown } }
pub open spec fn conv_wf(c: LabelConverter<'_>) -> bool { forall|s: &str| #![trigger c.pairs@.contains_key(s)] #![trigger c.pairs@[s]] c.pairs@.contains_key(s) == (doc_label(s@) is Some) && (doc_label(s@) is Some ==> c.pairs@[s] == doc_label(s@)->0) }
pub proof fn lemma_lits() ensures "car"@.len() == 3, "vehicle.car"@.len() == 11, "vehicle.construction"@.len() == 20, "vehicle.emergency (ambulance & police)"@.len() == 38, "vehicle.police"@.len() == 14, "vehicle.fire"@.len() == 12, "vehicle.ambulance"@.len() == 17, "truck"@.len() == 5, "vehicle.truck"@.len() == 13, "trailer"@.len() == 7, "vehicle.trailer"@.len() == 15, "bus"@.len() == 3, "vehicle.bus"@.len() == 11, "vehicle.bus (bendy & rigid)"@.len() == 27, "vehicle.bus.rigid"@.len() == 17, "vehicle.bus.bendy"@.len() == 17, "bicycle"@.len() == 7, "vehicle.bicycle"@.len() == 15, "motorbike"@.len() == 9, "vehicle.motorcycle"@.len() == 18, "pedestrian"@.len() == 10, "pedestrian.adult"@.len() == 16, "pedestrian.child"@.len() == 16, "pedestrian.construction_worker"@.len() == 30, "pedestrian.personal_mobility"@.len() == 28, "pedestrian.police_officer"@.len() == 25, "pedestrian.stroller"@.len() == 19, "pedestrian.wheelchair"@.len() == 21, "human.pedestrian.adult"@.len() == 22, "human.pedestrian.child"@.len() == 22, "human.pedestrian.construction_worker"@.len() == 36, "human.pedestrian.personal_mobility"@.len() == 34, "human.pedestrian.police_officer"@.len() == 31, "human.pedestrian.stroller"@.len() == 25, "human.pedestrian.wheelchair"@.len() == 27, "animal"@.len() == 6, "unknown"@.len() == 7, "movable_object.barrier"@.len() == 22, "movable_object.debris"@.len() == 21, "movable_object.pushable_pullable"@.len() == 32, "movable_object.trafficcone"@.len() == 26, "movable_object.traffic_cone"@.len() == 27, "static_object.bicycle_rack"@.len() == 26, "static_object.bollard"@.len() == 21
{ reveal_strlit("car"); reveal_strlit("vehicle.car"); reveal_strlit("vehicle.construction"); reveal_strlit("vehicle.emergency (ambulance & police)"); reveal_strlit("vehicle.police"); reveal_strlit("vehicle.fire"); reveal_strlit("vehicle.ambulance"); reveal_strlit("truck"); reveal_strlit("vehicle.truck"); reveal_strlit("trailer"); reveal_strlit("vehicle.trailer"); reveal_strlit("bus"); reveal_strlit("vehicle.bus"); reveal_strlit("vehicle.bus (bendy & rigid)"); reveal_strlit("vehicle.bus.rigid"); reveal_strlit("vehicle.bus.bendy"); reveal_strlit("bicycle"); reveal_strlit("vehicle.bicycle"); reveal_strlit("motorbike"); reveal_strlit("vehicle.motorcycle"); reveal_strlit("pedestrian"); reveal_strlit("pedestrian.adult"); reveal_strlit("pedestrian.child"); reveal_strlit("pedestrian.construction_worker"); reveal_strlit("pedestrian.personal_mobility"); reveal_strlit("pedestrian.police_officer"); reveal_strlit("pedestrian.stroller"); reveal_strlit("pedestrian.wheelchair"); reveal_strlit("human.pedestrian.adult"); reveal_strlit("human.pedestrian.child"); reveal_strlit("human.pedestrian.construction_worker"); reveal_strlit("human.pedestrian.personal_mobility"); reveal_strlit("human.pedestrian.police_officer"); reveal_strlit("human.pedestrian.stroller"); reveal_strlit("human.pedestrian.wheelchair"); reveal_strlit("animal"); reveal_strlit("unknown"); reveal_strlit("movable_object.barrier"); reveal_strlit("movable_object.debris"); reveal_strlit("movable_object.pushable_pullable"); reveal_strlit("movable_object.trafficcone"); reveal_strlit("movable_object.traffic_cone"); reveal_strlit("static_object.bicycle_rack"); reveal_strlit("static_object.bollard"); }
pub proof fn lemma_low(a: Seq<char>, b: Seq<char>) requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128, forall|i: int| 0 <= i < a.len() ==> lower_ascii(#[trigger] a[i]) == b[i] ensures lower(a) == b { ax_lower(a); assert(lower(a) =~= b); }
/// The name printed for a label converts back to it.
pub proof fn lemma_label_roundtrip(l: Label) ensures name_label(l.dbg()) == l {
 lemma_lits(); reveal_strlit("trailer"); reveal_strlit("bicycle"); reveal_strlit("unknown"); reveal_strlit("car"); reveal_strlit("bus"); assert("trailer"@[0] == 't'); assert("bicycle"@[0] == 'b'); assert("unknown"@[0] == 'u'); assert("car"@[0] == 'c'); assert("bus"@[0] == 'b');
 match l {
  Label::Unknown => { reveal_strlit("Unknown"); reveal_strlit("unknown"); lemma_low("Unknown"@, "unknown"@); assert(l.dbg() == "Unknown"@); assert(lower(l.dbg()) == "unknown"@); assert(doc_label("unknown"@) == Some(Label::Unknown)); },
  Label::Car => { reveal_strlit("Car"); reveal_strlit("car"); lemma_low("Car"@, "car"@); assert(l.dbg() == "Car"@); assert(lower(l.dbg()) == "car"@); assert(doc_label("car"@) == Some(Label::Car)); },
  Label::Truck => { reveal_strlit("Truck"); reveal_strlit("truck"); lemma_low("Truck"@, "truck"@); assert(l.dbg() == "Truck"@); assert(lower(l.dbg()) == "truck"@); assert(doc_label("truck"@) == Some(Label::Truck)); },
  Label::Bus => { reveal_strlit("Bus"); reveal_strlit("bus"); lemma_low("Bus"@, "bus"@); assert(l.dbg() == "Bus"@); assert(lower(l.dbg()) == "bus"@); assert(doc_label("bus"@) == Some(Label::Bus)); },
  Label::Bicycle => { reveal_strlit("Bicycle"); reveal_strlit("bicycle"); lemma_low("Bicycle"@, "bicycle"@); assert(l.dbg() == "Bicycle"@); assert(lower(l.dbg()) == "bicycle"@); assert(doc_label("bicycle"@) == Some(Label::Bicycle)); },
  Label::Motorbike => { reveal_strlit("Motorbike"); reveal_strlit("motorbike"); lemma_low("Motorbike"@, "motorbike"@); assert(l.dbg() == "Motorbike"@); assert(lower(l.dbg()) == "motorbike"@); assert(doc_label("motorbike"@) == Some(Label::Motorbike)); },
  Label::Pedestrian => { reveal_strlit("Pedestrian"); reveal_strlit("pedestrian"); lemma_low("Pedestrian"@, "pedestrian"@); assert(l.dbg() == "Pedestrian"@); assert(lower(l.dbg()) == "pedestrian"@); assert(doc_label("pedestrian"@) == Some(Label::Pedestrian)); },
  Label::Animal => { reveal_strlit("Animal"); reveal_strlit("animal"); lemma_low("Animal"@, "animal"@); assert(l.dbg() == "Animal"@); assert(lower(l.dbg()) == "animal"@); assert(doc_label("animal"@) == Some(Label::Animal)); },
 }
}
//@fn label.rs LabelConverter::new(label_prefix) -> r
ensures label_prefix@ == "autoware"@ ==> r is Ok && conv_wf(r->Ok_0), label_prefix@ != "autoware"@ ==> r is Err
start lemma_lits(); ax_str_ext(); ax_vq();
//@end
//@fn label.rs LabelConverter::convert(name) -> r
requires conv_wf(*self)
ensures r == name_label(name@)
start ax_str_ext(); ax_vq();
//@end
//@fn label.rs convert_labels(target_labels, converter) -> r
requires conv_wf(*converter)
ensures r is Ok, r->Ok_0@.len() == target_labels@.len(), forall|i: int| 0 <= i < target_labels@.len() ==> #[trigger] r->Ok_0@[i] == name_label(target_labels@[i]@)
inv (A:Vec) forall|i: int| 0 <= i < $i ==> #[trigger] $A@[i] == name_label(target_labels@[i]@)
//@end
//@fn label.rs Label::fmt(f: &mut VFmt) -> r: Result<(), VErr> {{trait=Display}}
ensures r is Ok ==> final(f)@ == old(f)@ + self.dbg()
//@end
