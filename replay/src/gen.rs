use chrono::NaiveDateTime;
use perception_eval::{frame_id::FrameID, label::Label, object::object3d::DynamicObject, result::object::PerceptionResult};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: u64) -> u64 { self.u() % n }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn chance(&mut self, p: u64) -> bool { self.below(100) < p }
    pub fn f(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
    /// A small grid value (exact in binary) or, sometimes, an arbitrary one.
    pub fn coord(&mut self, w: i64) -> f64 { if self.chance(70) { self.range(-2 * w, 2 * w) as f64 * 0.5 } else { (self.f() * 2.0 - 1.0) * w as f64 } }
}
pub const LABELS: [(&str, Label); 8] = [("car", Label::Car), ("truck", Label::Truck), ("bus", Label::Bus), ("bicycle", Label::Bicycle), ("motorbike", Label::Motorbike), ("pedestrian", Label::Pedestrian), ("animal", Label::Animal), ("unknown", Label::Unknown)];
pub fn time(us: i64) -> NaiveDateTime { NaiveDateTime::from_timestamp_micros(us).unwrap() }
pub fn yaw_q(a: f64) -> [f64; 4] { [(a / 2.0).cos(), 0.0, 0.0, (a / 2.0).sin()] }
pub fn obj(r: &mut Rng, nl: usize) -> DynamicObject {
    let w = *r.pick(&[2, 5, 40]);
    DynamicObject {
        timestamp: time(10_000), frame_id: FrameID::BaseLink,
        position: [r.coord(w), r.coord(w), r.coord(2)],
        orientation: { let a = match r.below(4) { 0 => 0.0, 1 => r.range(-4, 4) as f64 * std::f64::consts::FRAC_PI_4, _ => (r.f() * 2.0 - 1.0) * 3.1415 }; let q = yaw_q(a); if r.chance(15) { [-q[0], -q[1], -q[2], -q[3]] } else { q } },
        size: [r.range(1, 8) as f64 * 0.5, r.range(1, 6) as f64 * 0.5, r.range(1, 4) as f64 * 0.5],
        velocity: if r.chance(30) { Some([r.coord(3), 0.0, 0.0]) } else { None },
        confidence: r.range(0, 20) as f64 * 0.05,
        label: LABELS[r.below(nl as u64) as usize].1.clone(),
        pointcloud_num: if r.chance(75) { Some(r.below(8) as usize) } else { None },
        uuid: if r.chance(80) { Some(format!("id{}", r.below(6))) } else { None },
    }
}
pub fn objs(r: &mut Rng, n: usize, nl: usize) -> Vec<DynamicObject> { (0..n).map(|_| obj(r, nl)).collect() }
/// Equality on every field (the library's own equality ignores some).
pub fn same(a: &DynamicObject, b: &DynamicObject) -> bool { format!("{a:?}") == format!("{b:?}") }
pub fn same_all(a: &[DynamicObject], b: &[DynamicObject]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)) }
pub fn same_res(a: &PerceptionResult, b: &PerceptionResult) -> bool { format!("{a:?}") == format!("{b:?}") }
pub fn same_ress(a: &[PerceptionResult], b: &[PerceptionResult]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_res(x, y)) }
pub fn short(o: &DynamicObject) -> String { format!("{:?}@{:?} q{:?} s{:?} c{} n{:?} u{:?}", o.label, o.position, o.orientation, o.size, o.confidence, o.pointcloud_num, o.uuid) }
pub fn shorts(v: &[DynamicObject]) -> String { format!("[{}]", v.iter().map(short).collect::<Vec<_>>().join("; ")) }
pub fn label_names(v: &[Label]) -> String { format!("{v:?}") }
/// `k` distinct label names, in random order.
pub fn target_names(r: &mut Rng, k: usize) -> Vec<(&'static str, Label)> {
    let mut v: Vec<_> = LABELS.to_vec();
    for i in (1..v.len()).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j) }
    v.truncate(k); v
}
