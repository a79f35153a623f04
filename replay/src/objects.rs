use crate::{gen::*, req, Ctx};
use perception_eval::{
    config::{FilterParams, MetricsParams, PerceptionEvaluationConfig}, dataset::FrameGroundTruth, evaluation_task::EvaluationTask, filter::filter_objects, frame_id::FrameID, label::Label,
    manager::PerceptionEvaluationManager, matching::MatchingMode, object::object3d::DynamicObject, result::{frame::PerceptionFrameResult, object::{get_perception_results, PerceptionResult}}, threshold::{get_label_threshold, LabelThreshold},
};

pub struct F { pub names: Vec<(&'static str, Label)>, pub mx: f64, pub my: f64, pub np: Option<usize>, pub ids: Option<Vec<String>> }
impl F {
    pub fn params(&self) -> FilterParams { FilterParams::new(&self.names.iter().map(|n| n.0).collect::<Vec<_>>(), self.mx, self.my, self.np, self.ids.clone()).unwrap() }
    pub fn desc(&self) -> String { format!("targets {:?} max_x {} max_y {} min_pts {:?} ids {:?}", self.names.iter().map(|n| n.0).collect::<Vec<_>>(), self.mx, self.my, self.np, self.ids) }
    pub fn keep(&self, o: &DynamicObject, gt: bool) -> bool {
        self.names.iter().any(|n| n.1 == o.label) && o.position[0].abs() < self.mx && o.position[1].abs() < self.my
            && (!gt || (match (self.np, o.pointcloud_num) { (Some(m), Some(n)) => n >= m, _ => true } && match &self.ids { Some(v) => o.uuid.as_ref().map_or(false, |u| v.contains(u)), None => true }))
    }
}
pub fn filt(r: &mut Rng) -> F {
    let k = r.below(5) as usize;
    let mut names = target_names(r, k);
    if k > 1 && r.chance(10) { let x = names[0].clone(); names.push(x) }
    F { names, mx: *r.pick(&[1.0, 2.5, 5.0, 40.0, f64::INFINITY]), my: *r.pick(&[1.0, 2.5, 5.0, 40.0]), np: if r.chance(50) { Some(r.below(6) as usize) } else { None }, ids: if r.chance(40) { Some((0..r.below(4)).map(|_| format!("id{}", r.below(6))).collect()) } else { None } }
}
pub fn c01(c: &mut Ctx) {
    c.rule = "some object is kept and some object is dropped".into();
    for _ in 0..c.n * 2000 {
        let f = filt(&mut c.rng);
        let n = c.rng.below(7) as usize;
        let v = objs(&mut c.rng, n, 8);
        let gt = c.rng.chance(60);
        let want: Vec<_> = v.iter().filter(|o| f.keep(o, gt)).cloned().collect();
        let nt = !want.is_empty() && want.len() < v.len();
        c.case(format!("is_gt {gt}; {}; objects {}", f.desc(), shorts(&v)), nt, || {
            let got = filter_objects(&v, gt, &f.params());
            req!(same_all(&got, &want), "filter_objects kept {}\nexpected {}", shorts(&got), shorts(&want));
            Ok(())
        });
        if c.done() { return }
    }
}
/// `name: [a, b]` out of a debug text.
pub fn field(s: &str, name: &str) -> Option<String> {
    let i = s.find(&format!("{name}: "))? + name.len() + 2;
    let b = s[i..].as_bytes();
    let (mut d, mut k) = (0i32, 0);
    while k < b.len() { match b[k] { b'[' | b'(' | b'{' => d += 1, b']' | b')' | b'}' => { if d == 0 { break } d -= 1 } b',' if d == 0 => break, _ => {} } k += 1 }
    Some(s[i..i + k].trim().to_string())
}
pub fn c02(c: &mut Ctx) {
    c.rule = "the label occurs at a position other than the first, or at least two target labels are configured".into();
    for k in 0..c.n * 2000 {
        let n = c.rng.below(7) as usize;
        let names: Vec<_> = (0..n).map(|_| c.rng.pick(&LABELS).clone()).collect();
        let labels: Vec<Label> = names.iter().map(|x| x.1.clone()).collect();
        let l = c.rng.pick(&LABELS).1.clone();
        let th: Vec<f64> = (0..n).map(|i| i as f64 * 1.5 + c.rng.f()).collect();
        let want = labels.iter().position(|x| *x == l).map(|i| th[i]);
        let nt = want.map_or(false, |w| w != th[0]);
        c.case(format!("get_label_threshold({l:?}, {labels:?}, {th:?})"), nt, || {
            let got = get_label_threshold(&l, &labels, &th);
            let g2 = LabelThreshold::new(&l, &labels).get_threshold(&th);
            req!(got == want && g2 == want, "got {got:?} / {g2:?}, expected {want:?}");
            Ok(())
        });
        if k % 2 == 0 {
            let upper = c.rng.chance(30);
            let ns: Vec<String> = names.iter().map(|x| if upper { x.0.to_uppercase() } else { x.0.to_string() }).collect();
            let p: Vec<f64> = (0..4).map(|i| (i * 100) as f64 + c.rng.range(1, 99) as f64).collect();
            let np = if c.rng.chance(50) { Some(c.rng.below(1000) as usize) } else { None };
            c.case(format!("params of {ns:?} with {p:?} {np:?}"), n > 1, || {
                let sv: Vec<&str> = ns.iter().map(|s| s as &str).collect();
                let f = FilterParams::new(&sv, p[0], p[1], np, None).map_err(|e| format!("FilterParams::new failed: {e:?}"))?;
                let m = MetricsParams::new(&sv, p[0], p[1], p[2], p[3]).map_err(|e| format!("MetricsParams::new failed: {e:?}"))?;
                let (f, m) = (format!("{f:?}"), format!("{m:?}"));
                let rep = |x: f64| format!("{:?}", vec![x; n]);
                for (txt, name, want) in [
                    (&f, "target_labels", format!("{labels:?}")), (&f, "max_x_positions", rep(p[0])), (&f, "max_y_positions", rep(p[1])),
                    (&f, "min_point_numbers", match np { Some(k) => format!("Some({:?})", vec![k; n]), None => "None".into() }),
                    (&m, "target_labels", format!("{labels:?}")), (&m, "center_distance_thresholds", rep(p[0])), (&m, "plane_distance_thresholds", rep(p[1])), (&m, "iou2d_thresholds", rep(p[2])), (&m, "iou3d_thresholds", rep(p[3])),
                ] {
                    if let Some(got) = field(txt, name) { req!(got == want, "{name} is {got}, expected {want}") }
                }
                Ok(())
            });
        }
        if c.done() { return }
    }
}
pub fn config(f: &F, m: (f64, f64), task: EvaluationTask) -> PerceptionEvaluationConfig {
    let n: Vec<_> = f.names.iter().map(|n| n.0).collect();
    PerceptionEvaluationConfig { version: "".into(), dataset_path: "".into(), evaluation_task: task, frame_id: FrameID::BaseLink, result_dir: "".into(), log_dir: "".into(), viz_dir: "".into(),
        filter_params: f.params(), metrics_params: MetricsParams::new(&n, m.0, m.1, 0.5, 0.5).unwrap(), load_raw_data: false }
}
pub fn manager(c: &PerceptionEvaluationConfig) -> PerceptionEvaluationManager<'_> { PerceptionEvaluationManager { config: c, frame_ground_truths: vec![], frame_results: vec![] } }
pub fn all_pass(names: Vec<(&'static str, Label)>) -> F { F { names, mx: 1e9, my: 1e9, np: None, ids: None } }

/// Grouping is observed through the metrics: every estimate sits exactly on its own ground truth, and extra ground truths
/// far away lower the recall, so AP of a label is (number of its estimates) / (number of its ground truths).
pub fn c03(c: &mut Ctx) {
    c.rule = "at least two labels have objects and one target label has none or one label with objects is not a target".into();
    for _ in 0..c.n * 400 {
        let k = 1 + c.rng.below(4) as usize;
        let names = target_names(&mut c.rng, k);
        let cnt: Vec<Vec<(u64, u64)>> = (0..1 + c.rng.below(3)).map(|_| (0..8).map(|_| if c.rng.chance(40) { (c.rng.below(4), c.rng.below(3)) } else { (0, 0) }).collect()).collect();
        let mk = |l: &Label, i: u64, far: bool| DynamicObject { timestamp: time(1), frame_id: FrameID::BaseLink, position: [i as f64 * 10.0, if far { 1000.0 } else { 0.0 }, 0.0], orientation: [1.0, 0.0, 0.0, 0.0], size: [1.0; 3], velocity: None, confidence: 0.5, label: l.clone(), pointcloud_num: None, uuid: None };
        let tot: Vec<(u64, u64)> = (0..8).map(|l| cnt.iter().fold((0, 0), |a, f| (a.0 + f[l].0, a.1 + f[l].1))).collect();
        let used = tot.iter().filter(|t| t.0 + t.1 > 0).count();
        let nt = used > 1 && LABELS.iter().enumerate().any(|(i, l)| names.iter().any(|n| n.1 == l.1) != (tot[i].0 + tot[i].1 > 0));
        let other = c.rng.chance(30);
        let d = format!("{}targets {:?}; per frame and label (matched, missed): {cnt:?} for {:?}", if other { "every second matched ground truth has another label; " } else { "" }, names.iter().map(|n| n.0).collect::<Vec<_>>(), LABELS.iter().map(|l| l.0).collect::<Vec<_>>());
        c.case(d, nt, || {
            let f = all_pass(names.clone());
            let cfg = config(&f, (1.0, 1.0), EvaluationTask::Detection);
            let mut m = manager(&cfg);
            for fr in &cnt {
                let (mut e, mut g) = (vec![], vec![]);
                for (i, (a, b)) in fr.iter().enumerate() {
                    for x in 0..*a { e.push(mk(&LABELS[i].1, x, false)); g.push(mk(&LABELS[i].1, x, false)) }
                    for x in 0..*b { g.push(mk(&LABELS[i].1, x, true)) }
                }
                // results and ground truths reach the frame unfiltered by label
                let res: Vec<_> = e.iter().enumerate().map(|(i, o)| { let mut q = o.clone(); if other && i % 2 == 0 { q.label = LABELS[(i + 3) % 8].1.clone() } PerceptionResult::new(o.clone(), Some(q)) }).collect();
                let fgt = FrameGroundTruth { timestamp: time(1), objects: g };
                let labels: Vec<Label> = names.iter().map(|n| n.1.clone()).collect();
                let th = vec![1.0; labels.len()];
                m.frame_results.push(PerceptionFrameResult::new(res, fgt, &labels, MatchingMode::PlaneDistance, &th).map_err(|e| format!("{e:?}"))?);
            }
            let s = m.get_metrics_score().map_err(|e| format!("score failed: {e:?}"))?;
            if let Some(t) = crate::scores::parse(&format!("{s:?}")) {
                for (mode, ap, _) in &t {
                    req!(ap.len() == names.len(), "{mode}: {} AP values for {} target labels", ap.len(), names.len());
                    for (i, n) in names.iter().enumerate() {
                        let (a, b) = tot[LABELS.iter().position(|l| l.1 == n.1).unwrap()];
                        let want = if a + b == 0 { f64::NAN } else { a as f64 / (a + b) as f64 };
                        req!((ap[i] - want).abs() < 1e-9 || (ap[i].is_nan() && want.is_nan()), "{mode}: AP of {} is {}, expected {want} ({a} of {} found)", n.0, ap[i], a + b);
                    }
                }
            }
            Ok(())
        });
        if c.done() { return }
    }
}
fn d(a: &DynamicObject, b: &DynamicObject) -> f64 { (0..3).map(|i| (a.position[i] - b.position[i]).powi(2)).sum::<f64>().sqrt() }
pub fn matching(c: &mut Ctx, nearest: bool) {
    c.rule = "some label has at least two estimates and two ground truths".into();
    for _ in 0..c.n * 3000 {
        let nl = *c.rng.pick(&[1usize, 2, 3, 8]);
        let (a, b) = (c.rng.below(7) as usize, c.rng.below(7) as usize);
        let mut e = objs(&mut c.rng, a, nl);
        let mut g = objs(&mut c.rng, b, nl);
        // identify every object by a unique id and timestamp so the pairing can be read off
        for (i, o) in e.iter_mut().enumerate() { o.uuid = Some(format!("e{i}")); o.timestamp = time(1000 + i as i64) }
        for (i, o) in g.iter_mut().enumerate() { o.uuid = Some(format!("g{i}")); o.timestamp = time(2000 + i as i64) }
        if c.rng.chance(30) && a > 0 && b > 0 { let (i, j) = (c.rng.below(a as u64) as usize, c.rng.below(b as u64) as usize); e[i].position = g[j].position }
        let nt = LABELS.iter().any(|l| e.iter().filter(|o| o.label == l.1).count() > 1 && g.iter().filter(|o| o.label == l.1).count() > 1);
        c.case(format!("estimates {}; ground truths {}", shorts(&e), shorts(&g)), nt, || {
            let r = get_perception_results(&e, &g);
            let txt = || r.iter().map(|x| format!("{:?}->{:?}", x.estimated_object.uuid, x.ground_truth_object.as_ref().map(|o| o.uuid.clone()))).collect::<Vec<_>>().join(", ");
            let mut me: Vec<Option<Option<usize>>> = vec![None; a];
            let mut mg: Vec<Option<usize>> = vec![None; b];
            req!(r.len() == a, "{} results for {a} estimates: {}", r.len(), txt());
            for x in &r {
                let i = match e.iter().position(|o| same(o, &x.estimated_object)) { Some(i) => i, None => return Err(format!("a result carries no estimate of the input: {}", txt())) };
                req!(me[i].is_none(), "estimate e{i} has two results: {}", txt());
                me[i] = Some(match &x.ground_truth_object {
                    None => None,
                    Some(q) => {
                        let j = match g.iter().position(|o| same(o, q)) { Some(j) => j, None => return Err(format!("a result carries no ground truth of the input: {}", txt())) };
                        req!(mg[j].is_none(), "ground truth g{j} is used twice: {}", txt());
                        req!(g[j].label == e[i].label, "e{i} and g{j} have different labels: {}", txt());
                        mg[j] = Some(i);
                        Some(j)
                    }
                });
            }
            for i in 0..a { for j in 0..b { if e[i].label == g[j].label {
                let (x, y) = (me[i].unwrap(), mg[j]);
                req!(x.is_some() || y.is_some(), "e{i} stays unmatched although g{j} of its label is free: {}", txt());
                if nearest && x != Some(j) {
                    let dij = d(&e[i], &g[j]);
                    let ok = x.map_or(false, |k| d(&e[i], &g[k]) <= dij * (1.0 + 1e-9)) || y.map_or(false, |k| d(&e[k], &g[j]) <= dij * (1.0 + 1e-9));
                    req!(ok, "the closer pair e{i}, g{j} at {dij} was passed over: {}", txt());
                }
            } } }
            Ok(())
        });
        if c.done() { return }
    }
}
pub const MODES: [MatchingMode; 4] = [MatchingMode::CenterDistance, MatchingMode::PlaneDistance, MatchingMode::Iou2d, MatchingMode::Iou3d];
/// A ground truth near an estimate, so that scores fall on both sides of a threshold.
pub fn near(r: &mut Rng, o: &DynamicObject) -> DynamicObject {
    let mut g = o.clone();
    let w = *r.pick(&[0.0, 0.25, 1.0, 3.0]);
    for i in 0..3 { g.position[i] += (r.f() * 2.0 - 1.0) * w }
    if r.chance(50) { g.orientation = yaw_q((r.f() * 2.0 - 1.0) * 3.14) }
    if r.chance(30) { g.size = [1.0 + r.f(), 1.0 + r.f(), 1.0 + r.f()] }
    g
}
pub fn c06(c: &mut Ctx) {
    c.rule = "the frame has a TP, an FP and an FN".into();
    for _ in 0..c.n * 1500 {
        let k = 1 + c.rng.below(4) as usize;
        let names = target_names(&mut c.rng, k);
        let labels: Vec<Label> = names.iter().map(|n| n.1.clone()).collect();
        let mode = c.rng.pick(&MODES).clone();
        let th: Vec<f64> = (0..k).map(|_| if matches!(mode, MatchingMode::Iou2d | MatchingMode::Iou3d) { *c.rng.pick(&[0.0, 0.3, 0.7]) } else { *c.rng.pick(&[0.2, 1.0, 2.0, 20.0]) }).collect();
        let n = c.rng.below(6) as usize;
        let mut res = vec![]; let mut gts: Vec<DynamicObject> = vec![];
        for i in 0..n {
            let mut o = obj(&mut c.rng, 8);
            if c.rng.chance(60) { o.label = c.rng.pick(&labels).clone() }
            let mut g = near(&mut c.rng, &o); g.timestamp = time(50 + i as i64); g.uuid = Some(format!("g{i}"));
            if c.rng.chance(10) { g.label = c.rng.pick(&labels).clone() }
            if c.rng.chance(75) { res.push(PerceptionResult::new(o, Some(g.clone()))) } else { res.push(PerceptionResult::new(o, None)) }
            if c.rng.chance(90) { gts.push(g) }
        }
        for _ in 0..c.rng.below(3) { let mut o = obj(&mut c.rng, 8); o.timestamp = time(900 + c.rng.below(2) as i64); gts.push(o) }
        if gts.len() > 1 && c.rng.chance(15) { let g = gts[0].clone(); gts.push(g) }
        if gts.len() > 1 && c.rng.chance(40) { let i = c.rng.below(gts.len() as u64) as usize; gts.swap(0, i) }
        let d = format!("{mode:?} targets {labels:?} thresholds {th:?}; results [{}]; ground truths {}", res.iter().map(|r| format!("{} / {}", short(&r.estimated_object), r.ground_truth_object.as_ref().map_or("none".into(), |g| short(g)))).collect::<Vec<_>>().join("; "), shorts(&gts));
        let (mut tp, mut fp) = (vec![], vec![]);
        let mut bad = None;
        for r in &res {
            if let Some(i) = labels.iter().position(|l| *l == r.estimated_object.label) {
                match std::panic::catch_unwind(|| r.is_result_correct(&mode, &th[i]).unwrap()) { Ok(x) => { if x && r.ground_truth_object.is_some() { tp.push(r.clone()) } else { fp.push(r.clone()) } } Err(_) => bad = Some(()) }
            }
        }
        if bad.is_some() { continue }
        let fns: Vec<_> = gts.iter().filter(|g| !tp.iter().any(|t| t.ground_truth_object.as_ref().map_or(false, |x| x.timestamp == g.timestamp && x.frame_id == g.frame_id && x.position == g.position && x.orientation == g.orientation && x.label == g.label))).cloned().collect();
        let nt = !tp.is_empty() && !fp.is_empty() && !fns.is_empty();
        c.case(d, nt, || {
            let fgt = FrameGroundTruth { timestamp: time(77), objects: gts.clone() };
            let fr = PerceptionFrameResult::new(res.clone(), fgt.clone(), &labels, mode, &th).map_err(|e| format!("failed: {e:?}"))?;
            req!(same_ress(fr.results(), &res), "the frame result holds other results than it was given");
            req!(format!("{:?}", fr.frame_ground_truth()) == format!("{fgt:?}"), "the frame result holds another ground truth than it was given");
            req!(same_ress(fr.tp_results(), &tp), "TP list: {:?}\nexpected {tp:?}", fr.tp_results());
            req!(same_ress(fr.fp_results(), &fp), "FP list: {:?}\nexpected {fp:?}", fr.fp_results());
            req!(same_all(fr.fn_objects(), &fns), "FN list: {}\nexpected {}", shorts(fr.fn_objects()), shorts(&fns));
            Ok(())
        });
        if c.done() { return }
    }
}
