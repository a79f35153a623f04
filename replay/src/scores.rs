use crate::{gen::*, objects::*, req, Ctx};
use perception_eval::{
    dataset::FrameGroundTruth, evaluation_task::EvaluationTask, filter::filter_objects, label::Label, matching::MatchingMode, object::object3d::DynamicObject,
    result::{frame::PerceptionFrameResult, object::{get_perception_results, PerceptionResult}}, utils::point::{distance_points, distance_points_bev, get_point_left_right},
};
use std::f64::consts::PI;

/// (mode, AP per label, APH per label) out of the debug text of a metrics score; None if it is not of the expected form.
pub fn parse(s: &str) -> Option<Vec<(String, Vec<f64>, Vec<f64>)>> {
    let mut out = vec![];
    for part in s.split("DetectionMetricsScore {").skip(1) {
        let mode = field(part, "matching_mode")?;
        let nums = |k: &str| -> Option<Vec<f64>> {
            let i = part.find(&format!("\"{k}\": ["))? + k.len() + 5;
            let e = part[i..].find(']')? + i;
            let t = part[i..e].trim();
            if t.is_empty() { return Some(vec![]) }
            t.split(',').map(|x| x.trim().parse::<f64>().ok()).collect()
        };
        out.push((mode, nums("AP")?, nums("APH")?));
    }
    if out.is_empty() { None } else { Some(out) }
}
pub fn rot(q: &[f64; 4], p: [f64; 3]) -> [f64; 3] {
    // q p q* for a unit quaternion
    let [w, x, y, z] = *q;
    let t = [2.0 * (y * p[2] - z * p[1]), 2.0 * (z * p[0] - x * p[2]), 2.0 * (x * p[1] - y * p[0])];
    [p[0] + w * t[0] + y * t[2] - z * t[1], p[1] + w * t[1] + z * t[0] - x * t[2], p[2] + w * t[2] + x * t[1] - y * t[0]]
}
/// Box corners in ring order (left front, right front, right rear, left rear).
pub fn corners(o: &DynamicObject) -> Vec<[f64; 3]> {
    let (w, l) = (o.size[0] / 2.0, o.size[1] / 2.0);
    [(l, w), (-l, w), (-l, -w), (l, -w)].iter().map(|c| { let r = rot(&o.orientation, [c.0, c.1, 0.0]); [r[0] + o.position[0], r[1] + o.position[1], r[2] + o.position[2]] }).collect()
}
/// Plane distance, or None if the faces nearest to ego are not clear cut.
pub fn plane(a: &DynamicObject, b: &DynamicObject) -> Option<f64> {
    let side = |o: &DynamicObject| -> Option<([f64; 2], [f64; 2])> {
        let mut v: Vec<(f64, [f64; 2])> = corners(o).iter().map(|c| (c[0].hypot(c[1]), [c[0], c[1]])).collect();
        v.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
        if v[2].0 - v[1].0 < 1e-6 { return None }
        let cr = v[0].1[0] * v[1].1[1] - v[0].1[1] * v[1].1[0];
        if cr.abs() < 1e-6 { return None }
        // left: the end further anticlockwise seen from ego
        Some(if cr < 0.0 { (v[0].1, v[1].1) } else { (v[1].1, v[0].1) })
    };
    let (p, q) = (side(a)?, side(b)?);
    let d2 = |x: [f64; 2], y: [f64; 2]| (x[0] - y[0]).powi(2) + (x[1] - y[1]).powi(2);
    Some(((d2(p.0, q.0) + d2(p.1, q.1)) / 2.0).sqrt())
}
fn area(p: &[[f64; 2]]) -> f64 { let n = p.len(); if n < 3 { 0.0 } else { (0..n).map(|i| p[i][0] * p[(i + 1) % n][1] - p[i][1] * p[(i + 1) % n][0]).sum::<f64>() / 2.0 } }
fn overlap(a: &DynamicObject, b: &DynamicObject) -> f64 {
    let f = |o: &DynamicObject| { let mut v: Vec<[f64; 2]> = corners(o).iter().map(|c| [c[0], c[1]]).collect(); if area(&v) < 0.0 { v.reverse() } v };
    let (mut p, q) = (f(a), f(b));
    for i in 0..4 {
        let (s, t) = (q[i], q[(i + 1) % 4]);
        let side = |x: [f64; 2]| (t[0] - s[0]) * (x[1] - s[1]) - (t[1] - s[1]) * (x[0] - s[0]);
        let mut out = vec![];
        for k in 0..p.len() {
            let (u, v) = (p[k], p[(k + 1) % p.len()]);
            let (du, dv) = (side(u), side(v));
            if du >= 0.0 { out.push(u) }
            if (du > 0.0 && dv < 0.0) || (du < 0.0 && dv > 0.0) { let r = du / (du - dv); out.push([u[0] + r * (v[0] - u[0]), u[1] + r * (v[1] - u[1])]) }
        }
        p = out;
    }
    area(&p).abs()
}
pub fn iou(a: &DynamicObject, b: &DynamicObject, three: bool) -> f64 {
    let s = overlap(a, b);
    let ar = |o: &DynamicObject| o.size[0] * o.size[1] * if three { o.size[2] } else { 1.0 };
    let h = if three { let lo = (a.position[2] - a.size[2] / 2.0).max(b.position[2] - b.size[2] / 2.0); let hi = (a.position[2] + a.size[2] / 2.0).min(b.position[2] + b.size[2] / 2.0); (hi - lo).max(0.0) } else { 1.0 };
    let i = s * h;
    i / (ar(a) + ar(b) - i)
}
/// The score of a pair as seen through the threshold test: within `eps` of `want`.
fn is_score(a: &DynamicObject, b: &DynamicObject, mode: &MatchingMode, want: f64, eps: f64) -> Result<(), String> {
    let smaller = matches!(mode, MatchingMode::CenterDistance | MatchingMode::PlaneDistance);
    let r = PerceptionResult::new(a.clone(), Some(b.clone()));
    let ok = |t: f64| r.is_result_correct(mode, &t).map_err(|e| format!("{e:?}"));
    req!(ok(want + eps)? == smaller, "{mode:?} score of the pair should be {want}, but threshold {} is {}passed", want + eps, if smaller { "not " } else { "" });
    req!(ok(want - eps)? != smaller, "{mode:?} score of the pair should be {want}, but threshold {} is {}passed", want - eps, if smaller { "" } else { "not " });
    Ok(())
}
pub fn c07(c: &mut Ctx) {
    c.rule = "the two objects differ in position or rotation".into();
    for _ in 0..c.n * 3000 {
        let (p, q): ([f64; 3], [f64; 3]) = ([c.rng.coord(9), c.rng.coord(9), c.rng.coord(9)], [c.rng.coord(9), c.rng.coord(9), c.rng.coord(9)]);
        c.case(format!("points {p:?} {q:?}"), p != q, || {
            let (d3, d2) = ((0..3).map(|i| (p[i] - q[i]).powi(2)).sum::<f64>().sqrt(), (0..2).map(|i| (p[i] - q[i]).powi(2)).sum::<f64>().sqrt());
            req!((distance_points(&p, &q) - d3).abs() < 1e-9, "distance_points = {}, expected {d3}", distance_points(&p, &q));
            req!((distance_points_bev(&p, &q) - d2).abs() < 1e-9, "distance_points_bev = {}, expected {d2}", distance_points_bev(&p, &q));
            let cr = p[0] * q[1] - p[1] * q[0];
            if cr.abs() > 1e-9 { let (l, r) = get_point_left_right(&p, &q); let want = if cr < 0.0 { (p, q) } else { (q, p) }; req!((*l, *r) == want, "left and right are {l:?} and {r:?}") }
            Ok(())
        });
        let a = obj(&mut c.rng, 3);
        let b = if c.rng.chance(60) { near(&mut c.rng, &a) } else { obj(&mut c.rng, 3) };
        c.case(format!("estimate {}; ground truth {}", short(&a), short(&b)), a != b, || {
            let d3 = (0..3).map(|i| (a.position[i] - b.position[i]).powi(2)).sum::<f64>().sqrt();
            let d2 = (0..2).map(|i| (a.position[i] - b.position[i]).powi(2)).sum::<f64>().sqrt();
            req!((a.distance_from(&b.position) - d3).abs() < 1e-9 && (a.distance_bev_from(&b.position) - d2).abs() < 1e-9, "object distance is {} / {}, expected {d3} / {d2}", a.distance_from(&b.position), a.distance_bev_from(&b.position));
            let o = |n: usize| (0..n).map(|i| a.position[i].powi(2)).sum::<f64>().sqrt();
            req!((a.distance() - o(3)).abs() < 1e-9 && (a.distance_bev() - o(2)).abs() < 1e-9, "distance from ego is {} / {}, expected {} / {}", a.distance(), a.distance_bev(), o(3), o(2));
            is_score(&a, &b, &MatchingMode::CenterDistance, d3, 1e-7)?;
            if let Some(w) = plane(&a, &b) { is_score(&a, &b, &MatchingMode::PlaneDistance, w, 1e-6)?; is_score(&b, &a, &MatchingMode::PlaneDistance, w, 1e-6)? }
            is_score(&a, &a, &MatchingMode::PlaneDistance, 0.0, 1e-9)?;
            is_score(&a, &a, &MatchingMode::CenterDistance, 0.0, 1e-9)?;
            for m in [MatchingMode::CenterDistance, MatchingMode::PlaneDistance] {
                // strictly smaller: a score of zero does not pass a threshold of zero
                req!(!PerceptionResult::new(a.clone(), Some(a.clone())).is_result_correct(&m, &0.0).unwrap(), "{m:?}: score 0 passes threshold 0");
                req!(!PerceptionResult::new(a.clone(), None).is_result_correct(&m, &1e9).unwrap(), "{m:?}: a result without ground truth passes");
            }
            Ok(())
        });
        if c.done() { return }
    }
}
pub fn c08(c: &mut Ctx) {
    c.rule = "the boxes overlap partly".into();
    c.known = vec!["/geo-0.24"]; // recorded finding: geo's clipping panics on nearly coincident edges
    for _ in 0..c.n * 3000 {
        let a = obj(&mut c.rng, 3);
        let b = if c.rng.chance(75) { near(&mut c.rng, &a) } else { obj(&mut c.rng, 3) };
        let (i2, i3) = (iou(&a, &b, false), iou(&a, &b, true));
        c.case(format!("estimate {}; ground truth {}", short(&a), short(&b)), i2 > 1e-6 && i2 < 1.0 - 1e-6, || {
            for (m, w, s) in [(MatchingMode::Iou2d, i2, 1.0), (MatchingMode::Iou3d, i3, 1.0)] {
                is_score(&a, &b, &m, w, 1e-5)?;
                is_score(&b, &a, &m, w, 1e-5)?;
                is_score(&a, &a, &m, s, 1e-5)?;
                let mut far = b.clone(); far.position[0] += 1000.0;
                req!(!PerceptionResult::new(a.clone(), Some(far)).is_result_correct(&m, &0.0).unwrap(), "{m:?}: disjoint boxes pass threshold 0");
                req!(!PerceptionResult::new(a.clone(), None).is_result_correct(&m, &-1.0).unwrap(), "{m:?}: a result without ground truth passes");
                if m == MatchingMode::Iou3d { let mut up = b.clone(); up.position[2] += 100.0; req!(!PerceptionResult::new(a.clone(), Some(up)).is_result_correct(&m, &0.0).unwrap(), "boxes at different heights overlap") }
            }
            Ok(())
        });
        if c.done() { return }
    }
}
fn yaw(o: &DynamicObject) -> f64 { let [w, x, y, z] = o.orientation; (2.0 * (w * z + x * y)).atan2(1.0 - 2.0 * (y * y + z * z)) }
pub fn weight(r: &PerceptionResult) -> f64 { match &r.ground_truth_object { None => 0.0, Some(g) => { let d = (yaw(&r.estimated_object) - yaw(g)).rem_euclid(2.0 * PI); 1.0 - d.min(2.0 * PI - d) / PI } } }
pub fn ap(rs: &[(f64, f64)], num_gt: usize) -> f64 {
    // (confidence, weight of a correct result or 0)
    if rs.is_empty() && num_gt == 0 { return f64::NAN }
    if num_gt == 0 { return 0.0 }
    let mut v = rs.to_vec();
    v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let (mut s, mut p, mut r) = (0.0, vec![], vec![]);
    for (i, x) in v.iter().enumerate() { s += x.1; p.push(s / (i + 1) as f64); r.push(s / num_gt as f64) }
    (0..v.len()).map(|i| (r[i] - if i > 0 { r[i - 1] } else { 0.0 }) * p[i..].iter().cloned().fold(0.0, f64::max)).sum()
}
/// Frames of one label each with given results; the scores come from the manager.
fn ap_case(c: &mut Ctx, heading: bool) {
    let k = 1 + c.rng.below(3) as usize;
    let names = target_names(&mut c.rng, k);
    let labels: Vec<Label> = names.iter().map(|n| n.1.clone()).collect();
    let th = (*c.rng.pick(&[0.5, 1.0, 5.0]), *c.rng.pick(&[0.5, 1.0, 5.0]));
    let mut frames = vec![];
    let mut conf: Vec<f64> = (0..40).map(|i| i as f64 * 0.025 + 0.001).collect();
    for i in (1..40).rev() { let j = c.rng.below(i as u64 + 1) as usize; conf.swap(i, j) }
    for f in 0..1 + c.rng.below(3) {
        let (mut res, mut gts) = (vec![], vec![]);
        for i in 0..c.rng.below(7) {
            let mut o = obj(&mut c.rng, 3); o.label = c.rng.pick(&labels).clone(); o.confidence = conf.pop().unwrap();
            let mut g = near(&mut c.rng, &o); g.timestamp = time((100 * f + i) as i64);
            if !heading { g.orientation = o.orientation }
            else if c.rng.chance(30) { o.orientation = yaw_q(3.14159); g.orientation = yaw_q(-3.1 - 0.04 * c.rng.f()) }
            if c.rng.chance(70) { res.push(PerceptionResult::new(o, Some(g.clone()))); gts.push(g) } else { res.push(PerceptionResult::new(o, None)); if c.rng.chance(50) { gts.push(g) } }
        }
        if c.rng.chance(10) { gts.clear(); for r in &mut res { r.ground_truth_object = None } }
        frames.push((res, gts));
    }
    let d = format!("targets {labels:?} center threshold {} plane threshold {}; frames {}", th.0, th.1, frames.iter().map(|(r, g)| format!("[results {}; {} ground truths {:?}]", r.iter().map(|r| format!("{} / {}", short(&r.estimated_object), r.ground_truth_object.as_ref().map_or("none".into(), |g| short(g)))).collect::<Vec<_>>().join("; "), g.len(), g.iter().map(|o| o.label.clone()).collect::<Vec<_>>())).collect::<Vec<_>>().join(" "));
    let nt = frames.iter().map(|f| f.0.len()).sum::<usize>() > 2;
    c.case(d, nt, || {
        let f = all_pass(names.clone());
        let cfg = config(&f, th, EvaluationTask::Detection);
        let mut m = manager(&cfg);
        for (res, gts) in &frames {
            m.frame_results.push(PerceptionFrameResult::new(res.clone(), FrameGroundTruth { timestamp: time(1), objects: gts.clone() }, &labels, MatchingMode::PlaneDistance, &vec![th.1; k]).map_err(|e| format!("{e:?}"))?);
        }
        check_scores(&m, &labels, th, heading)
    });
}
pub fn check_scores(m: &perception_eval::manager::PerceptionEvaluationManager<'_>, labels: &[Label], th: (f64, f64), heading: bool) -> Result<(), String> {
    let s = m.get_metrics_score().map_err(|e| format!("score failed: {e:?}"))?;
    let t = match parse(&format!("{s:?}")) { Some(t) => t, None => return Ok(()) };
    for (name, mode, th) in [("CenterDistance", MatchingMode::CenterDistance, th.0), ("PlaneDistance", MatchingMode::PlaneDistance, th.1)] {
        let (_, a, h) = match t.iter().find(|x| x.0 == name) { Some(x) => x, None => return Err(format!("no scores for {name}")) };
        req!(a.len() == labels.len() && h.len() == labels.len(), "{name}: {} AP and {} APH values for {} labels", a.len(), h.len(), labels.len());
        for (i, l) in labels.iter().enumerate() {
            let (mut rs, mut hs, mut n) = (vec![], vec![], 0);
            for f in &m.frame_results {
                for r in f.results().iter().filter(|r| r.estimated_object.label == *l) {
                    let ok = r.is_result_correct(&mode, &th).unwrap();
                    rs.push((r.estimated_object.confidence, if ok { 1.0 } else { 0.0 }));
                    hs.push((r.estimated_object.confidence, if ok { weight(r) } else { 0.0 }));
                }
                n += f.frame_ground_truth().objects.iter().filter(|o| o.label == *l).count();
            }
            let close = |x: f64, y: f64| (x - y).abs() < 1e-7 || (x.is_nan() && y.is_nan());
            let w = ap(&rs, n);
            if !heading { req!(close(a[i], w), "{name}: AP of {l:?} is {}, expected {w} (confidence, correct) {rs:?} with {n} ground truths", a[i]) }
            let wh = ap(&hs, n);
            if heading { req!(close(h[i], wh), "{name}: APH of {l:?} is {}, expected {wh} (confidence, weight) {hs:?} with {n} ground truths", h[i]) }
        }
    }
    Ok(())
}
pub fn c09(c: &mut Ctx) {
    c.rule = "at least three results".into();
    for _ in 0..c.n * 1500 { ap_case(c, false); if c.done() { return } }
}
pub fn c10(c: &mut Ctx) {
    c.rule = "at least three results".into();
    // one pair, one ground truth: APH is the weight itself
    for i in 0..c.n * 800 {
        let mut o = obj(&mut c.rng, 1); o.label = Label::Car;
        let mut g = o.clone();
        let (a, b) = match i % 4 { 0 => { let a = (c.rng.f() * 2.0 - 1.0) * PI; (a, a + PI) } 1 => (3.14, -3.14 + 0.01 * c.rng.f()), 2 => { let a = (c.rng.f() * 2.0 - 1.0) * 3.1; (a, a) } _ => ((c.rng.f() * 2.0 - 1.0) * 3.1, (c.rng.f() * 2.0 - 1.0) * 3.1) };
        o.orientation = yaw_q(a); g.orientation = yaw_q(b);
        let d = (a - b).rem_euclid(2.0 * PI);
        let want = 1.0 - d.min(2.0 * PI - d) / PI;
        c.case(format!("one pair at {:?}, headings {a} and {b}", o.position), true, || {
            let f = all_pass(vec![("car", Label::Car)]);
            let cfg = config(&f, (1e6, 1e6), EvaluationTask::Detection);
            let mut m = manager(&cfg);
            m.frame_results.push(PerceptionFrameResult::new(vec![PerceptionResult::new(o.clone(), Some(g.clone()))], FrameGroundTruth { timestamp: time(1), objects: vec![g.clone()] }, &[Label::Car], MatchingMode::PlaneDistance, &[1e6]).map_err(|e| format!("{e:?}"))?);
            let s = m.get_metrics_score().map_err(|e| format!("{e:?}"))?;
            if let Some(t) = parse(&format!("{s:?}")) { for (n, a, h) in t {
                // AP of a single correct result is 1; APH is weight * weight (precision and recall both carry it)
                req!((a[0] - 1.0).abs() < 1e-9, "{n}: AP is {}, expected 1", a[0]);
                req!((h[0] - want * want).abs() < 1e-6, "{n}: APH is {}, expected {} from weight {want}", h[0], want * want);
            } }
            Ok(())
        });
        if c.done() { return }
    }
    for _ in 0..c.n * 700 { ap_case(c, true); if c.done() { return } }
}
pub fn c11(c: &mut Ctx) {
    c.rule = "at least two frames with results and ground truth are added".into();
    for _ in 0..c.n * 600 {
        let mut f = filt(&mut c.rng);
        if c.rng.chance(80) { f.mx = 1e3; f.my = 1e3 }
        if f.names.is_empty() { f.names = target_names(&mut c.rng, 2) }
        let th = (*c.rng.pick(&[0.5, 1.0, 5.0]), *c.rng.pick(&[0.5, 1.0, 5.0]));
        let mut k = 0;
        let frames: Vec<(Vec<DynamicObject>, Vec<DynamicObject>)> = (0..c.rng.below(4)).map(|_| {
            let n = c.rng.below(6) as usize;
            let mut e = objs(&mut c.rng, n, 8);
            for o in e.iter_mut() { if c.rng.chance(70) { o.label = c.rng.pick(&f.names).1.clone() } k += 1; o.confidence = ((k * 37) % 101) as f64 / 101.0 }
            let mut g: Vec<_> = e.iter().map(|o| near(&mut c.rng, o)).collect();
            let x = c.rng.below(3) as usize; g.extend(objs(&mut c.rng, x, 8));
            if c.rng.chance(30) && !e.is_empty() { e.pop(); }
            (e, g)
        }).collect();
        let task = c.rng.pick(&[EvaluationTask::Detection, EvaluationTask::Detection, EvaluationTask::Detection, EvaluationTask::Tracking, EvaluationTask::Prediction]).clone();
        let nt = frames.iter().filter(|f| !f.0.is_empty() && !f.1.is_empty()).count() > 1 && task == EvaluationTask::Detection;
        let d = format!("{task:?} {} thresholds {th:?}; frames {}", f.desc(), frames.iter().map(|(e, g)| format!("[estimates {}; ground truths {}]", shorts(e), shorts(g))).collect::<Vec<_>>().join(" "));
        c.case(d, nt, || {
            let cfg = config(&f, th, task.clone());
            let labels: Vec<Label> = f.names.iter().map(|n| n.1.clone()).collect();
            let mut m = manager(&cfg);
            let mut want: Vec<String> = vec![];
            for (i, (e, g)) in frames.iter().enumerate() {
                let fgt = FrameGroundTruth { timestamp: time(1000 * i as i64), objects: g.clone() };
                m.add_frame_result(e, &fgt).map_err(|e| format!("add_frame_result failed: {e:?}"))?;
                let (fe, fg) = (filter_objects(e, false, &f.params()), filter_objects(g, true, &f.params()));
                let r = get_perception_results(&fe, &fg);
                want.push(format!("{:?}", PerceptionFrameResult::new(r, FrameGroundTruth { timestamp: fgt.timestamp, objects: fg }, &labels, MatchingMode::PlaneDistance, &vec![th.1; labels.len()]).map_err(|e| format!("{e:?}"))?));
                let got: Vec<String> = m.frame_results.iter().map(|x| format!("{x:?}")).collect();
                req!(got == want, "after frame {i} the frame results are {got:?}\nexpected {want:?}");
                if i == 0 { let _ = m.get_metrics_score(); }
            }
            if task != EvaluationTask::Detection { req!(m.get_metrics_score().is_err(), "{task:?} yields a score"); return Ok(()) }
            check_scores(&m, &labels, th, false)?;
            check_scores(&m, &labels, th, true)?;
            let got: Vec<String> = m.frame_results.iter().map(|x| format!("{x:?}")).collect();
            req!(got == want, "asking for the score changed the frame results");
            Ok(())
        });
        if c.done() { return }
    }
}
