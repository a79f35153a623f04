//! C14-C17, C24: datasets written to disk, loaded and compared with their own tables.
use crate::{gen::*, req, scores::rot, Ctx, Out};
use perception_eval::dataset::{load_dataset, nuscenes::{schema::*, r#box::NuScenesBox, NuScenes}};
use perception_eval::{evaluation_task::EvaluationTask, frame_id::FrameID, label::Label};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

type Tables = BTreeMap<&'static str, Vec<Value>>;
const TABLES: [&str; 13] = ["attribute", "calibrated_sensor", "category", "ego_pose", "instance", "log", "map", "sample", "sample_annotation", "sample_data", "scene", "sensor", "visibility"];
const NAMES: [(&str, Label); 9] = [("car", Label::Car), ("vehicle.car", Label::Car), ("bus", Label::Bus), ("truck", Label::Truck), ("bicycle", Label::Bicycle), ("pedestrian.adult", Label::Pedestrian), ("animal", Label::Animal), ("motorbike", Label::Motorbike), ("spaceship", Label::Unknown)];
fn tok(r: &mut Rng) -> String { format!("{:016x}{:016x}", r.u(), r.u()) }
fn unit_q(r: &mut Rng) -> [f64; 4] {
    loop {
        let q = if r.chance(30) { yaw_q(r.range(-4, 4) as f64 * std::f64::consts::FRAC_PI_4) } else { [r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0] };
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 0.1 { return q.map(|x| x / n) }
    }
}
fn p3(r: &mut Rng) -> [f64; 3] { [r.coord(50), r.coord(50), r.coord(5)] }
fn shuffle(r: &mut Rng, v: &mut Vec<Value>) { for i in (1..v.len()).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j) } }
fn link(v: &mut [Value]) { let n = v.len(); let t: Vec<Value> = v.iter().map(|x| x["token"].clone()).collect(); for i in 0..n { v[i]["prev"] = if i > 0 { t[i - 1].clone() } else { json!("") }; v[i]["next"] = if i + 1 < n { t[i + 1].clone() } else { json!("") } } }
/// A well-formed dataset.
fn make(r: &mut Rng) -> Tables {
    let mut t: Tables = TABLES.iter().map(|k| (*k, vec![])).collect();
    for i in 0..2 { let k = tok(r); t.get_mut("attribute").unwrap().push(json!({"token": k, "name": format!("a{i}"), "description": "d"})) }
    for (i, k) in ["none", "full"].iter().enumerate() { t.get_mut("visibility").unwrap().push(json!({"token": k, "level": (["v0-40", "v80-100"][i]), "description": "d"})) }
    for i in 0..2 { let k = tok(r); t.get_mut("log").unwrap().push(json!({"token": k, "logfile": (["", "l"][i]), "vehicle": "v", "date_captured": "2018-07-24", "location": "s"})) }
    let logs: Vec<Value> = t["log"].iter().map(|x| x["token"].clone()).collect();
    let k = tok(r); t.get_mut("map").unwrap().push(json!({"token": k, "log_tokens": logs, "category": "c", "filename": "m.png"}));
    let nc = 1 + r.below(3);
    for _ in 0..nc { let k = tok(r); let n = r.pick(&NAMES).0; t.get_mut("category").unwrap().push(json!({"token": k, "name": n, "description": "d"})) }
    let mut cs = vec![];
    for (i, (ch, m)) in [("LIDAR_TOP", "lidar"), ("CAM_FRONT", "camera"), ("RADAR_FRONT", "radar")].iter().enumerate() {
        if i > 0 && r.chance(40) { continue }
        let (k, c) = (tok(r), tok(r));
        t.get_mut("sensor").unwrap().push(json!({"token": k, "channel": ch, "modality": m}));
        let (q, p) = (unit_q(r), p3(r));
        t.get_mut("calibrated_sensor").unwrap().push(json!({"token": c, "sensor_token": k, "translation": p, "rotation": q, "camera_intrinsic": []}));
        cs.push((c, i));
    }
    let mut now = 1_532_402_927_000_000i64 + r.below(1_000_000) as i64;
    let ns = 1 + r.below(2);
    for s in 0..ns {
        let scene = tok(r);
        let n = 1 + r.below(4) as usize;
        let mut samples = vec![]; let mut data: Vec<Vec<Value>> = cs.iter().map(|_| vec![]).collect();
        let back = r.chance(20);
        for i in 0..n {
            now += 1 + r.below(500_000) as i64;
            let ts = if back { now - 3_000_000 * i as i64 } else { now };
            let st = tok(r);
            samples.push(json!({"token": st, "timestamp": ts, "scene_token": scene}));
            for (c, (ct, kind)) in cs.iter().enumerate() {
                let shots = match r.below(5) { 0 => 0, 1 => 2, _ => 1 };
                for h in 0..shots {
                    let off = if h == 0 && (*kind == 0 || r.chance(50)) { 0 } else { 1 + r.below(40_000) as i64 };
                    let (d, e) = (tok(r), tok(r)); let (q, p) = (unit_q(r), p3(r));
                    t.get_mut("ego_pose").unwrap().push(json!({"token": e, "timestamp": ts + off, "rotation": q, "translation": p}));
                    let key = if off == 0 { !r.chance(15) } else { r.chance(15) };
                    data[c].push(json!({"token": d, "sample_token": st, "ego_pose_token": e, "calibrated_sensor_token": ct, "timestamp": ts + off, "fileformat": "pcd", "is_key_frame": key, "filename": format!("data/{d}.bin")}));
                }
            }
        }
        link(&mut samples);
        for d in data.iter_mut() { link(d); t.get_mut("sample_data").unwrap().append(d) }
        for _ in 0..r.below(4) {
            let inst = tok(r); let a = r.below(n as u64) as usize; let b = a + r.below((n - a) as u64) as usize;
            let mut anns = vec![];
            for i in a..=b {
                let k = tok(r); let (q, p) = (unit_q(r), p3(r));
                let at: Vec<Value> = t["attribute"].iter().filter(|_| r.chance(50)).map(|x| x["token"].clone()).collect();
                let vis = *r.pick(&["", "none", "full"]);
                anns.push(json!({"token": k, "sample_token": samples[i]["token"], "instance_token": inst, "visibility_token": vis, "attribute_tokens": at, "translation": p, "rotation": q,
                    "size": [r.range(1, 8) as f64 * 0.5, r.range(1, 8) as f64 * 0.25, 1.5], "num_lidar_pts": r.below(90), "num_radar_pts": r.below(3)}));
            }
            link(&mut anns);
            let cat = t["category"][r.below(nc) as usize]["token"].clone();
            t.get_mut("instance").unwrap().push(json!({"token": inst, "category_token": cat, "nbr_annotations": anns.len(), "first_annotation_token": anns[0]["token"], "last_annotation_token": anns[anns.len() - 1]["token"]}));
            t.get_mut("sample_annotation").unwrap().append(&mut anns);
        }
        t.get_mut("scene").unwrap().push(json!({"token": scene, "log_token": r.pick(&logs), "nbr_samples": n, "first_sample_token": samples[0]["token"], "last_sample_token": samples[n - 1]["token"], "name": format!("s{s}"), "description": "d"}));
        t.get_mut("sample").unwrap().append(&mut samples);
    }
    for k in TABLES { let v = t.get_mut(k).unwrap(); shuffle(r, v) }
    t
}
fn write(dir: &Path, t: &Tables) { let d = dir.join("v"); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); for (k, v) in t { std::fs::write(d.join(format!("{k}.json")), Value::Array(v.clone()).to_string()).unwrap() } }
fn rec<'a>(t: &'a Tables, k: &str, tok: &Value) -> &'a Value { t[k].iter().find(|x| &x["token"] == tok).unwrap() }
fn long(v: &Value) -> LongToken { LongToken::try_from(v.as_str().unwrap()).unwrap() }
fn f3(v: &Value) -> [f64; 3] { [v[0].as_f64().unwrap(), v[1].as_f64().unwrap(), v[2].as_f64().unwrap()] }
fn f4(v: &Value) -> [f64; 4] { [v[0].as_f64().unwrap(), v[1].as_f64().unwrap(), v[2].as_f64().unwrap(), v[3].as_f64().unwrap()] }
fn inv_pose(p: [f64; 3], q: [f64; 4], w: &Value) -> ([f64; 3], [f64; 4]) {
    let (tr, o) = (f3(&w["translation"]), f4(&w["rotation"])); let i = [o[0], -o[1], -o[2], -o[3]];
    let m = |a: [f64; 4], b: [f64; 4]| [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]];
    (rot(&i, [p[0] - tr[0], p[1] - tr[1], p[2] - tr[2]]), m(i, q))
}
fn near(a: &[f64], b: &[f64]) -> bool { a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-7) }
fn load(dir: &Path) -> Result<NuScenes, String> { NuScenes::load("v", dir).map_err(|e| format!("a well-formed dataset is rejected: {e:?}")) }
fn toks(v: &[Value]) -> Vec<String> { v.iter().map(|x| x["token"].as_str().unwrap().to_string()).collect() }
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
/// The annotations of a sample in the order in which the loaded dataset lists them.
fn anns_in_order<'a>(n: &NuScenes, t: &'a Tables, sample: &Value) -> Vec<&'a Value> {
    let s = n.sample_iter().find(|s| s.token == long(sample)).unwrap();
    s.annotation_tokens.iter().map(|k| rec(t, "sample_annotation", &json!(k.to_string()))).collect()
}
fn same_box(t: &Tables, a: &Value, b: &NuScenesBox, p: [f64; 3], q: [f64; 4]) -> Out {
    let i = rec(t, "instance", &a["instance_token"]); let c = rec(t, "category", &i["category_token"]);
    req!(b.token == long(&a["token"]) && b.instance == long(&a["instance_token"]), "box of annotation {} has token {} and instance {}, expected instance {}", a["token"], b.token, b.instance, a["instance_token"]);
    req!(b.size == f3(&a["size"]) && json!(b.num_lidar_pts) == a["num_lidar_pts"] && json!(b.name) == c["name"], "box of annotation {}: size {:?}, points {}, name {}, expected {}, {}, {}", a["token"], b.size, b.num_lidar_pts, b.name, a["size"], a["num_lidar_pts"], c["name"]);
    req!(near(&b.position, &p) && near(&b.orientation, &q), "box of annotation {} at {:?} {:?}, expected {:?} {:?}", a["token"], b.position, b.orientation, p, q);
    Ok(())
}
fn each(c: &mut Ctx, tag: &str, per: u64, f: impl Fn(&mut Rng, &Path, &Tables) -> Out) {
    let dir = crate::scen::scratch(tag);
    for _ in 0..per * c.n {
        if c.done() { break }
        let t = make(&mut c.rng); write(&dir, &t);
        let mut r = Rng::new(c.rng.u());
        c.case(format!("dataset {}", json!(t)), !t["sample_annotation"].is_empty(), || f(&mut r, &dir, &t));
    }
    let _ = std::fs::remove_dir_all(&dir);
}
pub fn c14(c: &mut Ctx) {
    c.rule = "a dataset with annotations".into();
    each(c, "c14", 150, |r, dir, t| {
        let n = load(dir)?;
        for a in &t["sample_annotation"] { same_box(t, a, &n.get_box(&long(&a["token"])).map_err(|e| format!("get_box {}: {e:?}", a["token"]))?, f3(&a["translation"]), f4(&a["rotation"]))?; }
        for sd in &t["sample_data"] {
            let k = long(&sd["token"]);
            let anns = anns_in_order(&n, t, &sd["sample_token"]);
            let bs = n.get_boxes(&k).map_err(|e| format!("{e:?}"))?;
            req!(bs.len() == anns.len(), "get_boxes of {} gives {} boxes for {} annotations", sd["token"], bs.len(), anns.len());
            for (a, b) in anns.iter().zip(&bs) { same_box(t, a, b, f3(&a["translation"]), f4(&a["rotation"]))? }
            let path = dir.join(sd["filename"].as_str().unwrap());
            req!(n.get_sample_data_path(&k).map_err(|e| format!("{e:?}"))? == path, "path of {}", sd["token"]);
            for sf in [false, true] {
                let (p, bs) = n.get_sample_data(&k, &sf).map_err(|e| format!("{e:?}"))?;
                req!(p == path && bs.len() == anns.len(), "get_sample_data of {} gives path {p:?} and {} boxes for {} annotations", sd["token"], bs.len(), anns.len());
                for (a, b) in anns.iter().zip(&bs) {
                    let (mut x, mut q) = inv_pose(f3(&a["translation"]), f4(&a["rotation"]), rec(t, "ego_pose", &sd["ego_pose_token"]));
                    if sf { (x, q) = inv_pose(x, q, rec(t, "calibrated_sensor", &sd["calibrated_sensor_token"])) }
                    same_box(t, a, b, x, q).map_err(|e| format!("sample data {}, sensor frame {sf}: {e}", sd["token"]))?;
                }
            }
        }
        for k in [long(&json!(tok(r))), long(&t["scene"][0]["token"]), long(&t["category"][0]["token"])] {
            req!(n.get_box(&k).is_err() && n.get_boxes(&k).is_err() && n.get_sample_data_path(&k).is_err() && n.get_sample_data(&k, &false).is_err(), "the unknown token {k} gives a record");
        }
        Ok(())
    });
}
/// Breaks one thing in a dataset; true if the result must be rejected.
fn corrupt(r: &mut Rng, t: &mut Tables) -> Option<String> {
    const REFS: [(&str, &str); 22] = [("calibrated_sensor", "sensor_token"), ("instance", "category_token"), ("instance", "first_annotation_token"), ("instance", "last_annotation_token"), ("scene", "log_token"), ("scene", "first_sample_token"), ("scene", "last_sample_token"),
        ("sample", "scene_token"), ("sample", "prev"), ("sample", "next"), ("sample_annotation", "sample_token"), ("sample_annotation", "instance_token"), ("sample_annotation", "attribute_tokens"), ("sample_annotation", "visibility_token"), ("sample_annotation", "prev"), ("sample_annotation", "next"),
        ("sample_data", "sample_token"), ("sample_data", "ego_pose_token"), ("sample_data", "calibrated_sensor_token"), ("sample_data", "prev"), ("sample_data", "next"), ("sample_data", "ego_pose_token")];
    match r.below(5) {
        0 | 1 => {
            let (k, f) = *r.pick(&REFS);
            if t[k].is_empty() { return None }
            let i = r.below(t[k].len() as u64) as usize; let new = tok(r); let x = &mut t.get_mut(k).unwrap()[i];
            if f == "attribute_tokens" { x[f].as_array_mut().unwrap().push(json!(new)) } else { x[f] = json!(new) }
            Some(format!("{k} {i} has the unknown {f} {new}"))
        }
        2 => {
            let (k, f) = *r.pick(&[("instance", "nbr_annotations"), ("scene", "nbr_samples")]);
            if t[k].is_empty() { return None }
            let i = r.below(t[k].len() as u64) as usize; let x = &mut t.get_mut(k).unwrap()[i];
            let n = x[f].as_u64().unwrap(); x[f] = json!(if r.chance(50) { n + 1 } else { n - 1 });
            Some(format!("{k} {i} states {f} {}", x[f]))
        }
        3 => {
            // a wrong but existing link in a chain
            let (k, f) = *r.pick(&[("sample", "prev"), ("sample", "next"), ("sample_annotation", "prev"), ("sample_annotation", "next"), ("instance", "first_annotation_token"), ("instance", "last_annotation_token"), ("scene", "first_sample_token"), ("scene", "last_sample_token")]);
            if t[k].is_empty() { return None }
            let i = r.below(t[k].len() as u64) as usize;
            let src = if k == "instance" { "sample_annotation" } else if k == "scene" { "sample" } else { k };
            let mut o: Vec<Value> = t[src].iter().map(|x| x["token"].clone()).collect(); if src == k { o.push(json!("")) }
            let new = r.pick(&o).clone(); let x = &mut t.get_mut(k).unwrap()[i];
            if x[f] == new { return None }
            x[f] = new.clone();
            Some(format!("{k} {i} has {f} {new}"))
        }
        _ => {
            // remove a record that is referred to
            let (k, need) = *r.pick(&[("sensor", "calibrated_sensor"), ("category", "instance"), ("log", "scene"), ("ego_pose", "sample_data"), ("calibrated_sensor", "sample_data"), ("instance", "sample_annotation"), ("scene", "sample"), ("sample", "scene"), ("sample_annotation", "instance")]);
            if t[k].is_empty() { return None }
            let i = r.below(t[k].len() as u64) as usize; let x = t.get_mut(k).unwrap().remove(i);
            let field = format!("{k}_token");
            let used = match (k, need) { ("sample", _) | ("sample_annotation", _) => true, _ => t[need].iter().any(|y| y[&field] == x["token"]) };
            if used { Some(format!("{k} {} is missing", x["token"])) } else { None }
        }
    }
}
pub fn c15(c: &mut Ctx) {
    c.rule = "a dataset with one broken reference, link or count".into();
    let dir = crate::scen::scratch("c15");
    for k in 0..600 * c.n {
        if c.done() { break }
        let mut t = make(&mut c.rng);
        let bad = if k % 6 == 0 { None } else { let mut b = None; for _ in 0..20 { let mut u = t.clone(); b = corrupt(&mut c.rng, &mut u); if b.is_some() { t = u; break } } b };
        write(&dir, &t);
        c.case(format!("dataset {} ({})", json!(t), bad.clone().unwrap_or_default()), bad.is_some(), || {
            let d = dir.clone();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || { let r = std::panic::catch_unwind(|| NuScenes::load("v", &d).map(|_| ()).map_err(|e| format!("{e:?}"))); let _ = tx.send(r); });
            let r = rx.recv_timeout(std::time::Duration::from_secs(6)).map_err(|_| "loading does not terminate".to_string())?.map_err(|_| "loading panics".to_string())?;
            match &bad { None => req!(r.is_ok(), "a well-formed dataset is rejected: {r:?}"), Some(b) => req!(r.is_err(), "{b}, and the dataset loads") }
            Ok(())
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
}
fn follow(t: &Tables, k: &str, first: &Value) -> Vec<String> { let mut v = vec![]; let mut x = first.clone(); while x != json!("") { let y = rec(t, k, &x); v.push(x.as_str().unwrap().to_string()); x = y["next"].clone() } v }
fn in_time(t: &Tables, k: &str, got: Vec<String>, when: impl Fn(&Value) -> i64) -> Out {
    req!(sorted(got.clone()) == sorted(toks(&t[k])), "{k} iterates over {got:?}, the table holds {:?}", toks(&t[k]));
    let ts: Vec<i64> = got.iter().map(|g| when(rec(t, k, &json!(g)))).collect();
    req!(ts.windows(2).all(|w| w[0] <= w[1]), "{k} is iterated at the times {ts:?}");
    Ok(())
}
pub fn c16(c: &mut Ctx) {
    c.rule = "a dataset with annotations".into();
    each(c, "c16", 300, |_, dir, t| {
        let n = load(dir)?;
        let s = |v: &[LongToken]| -> Vec<String> { v.iter().map(|k| k.to_string()).collect() };
        for sc in n.scene_iter() {
            let want = follow(t, "sample", &rec(t, "scene", &json!(sc.token.to_string()))["first_sample_token"]);
            req!(s(&sc.sample_tokens) == want, "scene {} lists {:?}, its chain is {want:?}", sc.token, s(&sc.sample_tokens));
            let its: Vec<String> = sc.sample_iter().map(|x| x.token.to_string()).collect();
            req!(its == want, "scene {} iterates over {its:?}, its chain is {want:?}", sc.token);
        }
        for a in &t["sample_annotation"] {
            let k = long(&a["token"]);
            let s = n.sample_iter().find(|x| x.annotation_tokens.contains(&k)).ok_or(format!("no sample lists annotation {k}"))?;
            let w = s.sample_annotation_iter().find(|x| x.token == k).ok_or("annotation not iterated")?;
            let i = w.instance();
            let want = follow(t, "sample_annotation", &rec(t, "instance", &a["instance_token"])["first_annotation_token"]);
            let got: Vec<String> = i.annotation_tokens.iter().map(|x| x.to_string()).collect();
            req!(got == want, "instance {} lists {got:?}, its chain is {want:?}", i.token);
        }
        for x in n.sample_iter() {
            let k = json!(x.token.to_string());
            for (table, got) in [("sample_annotation", s(&x.annotation_tokens)), ("sample_data", s(&x.sample_data_tokens))] {
                let want: Vec<String> = t[table].iter().filter(|a| a["sample_token"] == k).map(|a| a["token"].as_str().unwrap().to_string()).collect();
                req!(sorted(got.clone()) == sorted(want.clone()), "sample {k} lists {got:?} of {table}, those that refer to it are {want:?}");
            }
        }
        let ts = |v: &Value| v["timestamp"].as_i64().unwrap();
        in_time(t, "sample", n.sample_iter().map(|x| x.token.to_string()).collect(), ts)?;
        in_time(t, "sample_data", n.sample_data_iter().map(|x| x.token.to_string()).collect(), ts)?;
        in_time(t, "ego_pose", n.ego_pose_iter().map(|x| x.token.to_string()).collect(), ts)?;
        in_time(t, "scene", n.scene_iter().map(|x| x.token.to_string()).collect(), |v| t["sample"].iter().filter(|s| s["scene_token"] == v["token"]).map(ts).min().unwrap())
    });
}
pub fn c17(c: &mut Ctx) {
    c.rule = "a dataset with annotations".into();
    each(c, "c17", 150, |r, dir, t| {
        let n = load(dir)?;
        let frame = r.pick(&[FrameID::BaseLink, FrameID::Map, FrameID::CamFront]).clone();
        let fs = load_dataset("v", &dir.to_path_buf(), &EvaluationTask::Detection, &frame).map_err(|e| format!("load_dataset: {e:?}"))?;
        let samples: Vec<_> = n.sample_iter().collect();
        req!(fs.len() == samples.len(), "{} frames for {} samples", fs.len(), samples.len());
        for (f, s) in fs.iter().zip(&samples) {
            let ts = rec(t, "sample", &json!(s.token.to_string()))["timestamp"].as_i64().unwrap();
            req!(f.timestamp.timestamp_micros() == ts, "frame of sample {} has timestamp {}", s.token, f.timestamp);
            let mut want = vec![];
            // one set of objects per lidar sample data of that instant
            for sd in s.sample_data_tokens.iter().map(|k| rec(t, "sample_data", &json!(k.to_string()))) {
                let cs = rec(t, "calibrated_sensor", &sd["calibrated_sensor_token"]);
                if rec(t, "sensor", &cs["sensor_token"])["modality"] != "lidar" || sd["timestamp"].as_i64().unwrap() != ts { continue }
                for a in anns_in_order(&n, t, &sd["sample_token"]) { want.push((a, inv_pose(f3(&a["translation"]), f4(&a["rotation"]), rec(t, "ego_pose", &sd["ego_pose_token"])))) }
            }
            req!(f.objects.len() == want.len(), "frame of sample {} holds {} objects, expected {}", s.token, f.objects.len(), want.len());
            // the annotations of a sample are listed in no particular order, and each belongs to another instance
            let mut objects: Vec<_> = f.objects.iter().collect(); objects.sort_by(|x, y| x.uuid.cmp(&y.uuid));
            want.sort_by(|x, y| x.0["instance_token"].as_str().cmp(&y.0["instance_token"].as_str()));
            for (o, (a, (p, q))) in objects.into_iter().zip(&want) {
                let name = &rec(t, "category", &rec(t, "instance", &a["instance_token"])["category_token"])["name"];
                let l = NAMES.iter().find(|x| name == x.0).unwrap().1.clone();
                req!(near(&o.position, p) && near(&o.orientation, q) && o.size == f3(&a["size"]), "object of annotation {}: {:?}, expected position {p:?} orientation {q:?}", a["token"], o);
                req!(o.label == l && json!(o.pointcloud_num) == a["num_lidar_pts"] && o.uuid.as_deref() == a["instance_token"].as_str() && o.confidence == 1.0 && o.frame_id == frame && o.velocity.is_none() && o.timestamp == f.timestamp, "object of annotation {a}: {o:?}, expected label {l:?} frame {frame:?}");
            }
        }
        Ok(())
    });
}
pub fn c24(c: &mut Ctx) {
    c.rule = "a dataset with annotations".into();
    each(c, "c24", 200, |_, dir, t| {
        let n = load(dir)?;
        let is = |what: &str, k: &LongToken, want: &Value| -> Out { req!(json!(k.to_string()) == *want, "{what} yields {k}, expected {want}"); Ok(()) };
        let opt = |what: &str, k: Option<LongToken>, want: &Value| -> Out { let g = k.map_or(String::new(), |x| x.to_string()); req!(json!(g) == *want, "{what} yields {g:?}, expected {want}"); Ok(()) };
        let mut count = 0;
        for s in n.sample_iter() {
            count += 1;
            let e = rec(t, "sample", &json!(s.token.to_string()));
            is("scene of a sample", &s.scene().token, &e["scene_token"])?;
            is("log of a scene", &s.scene().log().token, &rec(t, "scene", &e["scene_token"])["log_token"])?;
            opt("prev of a sample", s.prev().map(|x| x.token.clone()), &e["prev"])?; opt("next of a sample", s.next().map(|x| x.token.clone()), &e["next"])?;
            if let Some(x) = s.next() { opt("prev after next of a sample", x.prev().map(|x| x.token.clone()), &e["token"])? }
            if let Some(x) = s.prev() { opt("next after prev of a sample", x.next().map(|x| x.token.clone()), &e["token"])? }
            let mut m = vec![];
            for a in s.sample_annotation_iter() {
                m.push(a.token.to_string());
                let f = rec(t, "sample_annotation", &json!(a.token.to_string()));
                is("sample of an annotation", &a.sample().token, &f["sample_token"])?; is("instance of an annotation", &a.instance().token, &f["instance_token"])?;
                is("category of an instance", &a.instance().category().token, &rec(t, "instance", &f["instance_token"])["category_token"])?;
                opt("prev of an annotation", a.prev().map(|x| x.token.clone()), &f["prev"])?; opt("next of an annotation", a.next().map(|x| x.token.clone()), &f["next"])?;
                if let Some(x) = a.next() { opt("prev after next of an annotation", x.prev().map(|x| x.token.clone()), &f["token"])? }
                if let Some(x) = a.prev() { opt("next after prev of an annotation", x.next().map(|x| x.token.clone()), &f["token"])? }
                let at: Vec<String> = a.attribute_iter().map(|x| x.token.to_string()).collect();
                req!(json!(at) == f["attribute_tokens"], "attributes of annotation {} are {at:?}, expected {}", f["token"], f["attribute_tokens"]);
                let it: Vec<String> = a.instance().sample_annotation_iter().map(|x| x.token.to_string()).collect();
                req!(it.contains(&a.token.to_string()), "the instance of annotation {} iterates over {it:?}", a.token);
            }
            req!(m == s.annotation_tokens.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "sample {} iterates over {m:?}", s.token);
            let d: Vec<String> = s.sample_data_iter().map(|x| x.token.to_string()).collect();
            req!(d == s.sample_data_tokens.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "sample {} iterates over {d:?}", s.token);
        }
        req!(count == t["sample"].len(), "{count} samples iterated");
        for d in n.sample_data_iter() {
            let f = rec(t, "sample_data", &json!(d.token.to_string()));
            is("sample of a sample data", &d.sample().token, &f["sample_token"])?; is("ego pose of a sample data", &d.ego_pose().token, &f["ego_pose_token"])?; is("calibrated sensor of a sample data", &d.calibrated_sensor().token, &f["calibrated_sensor_token"])?;
            is("sensor of a calibrated sensor", &d.calibrated_sensor().sensor().token, &rec(t, "calibrated_sensor", &f["calibrated_sensor_token"])["sensor_token"])?;
            opt("prev of a sample data", d.prev().map(|x| x.token.clone()), &f["prev"])?; opt("next of a sample data", d.next().map(|x| x.token.clone()), &f["next"])?;
        }
        for s in n.scene_iter() {
            let v: Vec<String> = s.sample_iter().map(|x| x.token.to_string()).collect();
            req!(v == s.sample_tokens.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "scene {} iterates over {v:?}", s.token);
        }
        req!(n.ego_pose_iter().map(|e| e.token.to_string()).count() == t["ego_pose"].len(), "number of ego poses");
        Ok(())
    });
}
