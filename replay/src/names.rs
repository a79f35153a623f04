use crate::{gen::*, req, Ctx};
use chrono::NaiveDateTime;
use perception_eval::{dataset::{get_current_frame, nuscenes::schema::*, FrameGroundTruth}, evaluation_task::{set_task, EvaluationTask}, frame_id::FrameID, label::{convert_labels, Label, LabelConverter}};
use std::convert::TryFrom;
use std::str::FromStr;

/// The documented names.
const NAMES: [(&str, Label); 44] = [("car", Label::Car), ("vehicle.car", Label::Car), ("vehicle.construction", Label::Car), ("vehicle.emergency (ambulance & police)", Label::Car), ("vehicle.police", Label::Car), ("vehicle.fire", Label::Car), ("vehicle.ambulance", Label::Car), ("truck", Label::Truck), ("vehicle.truck", Label::Truck), ("trailer", Label::Truck), ("vehicle.trailer", Label::Truck), ("bus", Label::Bus), ("vehicle.bus", Label::Bus), ("vehicle.bus (bendy & rigid)", Label::Bus), ("vehicle.bus.rigid", Label::Bus), ("vehicle.bus.bendy", Label::Bus), ("bicycle", Label::Bicycle), ("vehicle.bicycle", Label::Bicycle), ("motorbike", Label::Motorbike), ("vehicle.motorcycle", Label::Motorbike), ("pedestrian", Label::Pedestrian), ("pedestrian.adult", Label::Pedestrian), ("pedestrian.child", Label::Pedestrian), ("pedestrian.construction_worker", Label::Pedestrian), ("pedestrian.personal_mobility", Label::Pedestrian), ("pedestrian.police_officer", Label::Pedestrian), ("pedestrian.stroller", Label::Pedestrian), ("pedestrian.wheelchair", Label::Pedestrian), ("human.pedestrian.adult", Label::Pedestrian), ("human.pedestrian.child", Label::Pedestrian), ("human.pedestrian.construction_worker", Label::Pedestrian), ("human.pedestrian.personal_mobility", Label::Pedestrian), ("human.pedestrian.police_officer", Label::Pedestrian), ("human.pedestrian.stroller", Label::Pedestrian), ("human.pedestrian.wheelchair", Label::Pedestrian), ("animal", Label::Animal), ("unknown", Label::Unknown), ("movable_object.barrier", Label::Unknown), ("movable_object.debris", Label::Unknown), ("movable_object.pushable_pullable", Label::Unknown), ("movable_object.trafficcone", Label::Unknown), ("movable_object.traffic_cone", Label::Unknown), ("static_object.bicycle_rack", Label::Unknown), ("static_object.bollard", Label::Unknown)];
fn doc(s: &str) -> Label { let l = s.to_lowercase(); NAMES.iter().find(|n| n.0 == l).map_or(Label::Unknown, |n| n.1.clone()) }
fn mangle(r: &mut Rng, s: &str) -> String { let p = *r.pick(&[0, 10, 50, 100]); s.chars().map(|c| if r.chance(p) { c.to_ascii_uppercase() } else { c }).collect() }
fn junk(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.below(3) {
        let i = r.below(v.len() as u64 + 1) as usize;
        let c = *r.pick(&[' ', '.', '_', 'a', 's', 'X', '0', '\u{e9}', '\t', '-', '\u{0}', '/']);
        match r.below(3) { 0 => v.insert(i, c), 1 => if i < v.len() { v[i] = c }, _ => if i < v.len() { v.remove(i); } }
    }
    v.into_iter().collect()
}
pub fn c19(c: &mut Ctx) {
    c.rule = "the name is known".into();
    let conv = LabelConverter::new("autoware").unwrap();
    for l in LABELS.iter() { let l = l.1.clone(); let cv = conv.clone(); c.case(format!("print {l:?} and convert"), true, move || { let s = l.to_string(); req!(cv.convert(&s) == l, "{l:?} prints {s}, which converts to {:?}", cv.convert(&s)); Ok(()) }); }
    for k in 0..c.n * 3000 {
        let n = c.rng.below(6) as usize;
        let v: Vec<String> = (0..n.max(1)).map(|i| { let b = if i == 0 { NAMES[k as usize % NAMES.len()].0 } else { c.rng.pick(&NAMES).0 }; let s = mangle(&mut c.rng, b); if c.rng.chance(35) { junk(&mut c.rng, &s) } else { s } }).collect();
        let cv = conv.clone();
        let nt = v.iter().any(|s| NAMES.iter().any(|n| n.0 == s.to_lowercase()));
        c.case(format!("names {v:?}"), nt, move || {
            let r: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            let want: Vec<Label> = r.iter().map(|s| doc(s)).collect();
            let got: Vec<Label> = r.iter().map(|s| cv.convert(s)).collect();
            req!(got == want, "convert gives {got:?}, expected {want:?}");
            let g2 = convert_labels(&r, &cv).map_err(|e| e.to_string())?;
            req!(g2 == want, "convert_labels gives {g2:?}, expected {want:?}");
            Ok(())
        });
        if c.done() { return }
    }
    for p in ["", "Autoware", "autoware ", "traffic_light", "nuscenes", "AUTOWARE", "autoware\u{0}"] { c.case(format!("prefix {p:?}"), false, move || { req!(LabelConverter::new(p).is_err(), "an unsupported naming scheme was accepted"); Ok(()) }); }
}
fn snake(s: &str) -> String { let mut o = String::new(); for (i, ch) in s.chars().enumerate() { if ch.is_uppercase() && i > 0 { o.push('_') } o.push(ch.to_ascii_lowercase()) } o }
pub fn c20(c: &mut Ctx) {
    c.rule = "the text is one of the documented spellings".into();
    let fr = ["BaseLink", "Map", "CamBack", "CamBackLeft", "CamBackRight", "CamFront", "CamFrontLeft", "CamFrontRight", "CamTrafficLightNear", "CamTrafficLightFar"];
    let fv = [FrameID::BaseLink, FrameID::Map, FrameID::CamBack, FrameID::CamBackLeft, FrameID::CamBackRight, FrameID::CamFront, FrameID::CamFrontLeft, FrameID::CamFrontRight, FrameID::CamTrafficLightNear, FrameID::CamTrafficLightFar];
    let tk = ["Detection", "Tracking", "Prediction"];
    let tv = [EvaluationTask::Detection, EvaluationTask::Tracking, EvaluationTask::Prediction];
    for k in 0..c.n * 4000 {
        let base = if c.rng.chance(60) { *c.rng.pick(&fr) } else { *c.rng.pick(&tk) };
        let base = if k < 13 { fr.iter().chain(tk.iter()).nth(k as usize).copied().unwrap() } else { base };
        let s = if c.rng.chance(50) { base.to_string() } else { snake(base) };
        let s = if k < 26 { s } else { match c.rng.below(4) { 0 => mangle(&mut c.rng, &s), 1 => junk(&mut c.rng, &s), _ => s } };
        let f = fr.iter().position(|x| *x == s || snake(x) == s);
        let t = tk.iter().position(|x| *x == s || snake(x) == s);
        let (fw, tw) = (f.map(|i| fv[i].clone()), t.map(|i| tv[i].clone()));
        c.case(format!("text {s:?}"), f.is_some() || t.is_some(), move || {
            let a = FrameID::from_str(&s).ok(); req!(a == fw, "frame id: got {a:?}, expected {fw:?}");
            let b = EvaluationTask::from_str(&s).ok(); req!(b == tw, "task: got {b:?}, expected {tw:?}");
            let d = set_task(&s).ok(); req!(d == tw, "set_task: got {d:?}, expected {tw:?}");
            if let Some(v) = a { let p = v.to_string(); req!(FrameID::from_str(&p).ok() == Some(v.clone()), "{v:?} prints {p:?}, which does not parse back") }
            if let Some(v) = b { let p = v.to_string(); req!(EvaluationTask::from_str(&p).ok() == Some(v.clone()), "{v:?} prints {p:?}, which does not parse back"); req!(v.is_3d() != v.is_2d(), "{v:?} is not exactly one of 3D and 2D") }
            Ok(())
        });
        if c.done() { return }
    }
}
fn hexv(s: &str) -> Option<Vec<u8>> { let v: Option<Vec<u32>> = s.chars().map(|ch| if ch.is_ascii() { ch.to_digit(16) } else { None }).collect(); let v = v?; if v.len() % 2 != 0 { return None } Some(v.chunks(2).map(|p| (p[0] * 16 + p[1]) as u8).collect()) }
pub fn c21(c: &mut Ctx) {
    c.rule = "the text is a token".into();
    for _ in 0..c.n * 4000 {
        let len = *c.rng.pick(&[32, 32, 32, 32, 31, 33, 30, 34, 0, 1, 2, 16, 64]);
        let up = c.rng.chance(30);
        let s: String = (0..len).map(|_| { let d = std::char::from_digit(c.rng.below(16) as u32, 16).unwrap(); if up && c.rng.chance(50) { d.to_ascii_uppercase() } else { d } }).collect();
        let s = if c.rng.chance(30) { junk(&mut c.rng, &s) } else { s };
        let mut s2 = s.clone(); if c.rng.chance(60) && !s2.is_empty() && s2.is_ascii() { let i = c.rng.below(s2.len() as u64) as usize; s2.replace_range(i..i + 1, "7") }
        let want = hexv(&s).filter(|b| b.len() == 16);
        c.case(format!("text {s:?} (and {s2:?})"), want.is_some(), move || {
            let a = LongToken::try_from(s.as_str()); let b = ShortToken::try_from(s.as_str());
            req!(a.is_ok() == want.is_some(), "LongToken: {a:?}"); req!(b.is_ok() == want.is_some(), "ShortToken: {b:?}");
            let j = serde_json::to_string(&s).unwrap();
            let ja = serde_json::from_str::<LongToken>(&j); let jb = serde_json::from_str::<ShortToken>(&j);
            req!(ja.is_ok() == want.is_some() && jb.is_ok() == want.is_some(), "read from JSON: {ja:?} {jb:?}");
            let tok = |t: &str| format!("{{\"token\":\"{}\",\"next\":\"{t}\",\"prev\":\"\",\"scene_token\":\"{}\",\"timestamp\":0}}", "0".repeat(32), "0".repeat(32));
            if !s.chars().any(|c| c.is_control()) {
                let sm = serde_json::from_str::<Sample>(&tok(&s));
                req!(sm.is_ok() == (want.is_some() || s.is_empty()), "next link read from a record: {sm:?}");
                if let Ok(x) = sm { req!(x.prev.is_none() && x.next.is_some() == want.is_some(), "next {:?} prev {:?}", x.next, x.prev); if let (Some(n), Ok(t)) = (&x.next, &a) { req!(n == t, "next is {n}, expected {t}") } let y = serde_json::from_str::<Sample>(&serde_json::to_string(&x).unwrap()); req!(y.as_ref().map_or(false, |y| y.next == x.next && y.prev == x.prev), "written and read back: {y:?}") }
            }
            if let (Some(w), Ok(a), Ok(b)) = (want, a, b) {
                let h: String = w.iter().map(|x| format!("{x:02x}")).collect();
                req!(a.to_string() == h && b.to_string() == h, "prints {a} and {b}, expected {h}");
                req!(LongToken::try_from(a.to_string().as_str()).ok() == Some(a.clone()), "does not parse back");
                req!(ShortToken::try_from(b.to_string().as_str()).ok() == Some(b.clone()), "does not parse back");
                req!(ja.unwrap() == a && jb.unwrap() == b, "JSON gives another token");
                req!(serde_json::to_string(&a).unwrap() == format!("\"{h}\"") && serde_json::to_string(&b).unwrap() == format!("\"{h}\""), "written to JSON as {}", serde_json::to_string(&a).unwrap());
                if let (Ok(a2), Ok(b2)) = (LongToken::try_from(s2.as_str()), ShortToken::try_from(s2.as_str())) { let eq = hexv(&s2).unwrap() == w; req!((a == a2) == eq && (b == b2) == eq, "{a} == {a2} is {}", a == a2) }
            }
            Ok(())
        });
        if c.done() { return }
    }
}
pub fn c22(c: &mut Ctx) {
    c.rule = "the number is a representable instant".into();
    for _ in 0..c.n * 4000 {
        let n: i64 = match c.rng.below(8) { 0 => c.rng.range(-2_000_000, 2_000_000), 1 => c.rng.range(-1i64 << 53, 1i64 << 53), 2 => *c.rng.pick(&[0, 1, -1, 999, 1000, 1001, 999_999, -999_999, 1 << 53, -(1 << 53)]), _ => 1_500_000_000_000_000 + c.rng.range(0, 3_000_000_000_000_000) };
        // a number that serde_json itself reads exactly
        let txt = if n.abs() < 900_000_000_000_000 && c.rng.chance(40) { format!("{n}.0") } else { format!("{n}") };
        c.case(format!("timestamp {txt}"), true, move || {
            let z = "0".repeat(32);
            let rec = format!("{{\"token\":\"{z}\",\"timestamp\":{txt},\"rotation\":[1,0,0,0],\"translation\":[0,0,0]}}");
            let e: EgoPose = serde_json::from_str(&rec).map_err(|e| format!("error {e}"))?;
            let want = NaiveDateTime::from_timestamp_opt(n.div_euclid(1_000_000), (n.rem_euclid(1_000_000) * 1000) as u32).unwrap();
            req!(e.timestamp == want, "read as {:?}, expected {want:?}", e.timestamp);
            let w: serde_json::Value = serde_json::from_str(&serde_json::to_string(&e).unwrap()).unwrap();
            req!(w["timestamp"].as_f64() == Some(n as f64), "written as {}, expected {n}", w["timestamp"]);
            let e2: EgoPose = serde_json::from_str(&serde_json::to_string(&e).unwrap()).map_err(|e| e.to_string())?;
            req!(e2.timestamp == e.timestamp, "read back as {:?}", e2.timestamp);
            let s = format!("{{\"token\":\"{z}\",\"next\":\"\",\"prev\":\"\",\"scene_token\":\"{z}\",\"timestamp\":{txt}}}");
            let x: Sample = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            req!(x.timestamp == want, "sample read as {:?}, expected {want:?}", x.timestamp);
            let s = format!("{{\"token\":\"{z}\",\"fileformat\":\"bin\",\"is_key_frame\":true,\"filename\":\"a\",\"timestamp\":{txt},\"sample_token\":\"{z}\",\"ego_pose_token\":\"{z}\",\"calibrated_sensor_token\":\"{z}\",\"next\":\"\",\"prev\":\"\"}}");
            let x: SampleData = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            req!(x.timestamp == want, "sample data read as {:?}, expected {want:?}", x.timestamp);
            Ok(())
        });
        if c.done() { return }
    }
    for t in ["1e19", "-1e19", "1e300", "-1e300", "9.0e18", "-9.0e18", "1e25", "\"5\"", "null"] { c.case(format!("timestamp {t}"), false, move || { let z = "0".repeat(32); let r = serde_json::from_str::<EgoPose>(&format!("{{\"token\":\"{z}\",\"timestamp\":{t},\"rotation\":[1,0,0,0],\"translation\":[0,0,0]}}")); req!(r.is_err(), "accepted as {:?}", r.unwrap().timestamp); Ok(()) }); }
}
pub fn c18(c: &mut Ctx) {
    c.rule = "a frame is returned".into();
    for _ in 0..c.n * 4000 {
        let n = c.rng.below(6) as usize;
        let base: i64 = *c.rng.pick(&[0, 1_600_000_000_000_000, -500_000, 1_600_000_000_123_456]);
        let mut fs: Vec<FrameGroundTruth> = vec![];
        for _ in 0..n {
            let d = match c.rng.below(4) { 0 => c.rng.range(-80, 80) * 1000, 1 => *c.rng.pick(&[-76_000, -75_000, -74_000, 74_000, 75_000, 76_000, 74_999, -75_001, 75_999]), 2 => c.rng.range(-3_000, 3_000), _ => c.rng.range(-200_000, 200_000) };
            let k = c.rng.below(3) as usize;
            fs.push(FrameGroundTruth { timestamp: time(base + d), objects: objs(&mut c.rng, k, 3) });
        }
        let t = time(base + if c.rng.chance(40) { c.rng.range(-999, 999) } else { 0 });
        let ms = |t: NaiveDateTime| (t - time(0)).num_microseconds().unwrap().div_euclid(1000);
        let mut want: Option<usize> = None; let mut best = 75;
        for (i, f) in fs.iter().enumerate() { let d = (ms(f.timestamp) - ms(t)).abs(); if d < best { best = d; want = Some(i) } }
        let d: Vec<String> = fs.iter().map(|f| format!("{:?} ({} objects)", f.timestamp, f.objects.len())).collect();
        c.case(format!("frames {d:?} at {t:?}"), want.is_some(), move || {
            let g = get_current_frame(&fs, &t);
            match (want, &g) { (None, None) => {} (Some(i), Some(f)) => req!(f.timestamp == fs[i].timestamp && same_all(&f.objects, &fs[i].objects), "returned the frame at {:?} with {} objects, expected frame {i}", f.timestamp, f.objects.len()), _ => return Err(format!("returned {:?}, expected {want:?}", g.map(|f| f.timestamp))) }
            Ok(())
        });
        if c.done() { return }
    }
    c.case("a frame as far as chrono reaches".into(), true, || { let f = vec![FrameGroundTruth { timestamp: NaiveDateTime::MAX, objects: vec![] }, FrameGroundTruth { timestamp: NaiveDateTime::MIN, objects: vec![] }]; req!(get_current_frame(&f, &time(0)).is_none(), "a frame was returned"); req!(get_current_frame(&f, &NaiveDateTime::MIN).map(|f| f.timestamp) == Some(NaiveDateTime::MIN), "the exact frame was not found"); Ok(()) });
}
