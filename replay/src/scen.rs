//! C25: settings read from scenario files, one process per file (the logger can be set up once per process).
use crate::{req, Ctx, Out};
use perception_eval::config::PerceptionEvaluationConfig;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

/// Child: prints the settings of one scenario.
pub fn one(a: &[String]) {
    match PerceptionEvaluationConfig::from(&a[0], &a[1], a[2] == "true") {
        Err(e) => println!("{}", json!({"err": format!("{e:?}")})),
        Ok(c) => println!("{}", json!({"version": c.version, "path": c.dataset_path, "task": format!("{:?}", c.evaluation_task), "frame": format!("{:?}", c.frame_id),
            "dirs": [c.result_dir, c.log_dir, c.viz_dir], "raw": c.load_raw_data, "filter": format!("{:?}", c.filter_params), "metrics": format!("{:?}", c.metrics_params)})),
    }
}
const PARAMS: [&str; 9] = ["evaluation_task", "frame_id", "target_labels", "max_x_position", "max_y_position", "center_distance_threshold", "plane_distance_threshold", "iou_2d_threshold", "iou_3d_threshold"];
const TASKS: [(&str, &str); 6] = [("detection", "Detection"), ("Detection", "Detection"), ("tracking", "Tracking"), ("Tracking", "Tracking"), ("prediction", "Prediction"), ("Prediction", "Prediction")];
const FRAMES: [(&str, &str); 6] = [("base_link", "BaseLink"), ("BaseLink", "BaseLink"), ("map", "Map"), ("cam_front", "CamFront"), ("CamBackLeft", "CamBackLeft"), ("cam_traffic_light_far", "CamTrafficLightFar")];
const LABELS: [(&str, &str); 7] = [("car", "Car"), ("bicycle", "Bicycle"), ("pedestrian", "Pedestrian"), ("motorbike", "Motorbike"), ("truck", "Truck"), ("bus", "Bus"), ("unknown", "Unknown")];
pub fn scratch(tag: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("perc_replay_{}_{}", tag, std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn field<'a>(s: &'a str, name: &str) -> &'a str {
    let k = format!("{name}: ");
    match s.find(&k) { None => "", Some(i) => { let r = &s[i + k.len()..]; let mut d = 0i32; for (j, ch) in r.char_indices() { match ch { '[' | '(' | '{' => d += 1, ']' | ')' | '}' => { d -= 1; if d < 0 { return r[..j].trim() } } ',' if d == 0 => return r[..j].trim(), _ => {} } } r } }
}
pub fn c25(c: &mut Ctx) {
    c.rule = "a distinct scenario document".into();
    let dir = scratch("c25");
    let exe = std::env::current_exe().unwrap();
    for k in 0..60 * c.n {
        if c.done() { break }
        let r = &mut c.rng;
        let task = TASKS[r.below(6) as usize]; let frame = FRAMES[r.below(6) as usize];
        let nl = r.below(5) as usize;
        let labels: Vec<_> = (0..nl).map(|_| LABELS[r.below(7) as usize]).collect();
        let mut nums = vec![];
        for _ in 0..6 { nums.push(r.below(4000) as f64 / 16.0 + nums.len() as f64 * 300.0) }
        let minp = match r.below(3) { 0 => Value::Null, _ => json!(r.below(50)) };
        let uu = match r.below(3) { 0 => Value::Null, n => json!((0..n - 1).map(|i| format!("u{i}")).collect::<Vec<_>>()) };
        let nd = 1 + r.below(3) as usize;
        let names: Vec<String> = (0..nd).map(|i| ["tests/sample_data", "data", "a.b/c.d", "x"][r.below(4) as usize].to_string() + &i.to_string()).collect();
        let sets: Vec<Value> = names.iter().enumerate().map(|(i, n)| json!({n: {"Version": format!("v{i}"), "VehicleId": format!("id{i}"), "LaunchSensing": i == 0, "LocalMapPath": format!("/map{i}")}})).collect();
        let mut d = json!({"ScenarioFormatVersion": "3.0.0", "ScenarioName": "n", "ScenarioDescription": "d", "SensorModel": "s", "VehicleModel": "v",
            "Evaluation": {"UseCaseName": "perception", "UseCaseFormatVersion": "0.4.0", "Datasets": sets, "Conditions": {"PassRate": 99.0},
            "PerceptionEvaluationConfig": {"evaluation_config_dict": {"evaluation_task": task.0, "frame_id": frame.0, "target_labels": labels.iter().map(|l| l.0).collect::<Vec<_>>(),
                "max_x_position": nums[0], "max_y_position": nums[1], "min_point_number": minp, "target_uuids": uu,
                "center_distance_threshold": nums[2], "plane_distance_threshold": nums[3], "iou_2d_threshold": nums[4], "iou_3d_threshold": nums[5]}}}});
        // every other document is broken in one way
        let mut bad = String::new();
        let raw = r.below(2) == 0;
        if k % 2 == 1 {
            let p = "/Evaluation/PerceptionEvaluationConfig/evaluation_config_dict";
            match r.below(6) {
                0 => { bad = "unknown task".into(); d.pointer_mut(p).unwrap()["evaluation_task"] = json!(["detectio", "DETECTION", "", "perception", "sensing"][r.below(5) as usize]) }
                1 => { bad = "unknown frame".into(); d.pointer_mut(p).unwrap()["frame_id"] = json!(["baselink", "Base_Link", "", "cam"][r.below(4) as usize]) }
                2 => { bad = "no dataset".into(); d["Evaluation"]["Datasets"] = json!([]) }
                3 => { bad = "empty dataset entry".into(); d["Evaluation"]["Datasets"] = json!([{}]) }
                4 => { let n = PARAMS[r.below(9) as usize]; bad = format!("missing {n}"); d.pointer_mut(p).unwrap().as_object_mut().unwrap().remove(n); }
                _ => { let n = ["Datasets", "PerceptionEvaluationConfig"][r.below(2) as usize]; bad = format!("missing {n}"); d["Evaluation"].as_object_mut().unwrap().remove(n); }
            }
        }
        let file = dir.join(format!("s{k}.yaml")); let res = dir.join(format!("r{k}"));
        std::fs::write(&file, d.to_string()).unwrap();
        let desc = format!("scenario {d} load_raw_data {raw} ({})", if bad.is_empty() { "valid" } else { &bad });
        let (exe, nums) = (exe.clone(), nums.clone());
        c.case(desc, true, || -> Out {
            let o = std::process::Command::new(&exe).args(["C25one", file.to_str().unwrap(), res.to_str().unwrap(), if raw { "true" } else { "false" }]).output().map_err(|e| e.to_string())?;
            req!(o.status.success(), "panic: {}", String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>());
            let v: Value = serde_json::from_slice(o.stdout.split(|b| *b == b'\n').filter(|l| !l.is_empty()).last().unwrap_or(&[])).map_err(|e| format!("{e}: {}", String::from_utf8_lossy(&o.stdout)))?;
            if !bad.is_empty() { req!(v.get("err").is_some(), "{bad}: accepted, giving {v}"); return Ok(()) }
            req!(v.get("err").is_none(), "valid scenario rejected: {v}");
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            req!(s("task") == task.1 && s("frame") == frame.1, "task {} frame {}, expected {} {}", s("task"), s("frame"), task.1, frame.1);
            req!(s("version") == "v0" && Path::new(&s("path")) == Path::new(&names[0]), "version {} path {}, expected v0 {}", s("version"), s("path"), names[0]);
            req!(v["raw"] == json!(raw) && v["dirs"] == json!([res, res.join("log"), res.join("visualize")]), "dirs {} raw {}", v["dirs"], v["raw"]);
            let ls = format!("[{}]", labels.iter().map(|l| l.1).collect::<Vec<_>>().join(", "));
            let f = s("filter"); let m = s("metrics");
            for (t, n, x) in [(&f, "target_labels", ls.clone()), (&m, "target_labels", ls.clone()), (&f, "max_x_positions", format!("{:?}", vec![nums[0]; nl])), (&f, "max_y_positions", format!("{:?}", vec![nums[1]; nl])),
                (&f, "min_point_numbers", format!("{:?}", minp.as_u64().map(|p| vec![p; nl]))), (&f, "target_uuids", format!("{:?}", uu.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>()))),
                (&m, "center_distance_thresholds", format!("{:?}", vec![nums[2]; nl])), (&m, "plane_distance_thresholds", format!("{:?}", vec![nums[3]; nl])), (&m, "iou2d_thresholds", format!("{:?}", vec![nums[4]; nl])), (&m, "iou3d_thresholds", format!("{:?}", vec![nums[5]; nl]))] {
                req!(field(t, n) == x, "{n} is {}, expected {x}", field(t, n));
            }
            Ok(())
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
}
