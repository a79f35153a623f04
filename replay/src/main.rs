//! Runs the real code of /repo on generated inputs and compares it with an independent oracle.
//! Used to replay a failed obligation, and as a bounded stand-in where a contract cannot reach.
mod gen;
mod maths;
mod nusc;
mod names;
mod objects;
mod scen;
mod scores;

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx { pub rng: gen::Rng, pub evals: u64, pub seen: HashSet<u64>, pub samples: Vec<String>, pub violation: Option<String>, pub rule: String, pub n: u64, pub known: Vec<&'static str>, pub skipped: u64, pub known_input: Option<String> }
thread_local! { pub static WHERE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub type Out = Result<(), String>;
impl Ctx {
    /// One case: `desc` describes the input completely; `nontrivial` by the rule of the property.
    pub fn case(&mut self, desc: String, nontrivial: bool, f: impl FnOnce() -> Out) {
        if self.violation.is_some() { return }
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.seen.insert(h.finish()) && self.samples.len() < 3 { self.samples.push(desc.chars().take(600).collect()) }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.violation = Some(format!("input: {desc}\n{e}")),
            Err(p) => {
                let loc = WHERE.with(|w| w.borrow().clone());
                if self.known.iter().any(|k| loc.contains(k)) { self.skipped += 1; if self.known_input.is_none() { self.known_input = Some(desc) } return }
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.violation = Some(format!("input: {desc}\npanic: {m} ({loc})"));
            }
        }
    }
    pub fn done(&self) -> bool { self.violation.is_some() }
}
#[macro_export]
macro_rules! req { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    if id == "C25one" { return scen::one(&a[2..]) }
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|i| { let l = i.location().map_or(String::new(), |l| l.file().to_string()); WHERE.with(|w| *w.borrow_mut() = l) }));
    let mut c = Ctx { rng: gen::Rng::new(seed), evals: 0, seen: HashSet::new(), samples: vec![], violation: None, rule: String::new(), n: scale, known: vec![], skipped: 0, known_input: None };
    match id.as_str() {
        "C01" => objects::c01(&mut c), "C02" => objects::c02(&mut c), "C03" => objects::c03(&mut c),
        "C04" => objects::matching(&mut c, false), "C05" => objects::matching(&mut c, true), "C06" => objects::c06(&mut c),
        "C07" => scores::c07(&mut c), "C08" => scores::c08(&mut c), "C09" => scores::c09(&mut c), "C10" => scores::c10(&mut c), "C11" => scores::c11(&mut c),
        "C25" => scen::c25(&mut c), "C14" => nusc::c14(&mut c), "C15" => nusc::c15(&mut c), "C16" => nusc::c16(&mut c), "C17" => nusc::c17(&mut c), "C24" => nusc::c24(&mut c), "C12" => maths::c12(&mut c), "C13" => maths::c13(&mut c), "C23" => maths::c23(&mut c),
        "C18" => names::c18(&mut c), "C19" => names::c19(&mut c), "C20" => names::c20(&mut c), "C21" => names::c21(&mut c), "C22" => names::c22(&mut c),
        _ => { println!("{}", serde_json::json!({"error": "unknown property"})); return }
    }
    println!("{}", serde_json::json!({"evaluations": c.evals, "distinct_nontrivial": c.seen.len(), "rule": c.rule, "samples": c.samples, "violation": c.violation, "seed": seed, "scale": scale, "known": c.skipped, "known_input": c.known_input}));
}
