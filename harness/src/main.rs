//! Bounded replay of the properties on the real code: finds failing inputs, replays them.
//! harness run PROP --seed N --shard I/N --secs S --out FILE     (exit 0 held, 1 violated)
//! harness replay FILE                                           (exit 0 held, 1 violated)
mod gram;
mod props;
mod rx;
mod ts;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Run {
    prop: String,
    pub seed: u64,
    shard: (u64, u64),
    fixed_no: u64,
    until: Instant,
    max: u64,
    out: String,
    pub cases: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
}
static STARTED: AtomicU64 = AtomicU64::new(0);
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn decide(prop: &str, case: &Value) -> Result<bool, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(prop, case))) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

impl Run {
    /// a case of the fixed part of the exploration, taken by one of the shards
    pub fn fixed(&mut self, f: impl FnOnce() -> Value) {
        self.fixed_no += 1;
        if self.fixed_no % self.shard.1 == self.shard.0 {
            let c = f();
            self.case(c);
        }
    }
    pub fn more(&self) -> bool {
        Instant::now() < self.until && self.cases < self.max
    }
    pub fn case(&mut self, case: Value) {
        let text = case.to_string();
        std::fs::write(format!("{}.case", self.out), &text).unwrap();
        STARTED.store(now(), Ordering::SeqCst);
        let r = decide(&self.prop, &case);
        STARTED.store(0, Ordering::SeqCst);
        self.cases += 1;
        match r {
            Ok(nontrivial) => {
                if nontrivial {
                    let mut h = DefaultHasher::new();
                    text.hash(&mut h);
                    if self.distinct.insert(h.finish()) && self.samples.len() < 2 {
                        self.samples.push(case);
                    }
                }
            }
            Err(m) => {
                self.report(Some((case, m)));
                std::process::exit(1);
            }
        }
    }
    fn report(&self, v: Option<(Value, String)>) {
        let mut o = json!({"cases": self.cases, "distinct_nontrivial": self.distinct.len(), "samples": self.samples, "hooks": cfg!(feature = "hooks")});
        if let Some((case, m)) = v {
            o["violation"] = json!({"property": self.prop, "case": case, "message": m});
        }
        std::fs::write(&self.out, serde_json::to_string_pretty(&o).unwrap()).unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            match decide(v["property"].as_str().unwrap(), &v["case"]) {
                Ok(_) => {
                    eprintln!("the property holds on this case");
                }
                Err(m) => {
                    eprintln!("violated: {}", m);
                    std::process::exit(1);
                }
            }
        }
        Some("run") => {
            let sh = opt("--shard").unwrap_or("0/1".into());
            let (i, n) = sh.split_once('/').unwrap();
            let shard: (u64, u64) = (i.parse().unwrap(), n.parse().unwrap());
            let seed: u64 = opt("--seed").unwrap_or("1".into()).parse().unwrap();
            let secs: f64 = opt("--secs").unwrap_or("10".into()).parse().unwrap();
            let out = opt("--out").unwrap();
            let prop = a[2].clone();
            let limit = opt("--case-ms").unwrap_or("30000".into()).parse::<u64>().unwrap();
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(200));
                let s = STARTED.load(Ordering::SeqCst);
                if s != 0 && now() > s + limit {
                    std::process::exit(3);
                }
            });
            let mut run = Run {
                prop: prop.clone(),
                seed: seed.wrapping_mul(1000).wrapping_add(shard.0),
                shard,
                fixed_no: 0,
                until: Instant::now() + Duration::from_secs_f64(secs),
                max: opt("--max").unwrap_or("1000000000".into()).parse().unwrap(),
                out,
                cases: 0,
                distinct: HashSet::new(),
                samples: vec![],
            };
            props::generate(&prop, &mut run);
            run.report(None);
        }
        _ => {
            eprintln!("usage: harness run PROP ... | harness replay FILE");
            std::process::exit(2);
        }
    }
}
