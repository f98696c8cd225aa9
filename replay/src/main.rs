//! bounded replay of the properties against the real code
#![allow(clippy::all)]
mod http;
mod rec;
mod rng;
mod sig;
mod xml;
mod auth;
mod fsx;
mod naming;
mod ops;
mod parse;

use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

#[derive(Clone, Debug)]
pub struct Failure { pub key: String, pub what: String, pub detail: String }

pub struct Ctx {
    pub rng: rng::Rng,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub evals: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub deadline: std::time::Instant,
    pub known: Vec<String>,
    seen: BTreeSet<String>,
}
impl Ctx {
    pub fn eval(&mut self, class: &str) {
        self.evals += 1;
        *self.classes.entry(class.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 || (self.evals % 97 == 0 && self.samples.len() < 12) { let s = f(); self.samples.push(s.chars().take(600).collect()); }
    }
    pub fn fail(&mut self, key: &str, what: impl Into<String>, detail: impl Into<String>) {
        // at most three failures per key
        let n = self.failures.iter().filter(|f| f.key == key).count();
        if n < 3 { self.failures.push(Failure { key: key.into(), what: what.into(), detail: detail.into() }); }
        self.seen.insert(key.into());
    }
    pub fn check(&mut self, ok: bool, key: &str, what: &str, detail: impl FnOnce() -> String) {
        if !ok { let d = detail(); self.fail(key, what, d); }
    }
    /// enough distinct failures were found, or time is over
    pub fn done(&self) -> bool { self.failures.iter().filter(|f| !self.known.contains(&f.key)).count() > 8 || std::time::Instant::now() > self.deadline }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
}
static DISTINCT: std::sync::Mutex<Option<std::collections::HashSet<u64>>> = std::sync::Mutex::new(None);
/// counts distinct inputs
pub fn distinct(x: impl std::hash::Hash) {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    DISTINCT.lock().unwrap().get_or_insert_with(Default::default).insert(h.finish());
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let scratch = PathBuf::from(opt("--scratch").expect("--scratch DIR"));
    let budget: u64 = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(120);
    std::panic::set_hook(Box::new(|_| {}));
    let mut ctx = Ctx {
        rng: rng::Rng::new(seed), thorough, scratch, evals: 0, classes: BTreeMap::new(), samples: vec![], failures: vec![],
        deadline: std::time::Instant::now() + std::time::Duration::from_secs(budget), seen: BTreeSet::new(),
        known: opt("--known").map(|k| k.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
    };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rt.block_on(async {
            match id.as_str() {
                "C01" => auth::c01(&mut ctx).await,
                "C02" => auth::c02(&mut ctx).await,
                "C03" => auth::c03(&mut ctx).await,
                "C04" => auth::c04(&mut ctx).await,
                "C17" => auth::c17(&mut ctx).await,
                "C05" => fsx::c05(&mut ctx).await,
                "C06" => fsx::c06(&mut ctx).await,
                "C07" => fsx::c07(&mut ctx).await,
                "C08" => fsx::c08(&mut ctx).await,
                "C09" => fsx::c09(&mut ctx).await,
                "C10" => fsx::c10(&mut ctx).await,
                "C11" => fsx::c11(&mut ctx).await,
                "C12" => ops::c12(&mut ctx).await,
                "C13" => naming::c13(&mut ctx).await,
                "C14" => ops::c14(&mut ctx).await,
                "C15" => parse::c15(&mut ctx).await,
                "C16" => parse::c16(&mut ctx).await,
                "C18" => ops::c18(&mut ctx).await,
                _ => { eprintln!("unknown property {}", id); std::process::exit(3) }
            }
        })
    }));
    if run.is_err() { eprintln!("the harness itself failed"); std::process::exit(3) }
    let mut o = String::from("{");
    o.push_str(&format!("\"property\":{},\"evaluations\":{},", jstr(&id), ctx.evals));
    o.push_str(&format!("\"distinct\":{},", DISTINCT.lock().unwrap().as_ref().map(|x| x.len()).unwrap_or(0)));
    o.push_str("\"classes\":{");
    o.push_str(&ctx.classes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&ctx.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"timed_out\":");
    o.push_str(if std::time::Instant::now() > ctx.deadline { "true" } else { "false" });
    o.push_str(",\"failures\":[");
    o.push_str(&ctx.failures.iter().map(|f| format!("{{\"key\":{},\"what\":{},\"detail\":{}}}", jstr(&f.key), jstr(&f.what), jstr(&f.detail))).collect::<Vec<_>>().join(","));
    o.push_str("]}");
    std::fs::write(opt("--out").expect("--out FILE"), o).unwrap();
    rt.shutdown_timeout(std::time::Duration::from_secs(2));
}
