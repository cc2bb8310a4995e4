//! The run of one check: makes jobs, lets the real code and the reference run, has the check's judge
//! look at what was observed, confirms and minimises what it reports, and writes the evidence file.
use crate::{pool::*, rng::Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Viols = Vec<(String, String)>;

/// What a judge may use: the monitored worker and the reference reader.
pub struct Tools { fajt: Proc, second: Option<Proc>, acorn: Option<Proc>, timeout: Duration, env: Vec<(&'static str, &'static str)> }
impl Tools {
    pub fn new(timeout: u64, env: &[(&'static str, &'static str)]) -> Tools { Tools { fajt: Proc::fajt_with(env), second: None, acorn: None, timeout: Duration::from_secs(timeout), env: env.to_vec() } }
    pub fn fajt(&mut self, job: &Value) -> Answer {
        let t0 = Instant::now();
        let a = self.fajt.ask(std::slice::from_ref(job), self.timeout).pop().unwrap();
        if t0.elapsed().as_secs() >= 2 { if let Ok(f) = std::env::var("FAJT_SLOW") { use std::io::Write; let _ = writeln!(std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap(), "{:.1}s {}", t0.elapsed().as_secs_f64(), cut(&job.to_string(), 1500)); } }
        a
    }
    /// The same from another process.
    pub fn fajt2(&mut self, job: &Value) -> Answer { let env = &self.env; self.second.get_or_insert_with(|| Proc::fajt_with(env)).ask(std::slice::from_ref(job), self.timeout).pop().unwrap() }
    pub fn fajts(&mut self, jobs: &[Value]) -> Vec<Answer> { self.fajt.ask(jobs, self.timeout) }
    /// The reference reader's answer; {"ok": null} when it has none.
    pub fn refer(&mut self, job: &Value) -> Value {
        let a = self.acorn.get_or_insert_with(Proc::acorn);
        match a.ask(std::slice::from_ref(job), Duration::from_secs(60)).pop().unwrap() { Answer::Got(v) => v, x => json!({"ok": null, "err": format!("{x:?}")}) }
    }
}
/// What was observed while judging.
#[derive(Default)]
pub struct Obs { pub counts: BTreeMap<String, u64>, pub constructs: BTreeMap<String, u64>, pub shapes: HashSet<u64>, pub evaluations: u64, pub samples: Vec<Value>, pub maxima: BTreeMap<String, u64> }
impl Obs {
    pub fn count(&mut self, k: impl Into<String>, n: u64) { *self.counts.entry(k.into()).or_default() += n; }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.maxima.entry(k.to_owned()).or_default(); *e = (*e).max(n); }
    pub fn undecided(&mut self, why: &str) { self.count(format!("undecided: {why}"), 1); }
    /// A decided, distinct and non-trivial case.
    pub fn case(&mut self, fingerprint: u64, sample: impl FnOnce() -> Value) { if self.shapes.insert(fingerprint) && self.samples.len() < 12 { self.samples.push(sample()); } }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counts { *self.counts.entry(k).or_default() += v; }
        for (k, v) in o.constructs { *self.constructs.entry(k).or_default() += v; }
        for (k, v) in o.maxima { let e = self.maxima.entry(k).or_default(); *e = (*e).max(v); }
        self.evaluations += o.evaluations;
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s); } }
        self.shapes.extend(o.shapes);
    }
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// How cases are made, and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    /// (quick, thorough) number of generated jobs
    fn size(&self) -> (u64, u64);
    /// Jobs that are always run, before the generated ones.
    fn fixed(&self, _thorough: bool) -> Vec<Value> { vec![] }
    fn make(&self, r: &mut Rng, k: u64) -> Value;
    /// Decides about one job; a function of the job and of the code under test only.
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols;
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
    fn env(&self) -> Vec<(&'static str, &'static str)> { vec![] }
    /// A run that observed less than this is an error of the check, not a pass.
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![] }
    fn lanes(&self) -> u64 { 8 }
    /// The enumeration is finite and complete.
    fn exhaustive(&self) -> bool { false }
}

/// Truncated for messages.
pub fn cut(s: &str, n: usize) -> String { if s.chars().count() > n { s.chars().take(n).collect::<String>() + "…" } else { s.to_owned() } }

fn show(job: &Value) -> Value { let mut j = job.clone(); if let Some(s) = j["src"].as_str() { let s = cut(s, 300); j["src"] = json!(s); } if let Some(m) = j.as_object_mut() { m.remove("want"); if let Some(Value::Array(t)) = m.get("toks") { let s: Vec<String> = t.iter().map(|x| x[0].as_str().unwrap_or("").to_owned()).collect(); m.insert("toks".into(), json!(cut(&s.join(" "), 300))); } } j }

// ---- known findings ----
pub struct Finding { pub what: String, pub job: Value }
/// Lines `finding: property=<id> job=<json> what=<text>` of /verif/known-findings.txt
pub fn findings(id: &str) -> Vec<Finding> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    text.lines().filter_map(|l| {
        let rest = l.strip_prefix(&format!("finding: property={id} "))?;
        let rest = rest.strip_prefix("job=")?;
        let mut de = serde_json::Deserializer::from_str(rest).into_iter::<Value>();
        let job = de.next()?.ok()?;
        let what = rest[de.byte_offset()..].trim().strip_prefix("what=").unwrap_or("").to_owned();
        Some(Finding { what, job })
    }).collect()
}

fn shrink_job(c: &dyn Check, job: &Value, class: &str) -> Value {
    let t0 = Instant::now();
    let tools = std::cell::RefCell::new(Tools::new(10, &c.env()));
    let fails = |j: &Value| t0.elapsed() < Duration::from_secs(25) && c.judge(j, &mut tools.borrow_mut(), &mut Obs::default()).iter().any(|v| v.0 == class);
    let mut best = job.clone();
    if let Some(srcs) = job["srcs"].as_array() {
        // a batch: down to one source, and that as a source of its own
        for s in srcs { let mut j = job.clone(); j["srcs"] = json!([s]); if fails(&j) { return j; } }
    }
    if job["whole"] == true {
    } else if let Some(toks) = job["toks"].as_array() {
        let mut cur = toks.clone(); let mut size = (cur.len() / 2).max(1);
        loop {
            let mut progress = false; let mut at = 0;
            while at < cur.len() {
                let cand: Vec<Value> = [&cur[..at], &cur[(at + size).min(cur.len())..]].concat();
                let mut j = best.clone(); j["toks"] = json!(cand);
                if fails(&j) { cur = cand; best = j; progress = true; } else { at += size; }
            }
            if size > 1 { size /= 2 } else if !progress { break }
        }
    } else if let Some(s) = job["src"].as_str() {
        let small = crate::shrink::shrink(s, 4000, &mut |cands| cands.iter().map(|s| { let mut j = job.clone(); j["src"] = json!(s); fails(&j) }).collect());
        let mut j = job.clone(); j["src"] = json!(small);
        if fails(&j) { best = j; }
    }
    best
}

pub fn run(c: &dyn Check, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let id = c.id();
    let thorough = tier == "thorough";
    let n = std::env::var("FAJT_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { c.size().1 } else { c.size().0 });
    // work is limited by count; this is only a safety net
    let cap = Duration::from_secs(if thorough { 760 } else { 240 });
    let fixed = c.fixed(thorough);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let all = Mutex::new(Obs::default());
    let found: Mutex<Vec<(Value, String, String)>> = Mutex::new(vec![]);
    let total = fixed.len() as u64 + n;
    let salt = crate::worker::fnv(id);
    lanes(c.lanes(), |_| {
        let mut t = Tools::new(30, &c.env());
        let mut o = Obs::default();
        while !stop.load(SeqCst) {
            let k = next.fetch_add(1, SeqCst);
            if k >= total { break; }
            if t0.elapsed() > cap { capped.store(true, SeqCst); break; }
            let job = if (k as usize) < fixed.len() { fixed[k as usize].clone() } else { let g = k - fixed.len() as u64; c.make(&mut Rng::new(seed ^ salt, g), g) };
            let v = c.judge(&job, &mut t, &mut o);
            if !v.is_empty() {
                let mut f = found.lock().unwrap();
                for (class, detail) in v { if f.len() < 40 { f.push((job.clone(), class, detail)); } }
                if f.len() >= 8 { stop.store(true, SeqCst); }
            }
        }
        all.lock().unwrap().merge(o);
    });
    let mut obs = all.into_inner().unwrap();
    // ---- known findings: run exactly the listed inputs ----
    let mut known = 0;
    {
        let mut t = Tools::new(30, &c.env());
        for f in findings(id) {
            let mut job = f.job.clone(); job["raw"] = json!(true);
            let v = c.judge(&job, &mut t, &mut Obs::default());
            if v.is_empty() { println!("note: listed finding no longer fails: {}", f.what); } else { known += 1; println!("KNOWN-FINDING: property={id} {}", f.what); }
        }
    }
    // ---- confirm, minimise and report ----
    let mut reported: Vec<String> = vec![];
    let mut doubtful = 0;
    let dir = root().join("evidence/replays");
    let mut by_class: BTreeMap<String, (Value, String)> = BTreeMap::new();
    for (job, class, detail) in found.into_inner().unwrap() {
        let len = |j: &Value| j["src"].as_str().map(|s| s.len()).or(j["toks"].as_array().map(|a| a.len() * 4)).unwrap_or(0);
        match by_class.get(&class) { Some((j, _)) if len(j) <= len(&job) => {} _ => { by_class.insert(class, (job, detail)); } }
    }
    for (i, (class, (job, detail))) in by_class.into_iter().enumerate() {
        if i >= 3 { break; }
        let again = c.judge(&job, &mut Tools::new(60, &c.env()), &mut Obs::default());
        if !again.iter().any(|v| v.0 == class) { doubtful += 1; println!("note: not confirmed on a second run: {class}: {}", cut(&detail, 200)); continue; }
        let small = if class.starts_with("hang") || class.starts_with("died") { job.clone() } else { shrink_job(c, &job, &class) };
        let detail = c.judge(&small, &mut Tools::new(60, &c.env()), &mut Obs::default()).into_iter().find(|v| v.0 == class).map(|v| v.1).unwrap_or(detail);
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{}.json", reported.len()));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "class": class, "detail": detail, "job": small, "original": job, "seed": seed})).unwrap());
        println!("{class}: {}\n  on {}", cut(&detail, 600), cut(&show(&small).to_string(), 700));
        println!("VIOLATION property={id} replay={}", path.display());
        reported.push(class);
    }
    // ---- evidence ----
    let mut problems = vec![];
    if reported.is_empty() { for (k, min) in c.floor() { let got = obs.counts.get(k).copied().unwrap_or(0); if got < min && std::env::var("FAJT_JOBS").is_err() && !capped.load(SeqCst) { problems.push(format!("observed only {got} of \"{k}\", at least {min} expected")); } } }
    if obs.evaluations == 0 { problems.push("nothing was observed".into()); }
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(obs.evaluations));
    cov.insert("distinct_nontrivial".into(), json!(obs.shapes.len()));
    cov.insert("rule".into(), json!(c.rule()));
    cov.insert("samples".into(), json!(obs.samples.drain(..).map(|s| show(&s)).collect::<Vec<_>>()));
    cov.insert("jobs".into(), json!({"fixed": fixed.len(), "generated": next.load(SeqCst).min(total).saturating_sub(fixed.len() as u64), "planned": n, "stopped_by_time": capped.load(SeqCst)}));
    cov.insert("observed".into(), json!(obs.counts));
    if !obs.maxima.is_empty() { cov.insert("largest".into(), json!(obs.maxima)); }
    if !obs.constructs.is_empty() { cov.insert("constructs".into(), json!(obs.constructs)); }
    if known > 0 { cov.insert("known_findings_still_failing".into(), json!(known)); }
    if doubtful > 0 { cov.insert("unconfirmed_alarms".into(), json!(doubtful)); }
    if c.exhaustive() && !capped.load(SeqCst) { cov.insert("exhaustive".into(), json!(true)); }
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": c.assumptions(), "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0, "violations": reported.len()});
    let _ = std::fs::create_dir_all(root().join("evidence"));
    std::fs::write(root().join(format!("evidence/{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    println!("{id} {tier} seed={seed}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s", ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], reported.len(), t0.elapsed().as_secs_f64());
    if !reported.is_empty() { return 1; }
    if !problems.is_empty() { for p in problems { eprintln!("error of the check: {p}"); } return 2; }
    0
}

pub fn replay(c: &dyn Check, job: &Value) -> i32 {
    let v = c.judge(job, &mut Tools::new(60, &c.env()), &mut Obs::default());
    for (class, detail) in &v { println!("{class}: {detail}"); }
    if v.is_empty() { println!("no violation"); 0 } else { 1 }
}
