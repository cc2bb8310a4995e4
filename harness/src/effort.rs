//! How much the parser reads (C19).
use crate::check::*;
use crate::judge::must;
use crate::{checks, gen, matrix, rng::Rng, total::NESTS};
use serde_json::{json, Value};

/// The deepest chain of constructs within the part of each other that is read again once it turns out to
/// be a pattern: parameter lists of arrow functions, and assignment patterns.
fn covers(v: &Value) -> u32 {
    match v {
        Value::Array(a) => a.iter().map(covers).max().unwrap_or(0),
        Value::Object(m) => m.iter().map(|(k, v)| match k.as_str() {
            "ArrowFunction" => { let p = covers(&v["parameters"]); let b = covers(&v["body"]); let again = v["binding_parameter"] != true; (p + again as u32).max(b) }
            "AssignmentPattern" => covers(v) + 1,
            "ForIn" | "ForOf" => (covers(&v["left"]) + 1).max(covers(&v["right"])).max(covers(&v["body"])),
            _ => covers(v),
        }).max().unwrap_or(0),
        _ => 0,
    }
}
pub struct Effort;
impl Check for Effort {
    fn id(&self) -> &'static str { "C19" }
    fn rule(&self) -> &'static str { "A reader that counts is put between the parser and the lexer. (a) Families of nested, repeated and alternating constructs, closed and open, at sizes 4 to 64: the number of tokens read, rewound and re-read must grow in proportion to the size. (b) Random programs of all profiles: tokens read must stay below 10 + 6 times the distinct tokens of the source, doubled for every level of pattern within pattern. Non-trivial: a family whose counts were compared at every size, or a program with an unseen tree shape." }
    fn size(&self) -> (u64, u64) { (40_000, 1_500_000) }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        if k % 8 == 0 {
            // a family: one to three nestings in turn, a filler between them
            let n = r.range(1, 3);
            let mut parts = vec![];
            let mut again = 0;
            for _ in 0..n { let x = *r.pick(NESTS); if x.2 { again += 1; if again > 0 { continue; } } parts.push(json!([x.0, x.1])); }
            let mid = *r.pick(&["a", "a", "a=>1", "(a,b)=>1", "[a]=b", "({a}=b)", "{}", "", "1", "function(){}"]);
            return json!({"family": parts, "mid": mid, "repeat": r.pct(40), "open": r.pct(20), "type": if r.pct(20) { "module" } else { "script" }});
        }
        let name = ["mixed", "expr", "cover", "stmt", "func", "module", "cover"][(k % 7) as usize];
        let mut p = gen::profile(name);
        if r.pct(30) { p.size = (30, 200); }
        let mut j = checks::source(r, &p, 15, 5).job();
        j["want"] = json!(["count"]);
        j
    }
    fn fixed(&self, _: bool) -> Vec<Value> {
        let mut v = vec![];
        for x in NESTS { if x.2 && !(x.1.ends_with(')') || x.0.starts_with("let") || x.0.starts_with("const")) { continue; } for open in [false, true] { for ty in ["script", "module"] { for mid in ["a", "(a,b)=>1", "[a]=b"] { for repeat in [false, true] { v.push(json!({"family": [[x.0, x.1]], "mid": mid, "repeat": repeat, "open": open, "type": ty})); } } } } }
        // contexts of the tables within themselves and within each other
        let own: Vec<(&str, &str)> = matrix::EXPR_CTX.iter().filter(|c| c.1).map(|c| c.0).chain(matrix::STMT_CTX.iter().chain(matrix::WRAP).copied()).filter(|c| c.matches('§').count() == 1 && !["=>", "] =", "} ="].iter().any(|w| c.split('§').nth(1).unwrap().contains(w))).filter_map(|c| c.split_once('§')).collect();
        for c in &own { for ty in ["script", "module"] { for mid in ["a", "[a]=b"] { v.push(json!({"family": [[c.0, c.1]], "mid": mid, "repeat": false, "open": false, "type": ty})); } } }
        let nests: Vec<(&str, &str)> = NESTS.iter().filter(|x| !x.2 && !(x.0.starts_with(['/', '"', '\\', '#', '@']))).map(|x| (x.0, x.1)).collect();
        for a in &nests { for b in &nests { v.push(json!({"family": [[a.0, a.1], [b.0, b.1]], "mid": "a", "repeat": false, "open": false, "type": "script"})); } }
        v
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        if let Some(f) = job["family"].as_array() {
            let mid = job["mid"].as_str().unwrap();
            let mut seen: Vec<(u64, [u64; 3], u64)> = vec![];
            let mut ok = true;
            for n in [4usize, 8, 16, 32, 64] {
                let mut s = String::new();
                if job["repeat"] == true {
                    for _ in 0..n { for x in f { s += x[0].as_str().unwrap(); } s += mid; for x in f.iter().rev() { s += x[1].as_str().unwrap(); } s += ";\n"; }
                } else {
                    let d = n / f.len().max(1).next_power_of_two();
                    for _ in 0..d { for x in f { s += x[0].as_str().unwrap(); } }
                    s += mid;
                    if job["open"] != true { for _ in 0..d { for x in f.iter().rev() { s += x[1].as_str().unwrap(); } } }
                }
                let j = json!({"src": s, "type": job["type"], "want": ["count"]});
                let x = must!(t.fajt(&j), &format!("parsing the family at size {n}"));
                let c = |i: usize| x["counts"][i].as_u64().unwrap_or(0);
                seen.push((s.len() as u64, [c(0), c(1), c(2)], 0));
                o.evaluations += 1; o.count("members of families parsed", 1); o.count("tokens read", c(0)); o.max("tokens read in one source", c(0));
                ok &= x["ok"] == true;
                if n == 64 { *o.constructs.entry(format!("family {}", if x["ok"] == true { "accepted" } else { "rejected" })).or_default() += 1; }
                // proportion: nothing may be read more than a few times per character
                let limit = 8 + 4 * s.len() as u64;
                if c(0) > limit || c(1) > limit || c(2) > limit { return vec![("reads too much".into(), format!("{} tokens read, {} rewinds, {} re-reads for {} bytes", c(0), c(1), c(2), s.len()))]; }
            }
            // growth: doubling the size must not much more than double what is read
            // (of a rejected text, how much is read before the error is a matter of where it is found)
            if ok { o.count("families whose growth was compared", 1); }
            if ok { for w in seen[1..].windows(2) { let (a, b) = (&w[0], &w[1]); let g = (b.0 as f64 / a.0 as f64).max(1.0); for i in 0..3 { if (b.1[i] as f64) > (a.1[i].max(12) as f64) * (g * 1.35 + 0.1) { return vec![("reading grows faster than the source".into(), format!("from {} to {} bytes: {:?} to {:?} (tokens read, rewinds, re-reads)", a.0, b.0, a.1, b.1))]; } } } }
            o.case(crate::worker::fnv(&job.to_string()), || job.clone());
            return vec![];
        }
        let mut j = job.clone(); j["want"] = json!(["count"]);
        let x = must!(t.fajt(&j), "parsing");
        o.count("programs parsed", 1);
        if x["ok"] != true { o.undecided("rejected: no tree to bound the reading by"); return vec![]; }
        let c = |i: usize| x["counts"][i].as_u64().unwrap_or(0);
        let n = c(4);
        let d = covers(&x["ast"]);
        o.evaluations += 1; o.count("tokens in sources", n); o.count("tokens read", c(0)); o.count("rewinds", c(1)); o.count("re-reads", c(2)); o.max("tokens read in one source", c(0));
        *o.constructs.entry(format!("programs with patterns {d} deep")).or_default() += 1;
        o.max("percent read of the tokens in the source, no patterns", if d == 0 && n > 20 { 100 * c(0) / n } else { 0 });
        o.max("percent read of the tokens in the source, one pattern deep", if d == 1 && n > 20 { 100 * c(0) / n } else { 0 });
        o.max("percent read of the tokens in the source, two patterns deep", if d == 2 && n > 20 { 100 * c(0) / n } else { 0 });
        o.case(crate::cmp::shape(&x["ast"]), || job.clone());
        let limit = (10 + n * 6) << d.min(20);
        if c(0) > limit || c(1) > limit || c(2) > limit { return vec![("reads too much".into(), format!("{} tokens read, {} rewinds, {} re-reads for a source of {n} tokens with patterns {d} deep", c(0), c(1), c(2)))]; }
        vec![]
    }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("members of families parsed", 15_000), ("programs parsed", 25_000)] }
    fn assumptions(&self) -> Vec<&'static str> { vec!["patterns nested in the initialisers of patterns are read twice per level (a listed limit)"] }
}
