//! Written trees and tokens (C17).
use crate::check::*;
use crate::judge::must;
use crate::{checks, cmp, gen, rng::Rng};
use serde_json::{json, Value};

/// The places of a tree, as pointers.
fn places(v: &Value, at: String, out: &mut Vec<String>) {
    out.push(at.clone());
    match v { Value::Object(m) => for (k, x) in m { places(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out) }, Value::Array(a) => for (i, x) in a.iter().enumerate() { places(x, format!("{at}/{i}"), out) }, _ => {} }
}
const STRINGS: &[&str] = &["", ":", "1", "1:", ":1", "a:b", "-1:2", "1:2:3", "0:99999999999999999999999", "0:18446744073709551615", "5:3", " 1:2", "+1:2", "Script", "null", "é:1", "Assign", "Const", "let", "1.5:2", "x"];
fn spoil(r: &mut Rng, tree: &Value) -> String {
    let mut t = tree.clone();
    for _ in 0..[1, 1, 1, 2, 3][r.below(5)] {
        let mut ps = vec![]; places(&t, String::new(), &mut ps);
        let spans: Vec<&String> = ps.iter().filter(|p| p.ends_with("span")).collect();
        let p = if r.pct(35) && !spans.is_empty() { spans[r.below(spans.len())].clone() } else { ps[r.below(ps.len())].clone() };
        let q = ps[r.below(ps.len())].clone();
        let other = t.pointer(&q).cloned().unwrap_or_default();
        let (parent, key) = p.rsplit_once('/').map(|(a, b)| (a.to_owned(), b.replace("~1", "/").replace("~0", "~"))).unwrap_or_default();
        match r.below(7) {
            0 | 1 => if let Some(x) = t.pointer_mut(&p) { *x = json!(r.pick(STRINGS)); },
            2 => if let Some(x) = t.pointer_mut(&p) { *x = other; },
            3 => if let Some(x) = t.pointer_mut(&p) { *x = match r.below(8) { 0 => Value::Null, 1 => json!(true), 2 => json!(0), 3 => json!(-1.5), 4 => json!([]), 5 => json!({}), 6 => json!([1, 2]), _ => json!({"start": 1, "end": 2}) }; },
            4 => if let Some(x) = t.pointer_mut(&parent) { match x { Value::Object(m) => { m.remove(&key); } Value::Array(a) => { let i = key.parse().unwrap_or(0usize); if i < a.len() { a.remove(i); } } _ => {} } },
            5 => if let Some(Value::Object(m)) = t.pointer_mut(&parent) { if let Some(x) = m.remove(&key) { m.insert(r.pick(&["Expr", "Block", "Ident", "Unknown", "span", "name", "If", "Member", "extra"]).to_string(), x); } },
            _ => if let Some(Value::Object(m)) = t.pointer_mut(&parent) { m.insert("extra".into(), other); },
        }
    }
    let mut s = t.to_string();
    if r.pct(10) { let mut n = r.below(s.len() + 1); while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); }
    s
}
pub struct Written;
impl Check for Written {
    fn id(&self) -> &'static str { "C17" }
    fn rule(&self) -> &'static str { "Trees of programs of all profiles, single statements and expressions, and the tokens and errors of arbitrary sources, are written as JSON and read back in four ways; then the written tree is spoiled at random places and read, which must yield an error or a tree that is written and read back as itself. Non-trivial: an unseen tree shape." }
    fn size(&self) -> (u64, u64) { (60_000, 2_000_000) }
    fn fixed(&self, thorough: bool) -> Vec<Value> { checks::corpus().into_iter().chain(crate::scale::jobs(thorough)).map(|mut j| { j["seed"] = json!(7); j }).collect() }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let name = ["mixed", "expr", "cover", "stmt", "func", "module", "strict", "mixed"][(k % 8) as usize];
        let mut p = gen::profile(name);
        if r.pct(70) { p.size = (2, 20); }
        let s = checks::source(r, &p, 10, 50);
        let mut j = s.job(); j["seed"] = json!(r.next() >> 12);
        if r.pct(15) { j["entry"] = json!(if r.pct(50) { "expr" } else { "stmt" }); }
        j
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let mut j = job.clone(); j["want"] = json!(["serde"]);
        o.evaluations += 1;
        let z = must!(t.fajt(&json!({"entry": "tokens", "src": job["src"]})), "writing tokens");
        o.count("tokens and errors read back", z["n"].as_u64().unwrap_or(0));
        if let Some(p) = z["problems"].as_array().and_then(|a| a.first()) { return vec![("a token or error is not read back as written".into(), p.to_string())]; }
        let x = must!(t.fajt(&j), "writing the tree");
        if x["ok"] != true { o.count("sources that do not parse", 1); return vec![]; }
        if let Some(p) = x["serde"].as_array().and_then(|a| a.first()) { return vec![("the tree is not read back as written".into(), p.to_string())]; }
        o.count("trees read back", 1); o.count("nodes read back", cmp::count_nodes(&x["ast"]) as u64);
        o.case(cmp::shape(&x["ast"]), || job.clone());
        let mut r = Rng::new(job["seed"].as_u64().unwrap_or(1), 5);
        let base = x["ast"].to_string();
        for _ in 0..3 {
            let text = spoil(&mut r, &x["ast"]);
            let y = must!(t.fajt(&json!({"entry": "json", "of": job["entry"], "base": base, "text": text})), "reading a spoiled tree");
            o.count("spoiled trees", 1);
            if y["base"] != true { return vec![("the tree is not read back as written".into(), "from its text".into())]; }
            if y["read"] != true { o.count("spoiled trees refused", 1); continue; }
            o.count("spoiled trees read", 1);
            if y["again"] != true || y["kept"] != true { return vec![("a tree that was read is not read back as written".into(), cut(&text, 300))]; }
            if y["equal"] != y["same"] { return vec![("equal trees are written differently, or different ones alike".into(), cut(&text, 300))]; }
        }
        vec![]
    }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("trees read back", 20_000), ("spoiled trees refused", 10_000), ("spoiled trees read", 5_000)] }
}
