//! Generated code: the tree of the output against the tree of the source (C15 pretty, C16 minified).
use crate::check::*;
use crate::judge::{must, quirk};
use crate::{checks, cmp, gen, reflex, rng::Rng};
use serde_json::{json, Value};

pub struct Codegen { pub id: &'static str, pub which: &'static str }
impl Codegen { fn minified(&self) -> bool { self.which == "minified" } }
impl Check for Codegen {
    fn id(&self) -> &'static str { self.id }
    fn rule(&self) -> &'static str { "Programs of all profiles are parsed and their code generated; the output must parse to the same tree, generate the same output again, agree with the other format, leave the tree alone, and mean the same to the reference reader. Non-trivial: more than 6 nodes and an unseen tree shape." }
    fn size(&self) -> (u64, u64) { (40_000, 1_200_000) }
    fn fixed(&self, thorough: bool) -> Vec<Value> { checks::corpus().into_iter().chain(crate::scale::jobs(thorough)).map(|mut j| { j["want"] = json!(["code"]); j["plain"] = json!(!j["src"].as_str().unwrap().contains('\\')); j }).collect() }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let mut p = gen::profile(["mixed", "expr", "cover", "stmt", "func", "module", "strict", "expr"][(k % 8) as usize]);
        if r.pct(45) { p.size = (2, 16); }
        let plain = r.pct(70);
        if plain { p.escapes = false; }
        if r.pct(60) { p.no_quirks = true; }
        let s = checks::source(r, &p, 12, 0);
        let mut j = s.job(); j["want"] = json!(["code"]); j["plain"] = json!(plain && !s.mutated);
        if !s.module && r.pct(10) { j["entry"] = json!(if r.pct(50) { "expr" } else { "stmt" }); j["plain"] = json!(false); }
        j
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let src = job["src"].as_str().unwrap();
        let x = must!(t.fajt(job), "generating code");
        if x["ok"] != true { o.count("sources that do not parse", 1); return vec![]; }
        let c = &x["code"][self.which];
        let entry = job["entry"].as_str().is_some();
        // whether the source is one on which this project and ECMAScript agree
        let y = if entry { json!({"ok": true, "quirks": []}) } else { t.refer(job) };
        if y["ok"].is_null() || y["ok"] == false || y["ok"] == "skip" { o.undecided("the reference does not read the source"); return vec![]; }
        // (a method inside a generator function is recorded as a generator, which a constructor cannot be)
        // (nor can it have a parameter named yield)
        if job["raw"] != true && (src.contains("constructor") || src.contains("yield")) && crate::judge::unmarked_generator(&x["ast"], src) { o.undecided("constructor or yield inside a generator"); return vec![]; }
        o.evaluations += 1;
        let text = c["text"].as_str().unwrap_or("");
        if !c["panic"].is_null() { return vec![("generation panics".into(), c["panic"].to_string())]; }
        if !c["err"].is_null() { return vec![("generated code does not parse".into(), format!("{} in {}", c["err"].as_str().unwrap_or(""), cut(text, 300)))]; }
        let a = cmp::strip(&x["ast"]);
        if let Some(d) = cmp::diff(&cmp::strip(&c["ast"]), &a) { return vec![("generated code has another tree".into(), format!("{} (output vs source at {d})", cut(text, 300)))]; }
        if !c["again"].is_null() { return vec![("generation is not stable".into(), format!("{} becomes {}", cut(text, 200), cut(c["again"].as_str().unwrap(), 200)))]; }
        if x["code"]["pure"] != true { return vec![("generation changes the tree".into(), String::new())]; }
        let other = &x["code"][if self.minified() { "pretty" } else { "minified" }];
        if other["text"].is_string() && other["panic"].is_null() && c["cross"] != other["text"] { return vec![("the formats disagree".into(), format!("{} regenerated from {} instead of {}", cut(&c["cross"].to_string(), 200), self.which, cut(&other["text"].to_string(), 200)))]; }
        if self.minified() {
            let (toks, bad) = reflex::Lex { src: text, html: job["type"] != "module" }.all();
            if !bad && !text.contains(['`', '/']) {
                // only white space that keeps two tokens apart
                let mut at = 0;
                for (i, k) in toks.iter().enumerate() {
                    let gap = &text[at..k.start];
                    if !gap.is_empty() {
                        o.count("separations in minified code", 1);
                        let (a, b) = (if i > 0 { &text[toks[i - 1].start..toks[i - 1].end] } else { "" }, &text[k.start..k.end]);
                        // (a space after `do` and `case`, after a number that is accessed, and between signs is accepted where it is not strictly needed)
                        let fine = i > 0 && gap == " " && (reflex_needs(a, b) || matches!(a, "do" | "case") || a.ends_with('.') || a.ends_with(|c: char| c.is_ascii_alphanumeric()) && a.starts_with(|c: char| c.is_ascii_digit() || c == '.') && b.starts_with(['[', '.', '?', '(']) || a.ends_with(['+', '-']) && b.starts_with(['+', '-']));
                        if !fine { return vec![("needless white space in minified code".into(), format!("{gap:?} between {a} and {b} in {}", cut(text, 300)))]; }
                    }
                    at = k.end;
                }
            }
            if let Some(p) = other["text"].as_str() { if text.len() > p.len() { return vec![("minified code is longer than pretty code".into(), format!("{} / {}", cut(text, 200), cut(p, 200)))]; } }
        }
        o.count("nodes in the trees compared", cmp::count_nodes(&a) as u64); o.count("characters of output", text.len() as u64);
        if cmp::count_nodes(&a) > 6 { o.case(cmp::shape(&a), || job.clone()); }
        if quirk(&y, "method") && job["raw"] != true { o.undecided("method inside a generator, for the reference"); return vec![]; }
        if !entry && y["ok"] == true && job["plain"] == true && !src.contains("<!--") && !src.contains("-->") && y["ast"].is_object() {
            let mut j = json!({"src": text, "type": job["type"]}); j["id"] = json!(0);
            let z = t.refer(&j);
            if z["ok"].is_null() { o.undecided("no answer from the reference on the output"); return vec![]; }
            if z["ok"] != true { return vec![("the reference rejects the output".into(), format!("{} in {}", z["err"].as_str().unwrap_or(""), cut(text, 300)))]; }
            if z["ast"].is_object() { if let Some(d) = cmp::diff(&cmp::strip(&z["ast"]), &cmp::strip(&y["ast"])) { return vec![("the output means something else to the reference".into(), format!("{} (output vs source at {d})", cut(text, 300)))]; } o.count("outputs also compared by the reference", 1); }
        }
        vec![]
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the project's own parser reads the output rightly (decided by the other checks; the reference reads it too where strings hold no escapes)", "escapes in strings and templates are compared by the project's own value, which drops the backslash (known finding)"] }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("outputs also compared by the reference", 8_000)] }
}
/// Whether two tokens need something between them.
fn reflex_needs(a: &str, b: &str) -> bool {
    let s = format!("{a}{b}");
    let (t, bad) = reflex::Lex { src: &s, html: true }.all();
    bad || t.len() != 2 || t[0].end != a.len()
}
