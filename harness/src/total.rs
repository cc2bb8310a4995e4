//! Totality (C01): whatever text comes in by whatever entry, an answer comes out.
use crate::check::*;
use crate::judge::must;
use crate::{checks, gen, matrix, mutate, rng::Rng};
use serde_json::{json, Value};

/// What can be nested: (open, close, re-read when it turns out to be a pattern)
pub const NESTS: &[(&str, &str, bool)] = &[("(", ")", false), ("[", "]", false), ("{", "}", false), ("({a:", "})", false), ("(a=", ")=>1", true), ("(a=", ")", true), ("async(a=", ")=>1", true), ("async(", ")", true), ("[a=", "]=x", true), ("({a=", "}=x)", true), ("({a:[", "]}=x)", true), ("[", "]=x", true), ("`${", "}`", false), ("a?", ":b", false), ("a?b:", "", false), ("f(", ")", false), ("new ", "", false), ("new a(", ")", false), ("!", "", false), ("a=", "", false), ("()=>", "", false), ("()=>{", "}", false), ("function f(){", "}", false), ("function f(a=", "){}", false), ("(function(){", "})", false), ("class A{m(){", "}}", false), ("(class extends ", "{})", false), ("(class{[", "](){}})", false), ("if(a)", "", false), ("if(a){", "}else;", false), ("if(a);else ", "", false), ("for(;;)", "", false), ("for(a in ", ");", false), ("while(1){", "}", false), ("while(", ");", false), ("do ", "\nwhile(1)", false), ("switch(a){case 1:", "}", false), ("switch(", "){}", false), ("l:", "", false), ("try{", "}catch(e){}", false), ("try{}catch(e){", "}", false), ("try{}finally{", "}", false), ("a[", "]", false), ("a?.[", "]", false), ("a?.(", ")", false), ("a.b(", "),c", false), ("x=>", "", false), ("x=>{", "}", false), ("a+(", ")", false), ("a**(", ")", false), ("a??(", ")", false), ("(a,", ")", false), ("[...", "]", false), ("({...", "})", false), ("({[", "]:1})", false), ("({m(){", "}})", false), ("({m(a=", "){}})", false), ("({get a(){", "}})", false), ("({async*m(){yield ", "}})", false), ("typeof ", "", false), ("-a+", "", false), ("a,", "", false), ("with(a)", "", false), ("return ", "", false), ("throw ", "", false), ("async a=>", "", false), ("((a)=>", ")", false), ("t`${", "}`", false), ("import(", ")", false), ("delete ", "", false), ("var a=", "", false), ("let [a=", "]=b", true), ("const {a=", "}=b", true), ("for(const [a] of ", ");", false), ("yield ", "", false), ("await ", "", false), ("'a'+function(){", "}", false), ("'a'\n.b(function(){", "})", false), ("'use strict';(function(){", "})", false), ("'a';f(function(){", "});", false), ("'a'`${function(){", "}}`", false), ("'a'\n`${()=>{", "}}`", false), ("'a'[function(){", "}]", false), ("'a'?function(){", "}:b", false), ("'a',function(){", "}", false), ("'a'in function(){", "}", false), ("'a'instanceof function(){", "}", false), ("'a'?.(function(){", "})", false), ("'a'(function(){", "})", false), ("'a'/function(){", "}", false), ("'a'\n/function(){", "}", false), ("'a'==function(){", "}", false), ("'a';'b'+function(){", "}", false), ("/* ", "", false), ("\"", "\"", false), ("//", "\n", false), ("(", "", false), ("[", "", false), ("{", "", false), ("`${", "", false), (")", "", false), ("]", "", false), ("}", "", false), ("({a", "", false), ("export default ", "", false), ("\\u{6", "1}", false), ("0", "", false), (".", "", false), ("...", "", false), ("=>", "", false), ("/", "", false), ("?.", "", false), ("<!--", "", false), ("\n-->", "", false), ("\\", "", false), ("$", "", false), ("#", "", false), ("@", "", false)];

pub fn nested(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let kinds = r.range(1, 4);
    let pool: Vec<_> = (0..kinds).map(|_| *r.pick(NESTS)).collect();
    let (mut open, mut close) = (String::new(), vec![]);
    let mut covers = 0;
    for _ in 0..n {
        let x = if r.pct(90) { *r.pick(&pool) } else { *r.pick(NESTS) };
        if x.2 { covers += 1; if covers > 7 { continue; } }
        open += x.0; close.push(x.1);
        if r.pct(2) { open.push('\n'); }
    }
    let mut s = open;
    s += *r.pick(&["a", "1", "", "a", "'s'", "`t`", "/r/", "this", "a=>1", "{}", "[]", "function(){}", "变", "😀", ";"]);
    let cut = if r.pct(60) { 0 } else { r.below(close.len() + 1) };
    for c in close.iter().skip(0).rev().take(close.len() - cut) { s += c; if r.pct(1) { s.push(';'); } }
    s
}

const EVERYTHING: &[&str] = &["emit", "trav", "code", "serde", "twice", "entry", "count", "flat"];
pub struct Total;
impl Check for Total {
    fn id(&self) -> &'static str { "C01" }
    fn rule(&self) -> &'static str { "Every prefix of the project's own test sources and of a table of some 1,900 short programs; and texts of eleven kinds (programs from the tables whole and cut short, characters at random, tokens at random, prefixes and suffixes of programs, programs with edits of tokens and characters, programs themselves, nested openings up to depth 90 closed, half closed or not, long runs, non-ASCII text, fragments of literals) go through every entry (program as script and module, statement, expression, token reading, driving the reader by hand) and, where a tree comes out, through traversal, both code generators, serialisation, and the debug form; where an error comes out, through the error printer. 8 MB of stack. A panic, the death of the process, or no answer within 30 s is a violation. Non-trivial: a distinct error (kind and place) or tree shape." }
    fn size(&self) -> (u64, u64) { (160_000, 4_000_000) }
    fn env(&self) -> Vec<(&'static str, &'static str)> { vec![("FAJT_STACK", "8388608")] }
    fn fixed(&self, thorough: bool) -> Vec<Value> {
        let mut v = checks::corpus(); v.extend(crate::scale::jobs(thorough)); v.extend(crate::scale::broken(thorough)); for j in v.iter_mut() { j["want"] = json!(EVERYTHING); if j["src"].as_str().unwrap().len() > 700 { j["want"].as_array_mut().unwrap().retain(|w| w != "trav"); } } // (the recorder of visits writes every node with all that is in it)
        // numbers and escapes of every length
        for n in 1..160usize { for (a, d, b) in [("\\u{", "f", "}"), ("\\u{", "0", "61}"), ("b\\u{1", "0", "}"), ("'\\u{", "f", "}'"), ("`\\u{", "f", "}`"), ("\\u{", "1", ""), ("0x", "f", ""), ("0b", "1", ""), ("0o", "7", ""), ("", "9", ""), ("1e", "9", ""), ("1e-", "9", ""), (".", "9", ""), ("0.", "0", "1"), ("1", "_0", ""), ("/a/", "g", ""), ("/[", "[", "]/"), ("/", "(", "/")] { if n < 70 || n % 10 == 0 { v.push(json!({"src": format!("{a}{}{b}", d.repeat(n)), "type": "script", "want": ["emit"]})); } } }
        // every text that ends too early
        let mut whole: Vec<String> = checks::corpus().iter().filter(|j| j["type"] == "script").map(|j| j["src"].as_str().unwrap().to_owned()).filter(|s| s.chars().count() < 120).collect();
        let simple = matrix::fillers();
        whole.extend(simple.iter().cloned());
        let mut seen = std::collections::HashSet::new();
        for s in &whole { let c: Vec<char> = s.chars().collect(); for n in 0..c.len() { let t: String = c[..n].iter().collect(); if seen.insert(t.clone()) { v.push(json!({"src": t, "type": if seen.len() % 2 == 0 || t.contains("port") { "module" } else { "script" }, "want": ["emit"]})); if t.contains("port") || thorough { v.push(json!({"src": t, "type": "script", "want": ["emit"]})); } } } }
        v
    }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let name = ["mixed", "expr", "cover", "stmt", "func", "module", "strict"][r.below(7)];
        let mut p = gen::profile(name);
        p.size = (2, 30); p.unicode = 25;
        let src = match k % 12 {
            0 => { let n = r.range(0, 40); (0..n).map(|_| mutate::any_char(r)).collect() }
            1 => { let n = r.range(1, 25); let sep = *r.pick(&[" ", "", "\n"]); let mut s = String::new(); for _ in 0..n { s += *r.pick(mutate::SOUP); s += sep; } s }
            2 => { let s = checks::source(r, &p, 10, 20).src; let c: Vec<char> = s.chars().collect(); let n = r.below(c.len() + 1); c[..n].iter().collect() }
            3 => { let s = checks::source(r, &p, 10, 20).src; let c: Vec<char> = s.chars().collect(); let n = r.below(c.len() + 1); c[n..].iter().collect() }
            4 => checks::source(r, &p, 100, 50).src,
            5 => { p.size = (10, 120); checks::source(r, &p, 20, 50).src }
            6 | 7 => nested(r, 90),
            8 => { // any scalar value at all, among ordinary text
                let mut s = String::new();
                for _ in 0..r.range(1, 20) { if r.pct(50) { s += *r.pick(mutate::SOUP); } else if r.pct(30) { s.push(*r.pick(&['\\', '"', '\'', '`', '/', '\n', '\r', '\u{2028}', '\u{2029}', '\u{85}', '\u{b}', '\u{c}', '\0', '\u{feff}', '\u{7f}', '\u{10ffff}', '\u{fffd}', '\u{200c}', '\u{180e}', '\u{3000}'])); } else { loop { if let Some(c) = char::from_u32((r.next() % [0x80, 0x300, 0x3000, 0x110000][r.below(4)]) as u32) { s.push(c); break; } } } }
                s }
            9 | 10 => checks::tabled(r, "", 50, 30, 30).src,
            _ => { // pieces of literals
                let mut s = String::new();
                for _ in 0..r.range(1, 8) { s += *r.pick(&["0x", "0b1", "0o7", "1e", "1e+", ".5", "5.", "1_", "_1", "0_", "1__2", "9e999", "00", "09", "0xg", "1n", "99999999999999999999", "\"a", "'\\", "\\x4", "\\u{", "\\u{110000}", "\\u12", "\\u0061", "\\u{61}b", "`${", "}`", "`\\", "${", "/[/]", "/\\", "/(", "/a/gimsuyz", "[", "]/", "a", " ", "\n", "\"", "'", "`", "/", "*/", "/*", "//", "<!--", "-->", "#!", "变", "é", "😀", "$", ";", "=", "("]); }
                s }
        };
        let src = if k % 12 > 8 && r.pct(40) { let c: Vec<char> = src.chars().collect(); let n = r.below(c.len() + 1); c[..n].iter().collect() } else { src };
        let ty = if r.pct(50) { "module" } else { "script" };
        match r.below(10) {
            0 => json!({"src": src, "type": ty, "entry": "expr", "want": EVERYTHING}),
            1 => json!({"src": src, "type": ty, "entry": "stmt", "want": EVERYTHING}),
            2 => json!({"src": src, "type": ty, "entry": "lex"}),
            3 => { let n = r.range(1, 40); let ops: Vec<Value> = (0..n).map(|_| match r.below(9) { 0..=3 => json!(["c"]), 4 => json!(["p"]), 5 => json!(["u"]), 6 => json!(["w", r.below(12)]), 7 => json!(["r"]), _ => json!(["t"]) }).collect(); json!({"src": src, "type": ty, "entry": "drive", "ops": ops}) }
            4 => json!({"src": src, "type": ty, "entry": "tokens"}),
            _ => json!({"src": src, "type": ty, "want": EVERYTHING}),
        }
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let x = must!(t.fajt(job), job["entry"].as_str().unwrap_or("program"));
        o.evaluations += 1;
        o.count(format!("entry: {}", job["entry"].as_str().unwrap_or("program")), 1);
        o.max("source bytes", job["src"].as_str().map_or(0, |s| s.len() as u64));
        if !x["counts"].is_null() { o.count("tokens read by the parser", x["counts"][0].as_u64().unwrap_or(0)); }
        if !x["emit_panic"].is_null() { return vec![("printing the error panics".into(), x["emit_panic"].to_string())]; }
        for m in ["pretty", "minified"] { if !x["code"][m]["panic"].is_null() { return vec![(format!("generating {m} code panics"), x["code"][m]["panic"].to_string())]; } }
        if x["ok"] == true && x["ast"].is_object() { o.count("trees", 1); o.case(crate::cmp::shape(&x["ast"]), || job.clone()); }
        else if x["ok"] == false { o.count("errors", 1); *o.constructs.entry(format!("error: {}", x["kind"].as_str().unwrap_or("?"))).or_default() += 1; o.case(crate::worker::fnv(&format!("{}{}{}", x["kind"], x["span"], x["err"])), || job.clone()); }
        vec![]
    }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("trees", 10_000), ("errors", 25_000)] }
    fn assumptions(&self) -> Vec<&'static str> { vec!["nesting up to 90 levels within 8 MB of stack, and at most 7 nested patterns that need a second reading: deeper ones overflow the stack or take exponential time (listed limits)"] }
}
