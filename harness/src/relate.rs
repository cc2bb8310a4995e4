//! Relations between runs: other white space and comments (C12), other ways in and other company (C20).
use crate::check::*;
use crate::judge::must;
use crate::{checks, cmp, gen, mutate, rng::Rng};
use serde_json::{json, Value};

/// Writes the tokens with the given line breaks; also where each token is.
fn write(r: &mut Rng, toks: &[gen::Tok], nls: &[bool], module: bool, style: gen::Style) -> (String, Vec<(usize, usize)>) {
    let mut src = String::new(); let mut at = vec![];
    for (i, t) in toks.iter().enumerate() {
        let need = i > 0 && !gen::joinable(&toks[i - 1].s, &t.s);
        let g = if i == 0 && !nls[0] && style != gen::Style::Wild { String::new() } else { gen::gap(r, style, nls[i], need, module, i == 0) };
        let g = if i > 0 && (g.starts_with('/') && toks[i - 1].s.ends_with('/') || g.starts_with('<')) { format!(" {g}") } else { g };
        let g = if g.ends_with('/') && t.s.starts_with(['/', '*']) { format!("{g} ") } else { g };
        src.push_str(&g);
        at.push((src.len(), src.len() + t.s.len()));
        src.push_str(&t.s);
    }
    if r.pct(25) { let nl = r.pct(50); let g = gen::gap(r, style, nl, true, module, false); if toks.last().map_or(false, |t| t.s.ends_with('/')) { src.push(' '); } src.push_str(&g); }
    (src, at)
}
/// A position as token number and offset in it.
fn start_of(at: &[(usize, usize)], p: u64) -> Value {
    let p = p as usize;
    match at.iter().position(|&(s, e)| s <= p && p < e) { Some(i) => json!([i, p - at[i].0]), None => match at.iter().position(|&(s, _)| s > p) { Some(i) => json!(["before", i]), None => json!(["after", at.len()]) } }
}
fn end_of(at: &[(usize, usize)], p: u64) -> Value {
    let p = p as usize;
    match at.iter().position(|&(s, e)| s < p && p <= e) { Some(i) => json!([i, p - at[i].0]), None => match at.iter().position(|&(s, _)| s >= p) { Some(i) => json!(["before", i]), None => json!(["after", at.len()]) } }
}
fn span(at: &[(usize, usize)], s: &Value) -> Value {
    if s.is_null() { return Value::Null; }
    let (a, b) = match s { Value::Array(v) => (v[0].as_u64(), v[1].as_u64()), Value::String(t) => { let mut it = t.split(':').map(|x| x.parse().ok()); (it.next().flatten(), it.next().flatten()) } _ => (None, None) };
    let (Some(a), Some(b)) = (a, b) else { return json!(["?", s]) };
    if a == b { json!([start_of(at, a)]) } else { json!([start_of(at, a), end_of(at, b)]) }
}
fn canon(v: &Value, at: &[(usize, usize)]) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), if k == "span" || k == "arguments_span" { span(at, v) } else { canon(v, at) })).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| canon(x, at)).collect()),
        _ => v.clone(),
    }
}

/// Programs in which a blank can be between every two tokens, and a line break matters at many places.
const GAPPY: &[&str] = &["x = a + b", "a ; b", "function f ( ) { return a }", "throw a", "a ++ b", "a b", "x = a\n++ b", "async ( a ) => b", "async a => b", "async function f ( ) { }", "var async function f", "function * g ( ) { yield a }", "while ( a ) { break b }", "do a ; while ( b ) c", "'use§strict' ; with ( a ) b", "'use§strict' with", "x = { get a ( ) { } , async b ( ) { } }", "class A { static a ( ) { } get b ( ) { } }", "import a from 'b'", "export default a", "let a", "let [ a ] = b", "if ( a ) b else c", "x = a ? b : c", "x = a ?. b", "new a . b ( c )", "a => { }", "/a/ . b", "`a` `b${ c }d`", "for ( a of b ) c", "( a , b ) => c", "x = 1 . a", "..."];
/// What can be between two tokens.
fn trivia(all: bool) -> Vec<String> {
    let spaces: Vec<char> = (0..0x10000u32).filter_map(char::from_u32).filter(|c| crate::reflex::is_space(*c)).collect();
    let ends = ["\n", "\r", "\r\n", "\u{2028}", "\u{2029}"];
    let mut v: Vec<String> = spaces.iter().map(|c| c.to_string()).collect();
    for c in &spaces { v.push(format!(" {c} ")); v.push(format!("\n{c}")); v.push(format!("{c}\n")); v.push(format!("/*{c}*/")); v.push(format!("//{c}\n")); }
    for e in ends { v.push(e.into()); v.push(format!("{e}{e}")); v.push(format!(" {e} ")); for t in ends { v.push(format!("//{e}//x{t}")); v.push(format!("/*{e}*/{t}")); } v.push(format!("// a b{e}")); v.push(format!("//{e}")); v.push(format!("/*{e}*/")); v.push(format!("/* a {e} b */")); v.push(format!("/*/{e}/*/")); v.push(format!("/**/{e}")); v.push(format!("/*a*/ /*{e}*/ /*b*/")); v.push(format!("/*{e}*/ // x{e}/**/")); }
    for c in ["", "*", "/", "**", "//", "/ *", "* /", "\\", "'", "\"", "`", "${", "}", "<!--", "-->", "\0", "é", "变", "😀", "\u{feff}", "\u{200d}", "*/ /*", "*/\u{a0}/*", "x", "use strict", "*//**//*"] { v.push(format!("/*{c}*/")); v.push(format!("/* {c} */")); if !c.contains("*/") { v.push(format!("//{c}\n")); v.push(format!("/*{c}\u{2029}{c}*/")); v.push(format!("/*{c}\n{c}*/")); } }
    if all { for c in (0..0x3100u32).chain((0x3100..0x20000).step_by(97)).filter_map(char::from_u32) { if !ends.contains(&c.to_string().as_str()) { v.push(format!("/*{c}*/")); v.push(format!("//{c}\n")); } } }
    v.sort(); v.dedup(); v
}

pub struct Trivia;
impl Check for Trivia {
    fn id(&self) -> &'static str { "C12" }
    fn rule(&self) -> &'static str { "One token sequence (half of them with token edits, so also invalid ones) is written twice: plainly, and with comments, odd white space and every kind of line break; where the sequence is a generated program also with line breaks at further places where the grammar allows them. Both must have the same tree, or the same error, at the same tokens. Non-trivial: a tree shape or an error not seen before." }
    fn size(&self) -> (u64, u64) { (200_000, 6_000_000) }
    fn fixed(&self, thorough: bool) -> Vec<Value> {
        let (few, many) = (trivia(false), trivia(true)); let mut v = vec![];
        for (k, p) in GAPPY.iter().enumerate() {
            let n = p.split(' ').count();
            for g in 0..=n + 1 { for text in if k == 0 && g == 1 || thorough && g == 1 { &many } else { &few } { v.push(json!({"src": p, "gap": g, "text": text, "type": if p.contains("import") || p.contains("export") { "module" } else { "script" }, "whole": true})); } }
        }
        v
    }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let name = ["mixed", "expr", "cover", "stmt", "func", "module", "strict", "stmt"][(k % 8) as usize];
        let mut p = gen::profile(name);
        if r.pct(50) { p.size = (2, 16); }
        let more = r.pct(25);
        p.sure_asi = more;
        if r.pct(30) { if let Some(toks) = checks::pieces(&crate::matrix::one(r, "")) {
            let toks: Vec<Value> = toks.iter().map(|t| json!([t.s, !t.want_nl, t.want_nl])).collect();
            return json!({"toks": toks, "type": if r.pct(30) { "module" } else { "script" }, "mode": "same", "a": r.next() >> 12, "b": r.next() >> 12, "whole": false});
        } }
        let mut pr = gen::program(r, &p);
        let mode = if more { "more" } else if r.pct(65) { let d = gen::program(r, &p); mutate::tokens(r, &mut pr.toks, &d.toks);
            // (out of place, these would take the white space after them into a regular expression or a template)
            pr.toks.retain(|t| !t.s.starts_with('/') && !t.s.contains('`') && !t.s.ends_with("${")); "same" } else { "same" };
        let toks: Vec<Value> = pr.toks.iter().map(|t| json!([t.s, t.no_nl, t.want_nl])).collect();
        json!({"toks": toks, "type": if pr.module { "module" } else { "script" }, "mode": mode, "a": r.next() >> 12, "b": r.next() >> 12, "whole": mode == "more"})
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        if let Some(text) = job["text"].as_str() {
            // one gap (the last number: all of them) written in another way
            let p: Vec<gen::Tok> = job["src"].as_str().unwrap().split(' ').map(|s| gen::Tok { s: s.replace('§', " "), no_nl: true, want_nl: false }).collect();
            let plain = if text.contains(['\n', '\r', '\u{2028}', '\u{2029}']) { "\n" } else { " " };
            let put = |with: &str| { let (mut s, mut at) = (String::new(), vec![]); for (i, t) in p.iter().enumerate() { let g = job["gap"].as_u64().unwrap() as usize; if g == i || g == p.len() + 1 { s += with } else if i > 0 { s += " " } at.push((s.len(), s.len() + t.s.len())); s += &t.s; } if job["gap"] == json!(p.len()) { s += with; } (s, at) };
            return compare(job, t, o, put(plain), put(text));
        }
        let toks: Vec<gen::Tok> = job["toks"].as_array().unwrap().iter().map(|x| gen::Tok { s: x[0].as_str().unwrap().into(), no_nl: x[1] == true, want_nl: x[2] == true }).collect();
        let module = job["type"] == "module";
        let mut ra = Rng::new(job["a"].as_u64().unwrap(), 0);
        let mut rb = Rng::new(job["b"].as_u64().unwrap(), 1);
        let nls: Vec<bool> = toks.iter().enumerate().map(|(i, t)| if i == 0 { ra.pct(10) } else { !t.no_nl && (t.want_nl || ra.pct(8)) }).collect();
        let more: Vec<bool> = if job["mode"] == "more" { toks.iter().zip(&nls).map(|(t, n)| *n || !t.no_nl && rb.pct(35)).collect() } else { nls.clone() };
        let (sa, ta) = write(&mut ra, &toks, &nls, module, gen::Style::Plain);
        let (sb, tb) = write(&mut rb, &toks, &more, module, gen::Style::Wild);
        compare(job, t, o, (sa, ta), (sb, tb))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the generator knows at which places a line break has a meaning"] }
}

/// Two writings of the same tokens: the same answer, at the same tokens.
fn compare(job: &Value, t: &mut Tools, o: &mut Obs, (sa, ta): (String, Vec<(usize, usize)>), (sb, tb): (String, Vec<(usize, usize)>)) -> Viols {
    let mk = |s: &str| json!({"src": s, "type": job["type"]});
    let x = must!(t.fajt(&mk(&sa)), "parsing");
    let y = must!(t.fajt(&mk(&sb)), "parsing");
    o.evaluations += 1;
    let both = || format!("{} / {}", cut(&format!("{sa:?}"), 250), cut(&format!("{sb:?}"), 350));
    if x["ok"] == false && job["mode"] == "more" { o.count("with more breaks, but rejected", 1); return vec![]; }
    if x["ok"] != y["ok"] { return vec![("white space or comments decide whether it parses".into(), format!("{} vs {}: {}", x["err"], y["err"], both()))]; }
    if x["ok"] == true {
        let (a, b) = (canon(&x["ast"], &ta), canon(&y["ast"], &tb));
        o.count("accepted", 1); o.count("nodes compared", cmp::count_nodes(&a) as u64);
        if let Some(d) = cmp::diff(&a, &b) { return vec![("white space or comments change the tree".into(), format!("at {d}: {}", both()))]; }
        o.case(cmp::shape(&a), || mk(&sb));
    } else {
        o.count("rejected", 1);
        let e = |x: &Value, at| json!([x["err"], x["kind"], if x["kind"] == "EndOfStream" { Value::Null } else { span(at, &x["span"]) }]);
        let (a, b) = (e(&x, &ta), e(&y, &tb));
        if a != b { return vec![("white space or comments change the error".into(), format!("{a} vs {b}: {}", both()))]; }
        o.case(crate::worker::fnv(&a.to_string()), || mk(&sb));
    }
    vec![]
}
/// The tree `off` bytes further on.
fn shift(v: &Value, off: usize) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), match v { Value::String(t) if k == "span" || k == "arguments_span" => { let n: Vec<usize> = t.split(':').filter_map(|x| x.parse().ok()).collect(); if n.len() == 2 { json!(format!("{}:{}", n[0] + off, n[1] + off)) } else { v.clone() } } _ => shift(v, off) })).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| shift(x, off)).collect()),
        _ => v.clone(),
    }
}
fn span_of(v: &Value) -> Option<(usize, usize)> {
    match v { Value::Object(m) => { if let Some(Value::String(t)) = m.get("span") { let n: Vec<usize> = t.split(':').filter_map(|x| x.parse().ok()).collect(); if n.len() == 2 { return Some((n[0], n[1])); } } if m.len() == 1 { span_of(m.values().next().unwrap()) } else { None } } _ => None }
}
fn list(ast: &Value) -> &Value { let p = if ast["Script"].is_object() { &ast["Script"] } else { &ast["Module"] }; p }

pub struct Entries;
impl Check for Entries {
    fn id(&self) -> &'static str { "C20" }
    fn rule(&self) -> &'static str { "Sources of all profiles, half of them with edits, are read twice in one process, again in another process with another history, through every way in, statement by statement and expression by expression, and between other sources; all must agree. Non-trivial: a tree shape or an error not seen before." }
    fn size(&self) -> (u64, u64) { (60_000, 2_000_000) }
    fn fixed(&self, thorough: bool) -> Vec<Value> { checks::corpus().into_iter().chain(crate::scale::jobs(thorough)).collect() }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let name = ["mixed", "expr", "cover", "stmt", "func", "module", "strict", "stmt"][(k % 8) as usize];
        let mut p = gen::profile(name);
        if r.pct(50) { p.size = (2, 20); }
        let s = checks::source(r, &p, 35, 30);
        let mut j = s.job();
        if r.pct(40) { p.module = if s.module { 100 } else { 0 }; p.strict = 0; p.size = (2, 20); j["after"] = json!(checks::source(r, &p, 30, 0).src); }
        j
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let src = job["src"].as_str().unwrap();
        let mut j = json!({"src": src, "type": job["type"], "want": ["twice", "entry", "count"]});
        let x = must!(t.fajt(&j), "parsing");
        o.evaluations += 1;
        if x["same"] != true { return vec![("two readings differ".into(), String::new())]; }
        if x["entries_same"] != true { return vec![("the ways in disagree".into(), String::new())]; }
        if x["trace_same"] != true { return vec![("reading through another reader differs".into(), String::new())]; }
        let mut y = must!(t.fajt2(&j), "parsing in another process");
        y["id"] = x["id"].clone();
        if x != y { return vec![("two processes differ".into(), cmp::diff(&x, &y).unwrap_or_default())]; }
        o.count("read in two processes and by every entry point", 1);
        if x["ok"] != true { o.count("rejected", 1); o.case(crate::worker::fnv(&format!("{}{}", x["err"], x["span"])), || job.clone()); return vec![]; }
        let l = list(&x["ast"]);
        o.count("accepted", 1);
        o.case(cmp::shape(&x["ast"]), || job.clone());
        let none = vec![];
        let body = l["body"].as_array().unwrap_or(&none);
        // is the project a module in the tree exactly when it was read as one?
        if x["ast"]["Module"].is_object() != (job["type"] == "module") { return vec![("wrong kind of program".into(), String::new())]; }
        let strict = job["type"] == "module" || l["directives"].as_array().map_or(false, |d| d.iter().any(|d| d["value"]["value"] == "use strict" || d.to_string().contains("use strict")));
        if !strict {
            for (i, s) in body.iter().enumerate() {
                let Some((a, e)) = span_of(s) else { continue };
                if !src.is_char_boundary(a) { continue; }
                for cutoff in [false, true] {
                    // (the recorded end of what ends in a non-ASCII character lies inside that character: known)
                    if cutoff && !src[a..].is_ascii() { continue; }
                    let text = if cutoff { &src[a..e] } else { &src[a..] };
                    j = json!({"src": text, "type": job["type"], "entry": "stmt"});
                    let z = must!(t.fajt(&j), "parsing a statement");
                    o.count("statements read on their own", 1);
                    if z["ok"] != true { return vec![("a statement does not parse on its own".into(), format!("statement {i}: {} in {}", z["err"], cut(text, 200)))]; }
                    if let Some(d) = cmp::diff(&shift(&z["ast"], a), s) { return vec![("a statement has another tree on its own".into(), format!("statement {i} (alone vs in the program) at {d}: {}", cut(text, 200)))]; }
                }
                if let Some(x) = s["Expr"]["expr"].as_object() {
                    let x = Value::Object(x.clone());
                    if let Some((a, _)) = span_of(&x) { if src.is_char_boundary(a) {
                        let z = must!(t.fajt(&json!({"src": &src[a..], "type": job["type"], "entry": "expr"})), "parsing an expression");
                        o.count("expressions read on their own", 1);
                        if z["ok"] != true { return vec![("an expression does not parse on its own".into(), format!("statement {i}: {}", z["err"]))]; }
                        if let Some(d) = cmp::diff(&shift(&z["ast"], a), &x) { return vec![("an expression has another tree on its own".into(), format!("statement {i} (alone vs in the program) at {d}"))]; }
                    } }
                }
            }
        }
        if let Some(b) = job["after"].as_str() {
            let z = must!(t.fajt(&json!({"src": b, "type": job["type"]})), "parsing");
            if z["ok"] == true && !list(&z["ast"])["directives"].as_array().map_or(true, |d| !d.is_empty()) && (!strict || job["type"] == "module") && !src.trim_end().ends_with("let") {
                let head = format!("{src}\n{{}}\n");
                let w = must!(t.fajt(&json!({"src": format!("{head}{b}"), "type": job["type"]})), "parsing");
                if w["ok"] != true { return vec![("two programs do not parse one after the other".into(), format!("{} : {}", w["err"], cut(b, 200)))]; }
                let mut want = body.clone(); want.push(json!({"Block": {"span": format!("{}:{}", src.len() + 1, src.len() + 3), "statements": []}}));
                for s in list(&z["ast"])["body"].as_array().unwrap() { want.push(shift(s, head.len())); }
                o.count("programs read one after the other", 1);
                if let Some(d) = cmp::diff(&list(&w["ast"])["body"], &Value::Array(want)) { return vec![("a program has another tree after another one".into(), format!("at {d}: {}", cut(b, 200)))]; }
            }
        }
        vec![]
    }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("accepted", 20_000), ("statements read on their own", 20_000), ("programs read one after the other", 3_000)] }
}
