//! Shared judgements: the outcome of parsing against the reference reader.
use crate::check::*;
use crate::{cmp, pool::*, worker::fnv};
use serde_json::{json, Value};

/// A panic, a death or a hang is a violation whatever is being checked.
pub fn alive(a: Answer, what: &str) -> Result<Value, Viols> {
    match a {
        Answer::Got(v) if v["ok"].is_null() => Err(vec![("panic".into(), format!("{what}: {}", v["panic"]))]),
        Answer::Got(v) => Ok(v),
        Answer::Died(s) => Err(vec![("died".into(), format!("{what}: the process ended: {s}"))]),
        Answer::Hung => Err(vec![("hang".into(), format!("{what}: no answer in time"))]),
    }
}
macro_rules! must { ($e:expr, $w:expr) => { match crate::judge::alive($e, $w) { Ok(v) => v, Err(e) => return e } } }
pub(crate) use must;

fn has_quirk(y: &Value, q: &str) -> bool { y["quirks"].as_array().map_or(false, |a| a.iter().any(|x| x == q)) }
pub fn quirk(y: &Value, q: &str) -> bool { has_quirk(y, q) }

/// Constructs about which the project's own tests (or its documented state) say something else than
/// ECMAScript, so that a source with them does not decide acceptance.
fn odd_words(src: &str) -> Option<&'static str> {
    if src.contains("&&=") || src.contains("||=") || src.contains("??=") { return Some("logical assignment"); }
    if src.contains("<!--") || src.contains("-->") { return Some("html-like comment"); }
    if src.contains("\\u") { return Some("unicode escape"); }
    let mut from = 0;
    while let Some(i) = src[from..].find("/=") {
        let before = src[..from + i].trim_end_matches([' ', '\t']);
        if before.is_empty() || before.ends_with(['\n', '\r', '\u{2028}', '\u{2029}']) || before.ends_with("*/") { return Some("/= at the start of a line"); }
        from += i + 2;
    }
    None
}

/// Parsing against the reference: acceptance and tree. `spans`: positions are compared too.
pub fn tree(job: &Value, t: &mut Tools, o: &mut Obs, spans: bool) -> Viols {
    let src = job["src"].as_str().unwrap_or("");
    let raw = job["raw"] == true;
    let x = must!(t.fajt(job), "parsing");
    let y = t.refer(job);
    o.count("sources parsed", 1);
    if y["ok"].is_null() || y["ok"] == "skip" { o.undecided(if y["ok"].is_null() { "no answer from the reference" } else { "rule not implemented by the project" }); return vec![]; }
    let odd = if raw { None } else { odd_words(src) };
    let accepted = x["ok"] == true;
    let lenient = y["ok"] == "lenient";
    if y["ok"] == false {
        if accepted {
            if !raw && (odd == Some("html-like comment") || y["err"].as_str().map_or(false, |e| e.starts_with("Escape sequence in keyword"))) { o.undecided(odd.unwrap_or("escaped keyword")); return vec![]; }
            if !raw && src.contains("yield") && y["err"].as_str().map_or(false, |e| e.starts_with("Unexpected token")) && unmarked_generator(&x["ast"], src) { o.undecided("method inside a generator"); return vec![]; }
            if !raw && y["err"].as_str().map_or(false, |e| e.starts_with("Cannot use keyword 'await'") || e.starts_with("Cannot use 'await' as identifier")) && src.contains("async") && src.contains("=>") { o.undecided("await in parameters of an async arrow function"); return vec![]; }
            if !raw && rest_of_pattern(src, &y) { o.undecided("pattern as object rest"); return vec![]; }
            return vec![("invalid source accepted".into(), format!("the reference rejects it: {}", y["err"].as_str().unwrap_or("")))];
        }
        o.evaluations += 1; o.count("rejected by both", 1);
        o.case(fnv(&format!("{}|{}", x["err"], src)), || job.clone());
        return vec![];
    }
    if !accepted {
        if lenient { o.undecided("only an early error the project does not promise"); return vec![]; }
        if !raw {
            for q in ["legacyNumber", "literalTarget", "functionBody", "method"] { if has_quirk(&y, q) { o.undecided(q); return vec![]; } }
            if !y["unsupported"].is_null() { o.undecided("syntax newer than the project"); return vec![]; }
            if let Some(w) = odd { o.undecided(w); return vec![]; }
        }
        return vec![("valid source rejected".into(), format!("{} at {}", x["err"].as_str().unwrap_or(""), x["span"]))];
    }
    if !y["ast"].is_object() { o.undecided("no tree from the reference"); return vec![]; }
    if lenient && y["err"].as_str().map_or(false, |e| e.starts_with("Yield expression") || e.starts_with("Await expression")) && !raw { o.undecided("yield or await in parameters"); return vec![]; }
    let (a, b) = if spans { (x["ast"].clone(), y["ast"].clone()) } else { (cmp::strip(&x["ast"]), cmp::strip(&y["ast"])) };
    o.evaluations += 1; o.count("accepted by both", 1); o.count("nodes compared", cmp::count_nodes(&b) as u64);
    cmp::kinds(&b, &mut o.constructs);
    if cmp::count_nodes(&b) > 6 { o.case(cmp::shape(&b), || job.clone()); }
    if spans && cmp::diff(&cmp::strip(&a), &cmp::strip(&b)).is_some() { o.undecided("structure differs (decided by the tree checks)"); return vec![]; }
    match cmp::diff(&a, &b) {
        None => vec![],
        Some(d) => { if !raw && has_quirk(&y, "method") && d.contains("\"Yield\"") { o.undecided("method inside a generator"); return vec![]; } if lenient && !raw && odd.is_some() { return vec![]; } let field = d.split(':').next().unwrap_or("").rsplit('.').next().unwrap_or("").split('[').next().unwrap_or("").to_owned(); vec![(if spans { format!("wrong position ({})", owner(&d)) } else { format!("wrong tree ({field})") }, format!("observed vs expected at {d}"))] }
    }
}
fn owner(d: &str) -> String { let p = d.split(':').next().unwrap_or(""); let mut it = p.rsplit('.'); let last = it.next().unwrap_or(""); let prev = it.next().unwrap_or("").split('[').next().unwrap_or(""); format!("{prev}.{last}") }
/// the reference stopped at `[` or `{` right after `...`
fn rest_of_pattern(src: &str, y: &Value) -> bool {
    let Some(pos) = y["pos"].as_u64() else { return false };
    let mut n = 0; let mut at = src.len();
    for (i, c) in src.char_indices() { if n >= pos as usize { at = i; break; } n += c.len_utf16(); }
    if !src[at..].starts_with(['[', '{']) { return false; }
    let mut b = &src[..at];
    loop {
        let t = b.trim_end_matches(crate::reflex::is_space).trim_end_matches(crate::reflex::is_line_end);
        if t.ends_with("*/") { if let Some(i) = t.rfind("/*") { b = &t[..i]; continue; } }
        if t.len() == b.len() { // a line comment before the position
            let line = b.rfind(crate::reflex::is_line_end).map_or(0, |i| i + 1);
            return b.ends_with("...") || b[line..].contains("//") && b[..line + b[line..].find("//").unwrap()].trim_end().ends_with("...");
        }
        if let Some(i) = t.rfind("//") { if !t[i..].contains(crate::reflex::is_line_end) && t.len() < b.len() && b[t.len()..].contains(crate::reflex::is_line_end) && t[..i].trim_end().ends_with("...") { return true; } }
        b = t;
    }
}
/// a method recorded as a generator that is not written as one (as pinned for those inside of generators)
pub fn unmarked_generator(ast: &Value, src: &str) -> bool {
    match ast {
        Value::Array(a) => a.iter().any(|v| unmarked_generator(v, src)),
        Value::Object(m) => m.iter().any(|(k, v)| k == "Method" && v["generator"] == true && v["span"].as_str().and_then(|s| s.split(':').next()?.parse::<usize>().ok()).map_or(false, |at| {
            let lex = crate::reflex::Lex { src, html: false }; let mut p = at;
            loop { match lex.next(p, false, crate::reflex::Mode::Normal) { crate::reflex::Out::Tok(t) if ["static", "async"].contains(&&src[t.start..t.end]) => p = t.end, crate::reflex::Out::Tok(t) => break &src[t.start..t.end] != "*", _ => break true } }
        }) || unmarked_generator(v, src)),
        _ => false,
    }
}

pub fn job(src: &str, module: bool) -> Value { json!({"src": src, "type": if module { "module" } else { "script" }}) }
