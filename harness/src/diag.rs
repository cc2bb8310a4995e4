//! Reported errors: where they are and how they are shown (C13).
use crate::check::*;
use crate::judge::must;
use crate::{checks, reflex, gen, mutate, worker::fnv, rng::Rng};
use serde_json::{json, Value};

fn widen(src: &str, s: usize, e: usize) -> (usize, usize) {
    let (mut a, mut b) = (s.min(src.len()), 0);
    while !src.is_char_boundary(a) { a -= 1; }
    b += e.clamp(a, src.len());
    while !src.is_char_boundary(b) { b += 1; }
    (a, b)
}
/// byte offset of a UTF-16 offset
fn byte_at(src: &str, pos: usize) -> usize { let mut n = 0; for (i, c) in src.char_indices() { if n >= pos { return i; } n += c.len_utf16(); } src.len() }

/// Whether the two readers are to stop at the same token. Not where what was read has several readings and
/// the project reports the problem of one of them (for-heads, arrow functions, patterns), nor where the reference
/// notices a misplaced word late or an empty pair of parentheses early.
fn decides(src: &str, slice: &str, s: usize, p: usize) -> bool {
    if src.contains("yield") || src[p..].contains("=>") || src.contains('\\') { return false; }
    if !heads_are_closed(&src[..p]) { return false; }
    if slice == "(" && src[..p].contains('{') && src[..p].contains('=') { return false; }
    if slice == "," && src.contains("import") || slice.starts_with('=') && ["||=", "&&=", "??="].iter().any(|w| src.contains(w)) { return false; }
    if slice == "?." || s < p && src[s..p].contains("...") || src[..p].contains("...") && src[p..].starts_with(['{', '[']) { return false; }
    if ["[", ".", "("].contains(&slice) && src[..s].trim_end().ends_with(['}', ']']) { return false; }
    // what comes before an `=` further on is read as a pattern, too
    if s < p && (src[s..p].contains('=') || src[p..].starts_with('=')) { return false; }
    // `{ a = b }`, which is a pattern or nothing
    let mut last = ["", ""];
    for (a, b) in &reflex_tokens(if src[p..].starts_with('=') { &src[..p + 1] } else { &src[..p] }) { let t = &src[*a..*b]; if t == "=" && last[1].starts_with(|c: char| c.is_alphabetic() || c == '$' || c == '_') && (last[0] == "{" || last[0] == ",") && src[..*a].contains('{') { return false; } last = [last[1], t]; }
    let here = &src[p..];
    if here.starts_with("...") || here.starts_with(')') { return false; }
    if reflex::KEYWORDS.contains(&slice) || slice.starts_with('*') || slice.starts_with('`') { return false; }
    true
}

/// Whether every for-head in the text is closed (the reading of a for-head is decided when it is).
fn heads_are_closed(text: &str) -> bool {
    if text.contains("for") {
        if text.contains('`') { return false; }
        let toks = reflex_tokens(text); let at = |i: usize| toks.get(i).map_or("", |t| &text[t.0..t.1]);
        for i in 0..toks.len() { if at(i) == "for" {
            let mut n = 0; let mut k = i + 1 + (at(i + 1) == "await") as usize;
            loop { match at(k) { "" => return false, "(" | "[" | "{" => n += 1, ")" | "]" | "}" => n -= 1, t if t.ends_with("${") || t.starts_with('/') => return false, _ => {} } k += 1; if n <= 0 { break; } }
        } }
    }
    true
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Place { /** the same start */ Same, /** the range ends right before the reference's place, but for trivia */ Ends, /** the reference's place is inside of the range, or at its end */ Holds,
    /** an empty range in the same number */ Number, /** the start of the number */ Digits, /** one operand, on either side */ Near, /** the operand of `delete` */ Operand, /** the end of the line of the string */ Line, /** the backslash before it */ Slash }

/// How the place of an error lies to the place the reference reports, by what either reports.
/// (Kinds of errors that are missing here depend on how much was read before the problem was noticed.)
const PLACES: &[(&str, &str, Place)] = &[
    ("Lexer error", "Unexpected character", Place::Same),
    ("Syntax error: Forbidden identifier", "Unexpected keyword", Place::Same),
    ("Syntax error: Forbidden identifier", "Cannot use keyword 'await' outside an async function", Place::Same),
    ("Syntax error: Forbidden identifier", "Cannot use 'yield' as identifier inside a generator", Place::Same),
    ("Syntax error: Forbidden identifier", "Cannot use 'await' as identifier inside an async function", Place::Same),
    ("Syntax error: Forbidden identifier", "The only valid meta property for", Place::Same),
    ("Syntax Error: Unexpected identifier", "The only valid meta property for", Place::Same),
    ("Syntax error: Expected '}' in template expression", "Unexpected token", Place::Same),
    ("Syntax error: `import` statement is only", "'import' and 'export' may only appear at the top level", Place::Same),
    ("Syntax error: `export` statement is only", "'import' and 'export' may only appear at the top level", Place::Same),
    ("Syntax error: Cannot use `", "'import' and 'export' may", Place::Same),
    ("Syntax error: Unterminated comment", "Unterminated comment", Place::Same),
    ("Syntax error: Unterminated regular expression literal", "Unexpected token", Place::Same),
    ("Syntax error: Missing catch or finally after try", "Missing catch or finally clause", Place::Same),
    ("Syntax error: `with` statement not allowed", "'with' in strict mode", Place::Same),
    ("Syntax error: Illegal return statement", "'return' outside of function", Place::Same),
    ("Syntax error: `super` keyword not expected here", "'super' keyword outside a method", Place::Same),
    ("Syntax error: `super` property access only", "'super' keyword outside a method", Place::Same),
    ("Syntax error: super() now allowed here", "'super' keyword outside a method", Place::Same),
    ("Syntax error: super() now allowed here", "super() call outside constructor of a subclass", Place::Same),
    ("Syntax error: Invalid tagged template on optional chain", "Optional chaining cannot appear in the tag", Place::Same),
    ("Syntax error: Invalid destructuring assignment target", "Optional chaining cannot appear in left-hand side", Place::Same),
    ("Syntax error: Setter must have exactly one parameter", "setter should have exactly one param", Place::Same),
    ("Syntax error: Getter must not have any", "getter should have no params", Place::Same),
    ("Syntax error: Only name parameters allowed in method", "Illegal 'use strict' directive", Place::Same),
    ("Syntax error: Yield expression is not allowed in formal parameters", "Yield expression cannot be a default value", Place::Same),
    ("Syntax error: Await expression is not allowed in formal parameters", "Await expression cannot be a default value", Place::Same),
    ("Syntax error: Expected number", "Expected number in radix", Place::Same),
    ("Syntax error: Expected statement", "Unexpected token", Place::Same),
    ("Syntax error: Zero prefixed numbers", "Invalid number", Place::Same),
    ("Syntax error: Unexpected `eval` or `arguments`", "Assigning to eval in strict mode", Place::Same),
    ("Syntax error: Unexpected `eval` or `arguments`", "Assigning to arguments in strict mode", Place::Same),
    ("Syntax error: Missing initializer in destructuring", "Complex binding patterns require", Place::Ends),
    ("Syntax error: Illegal newline after throw", "Illegal newline after throw", Place::Ends),
    ("Syntax error: Cannot mix", "Logical expressions and coalesce expressions", Place::Near),
    ("Syntax error: Found duplicate parameter", "Argument name clash", Place::Holds),
    ("Syntax error: Setter function parameter must not be a rest", "Setter cannot use rest params", Place::Holds),
    ("Syntax error: Number cannot", "Numeric separator", Place::Holds),
    ("Syntax error: Zero prefixed numbers", "Identifier directly after number", Place::Digits),
    ("Syntax error: Zero prefixed numbers", "Numeric separator", Place::Digits),
    ("Syntax error: Expected number", "Invalid number", Place::Number),
    ("Syntax error: Delete of an unqualified identifier", "Deleting local variable in strict mode", Place::Operand),
    ("Syntax error: String contained unescaped new line", "Unterminated string constant", Place::Line),
    ("Syntax error: Invalid escape sequence", "Expecting Unicode escape sequence", Place::Slash),
];

impl Place {
    fn holds(self, src: &str, s: usize, e: usize, p: usize) -> bool {
        let free = |t: &str| reflex_tokens(t).is_empty();
        match self {
            Place::Same => s == p,
            Place::Ends => s < e && e <= p && free(&src[e..p]),
            Place::Holds => s < p && p <= e,
            Place::Near => src.matches("??").count() > 1 || Place::Ends.holds(src, s, e, p) || Place::Holds.holds(src, s, e, p),
            Place::Number => s > p && s == e && src[p..s].chars().all(|c| c.is_ascii_alphanumeric() || ".+-_".contains(c)),
            Place::Digits => s < p && src[s..p].chars().all(|c| c.is_ascii_alphanumeric() || "_.+-".contains(c)),
            Place::Operand => s > p && reflex_tokens(&src[p..s]).iter().enumerate().all(|(i, t)| src[p..][t.0..t.1] == *if i == 0 { "delete" } else { "(" }),
            Place::Line => s > p && src[s..].starts_with(['\n', '\r']),
            Place::Slash => s + 1 == p && src[s..].starts_with('\\'),
        }
    }
}

fn reflex_tokens(s: &str) -> Vec<(usize, usize)> { reflex::Lex { src: s, html: true }.all().0.iter().map(|t| (t.start, t.end)).collect() }

pub struct Diagnostics;
impl Check for Diagnostics {
    fn id(&self) -> &'static str { "C13" }
    fn rule(&self) -> &'static str { "Rejected sources of all profiles (token and character edits, with tabs, several lines, non-ASCII characters), each with the error's place, its message and the text emitted for it, compared with a model of that text and with the place the reference reader stops at. Non-trivial: an error text not seen before." }
    fn size(&self) -> (u64, u64) { (150_000, 4_000_000) }
    fn fixed(&self, thorough: bool) -> Vec<Value> { let mut v = checks::corpus(); v.extend(crate::scale::broken(thorough)); v }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let name = ["mixed", "expr", "cover", "stmt", "func", "module", "strict", "stmt"][(k % 8) as usize];
        let mut p = gen::profile(name);
        p.unicode = 20;
        if r.pct(70) { p.size = (2, 24); }
        let mut s = checks::source(r, &p, 92, 30);
        if r.pct(40) { // indent with tabs, and break lines
            let mut t = String::new(); let mut quote = false;
            for c in s.src.chars() { if "\"'`/".contains(c) { quote = true; } t.push(c); if !quote && c == ' ' && r.pct(30) { t.push('\t'); } if c == '\n' && r.pct(50) { t.push('\t'); } }
            s.src = t;
        }
        if r.pct(12) { s.src = mutate::chars(r, &s.src); }
        s.job()
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let src = job["src"].as_str().unwrap();
        let mut j = job.clone(); j["want"] = json!(["emit"]);
        let x = must!(t.fajt(&j), "parsing");
        o.evaluations += 1;
        if x["ok"] == true { o.count("accepted", 1); return vec![]; }
        if !x["emit_panic"].is_null() { return vec![("showing the error panics".into(), x["emit_panic"].to_string())]; }
        let (Some(s), Some(e)) = (x["span"][0].as_u64(), x["span"][1].as_u64()) else { return vec![("an error without a place".into(), x["debug"].to_string())] };
        let (s, e) = (s as usize, e as usize);
        let kind = x["kind"].as_str().unwrap_or("");
        let msg = x["err"].as_str().unwrap_or("");
        let mine = |c: &str, d: String| vec![(c.to_owned(), format!("{kind} {s}:{e} {msg}: {d}"))];
        o.count(format!("errors of kind {kind}"), 1);
        // ---- the place ----
        if s > e || e > src.len() { return mine("the place of the error is outside of the source", format!("length {}", src.len())); }
        if !src.is_char_boundary(s) { return mine("the error starts inside a character", String::new()); }
        if kind != "EndOfStream" && kind != "LexerError" && s == e && !(s == 0) { /* an empty place: something is missing here */ o.count("errors with an empty place", 1); }
        let (a, b) = widen(src, s, e);
        let slice = &src[a..b];
        // ---- the message ----
        if let Some(tok) = msg.strip_prefix("Syntax error: Unexpected token `").and_then(|m| m.strip_suffix('`')) {
            let lit = slice.starts_with(|c: char| "\"'`/.".contains(c) || c.is_ascii_digit());
            let fine = if tok == "literal" && slice != "literal" { lit || slice.is_empty() } else { tok == slice || slice.contains('\\') };
            if !fine { return mine("the message names another token than the one at the place", format!("{slice:?}")); }
            o.count("messages that name the token", 1);
        }
        if let Some(id) = msg.strip_prefix("Syntax error: Forbidden identifier `").or(msg.strip_prefix("Syntax Error: Unexpected identifier `")).and_then(|m| m.strip_suffix('`')) {
            if id != slice && !slice.contains('\\') { return mine("the message names another identifier than the one at the place", format!("{slice:?}")); }
            o.count("messages that name the token", 1);
        }
        if msg == "Syntax error: Rest element must be last element" {
            if !slice.starts_with("...") && !src[..a].rfind("...").is_some_and(|n| reflex_tokens(&src[n + 3..a]).is_empty()) { return mine("the place is not that of a rest element", format!("{slice:?}")); }
            o.count("places that hold a rest element", 1);
        }
        // ---- the emitted text ----
        let text = x["emit"].as_str().unwrap_or("");
        let before = &src[..a];
        let ls = before.rfind('\n').map_or(0, |p| p + 1);
        let le = src[a..].find('\n').map_or(src.len(), |p| p + a);
        let (line, col) = (before.matches('\n').count() + 1, src[ls..a].chars().count() + 1);
        let mut want = format!("{msg}\n");
        if s == 0 && e == 0 { want += " --> file.js\n"; } else { want += &format!(" --> file.js:{line}:{col}\n"); }
        if !text.starts_with(&want) { return mine("wrong headline", format!("{:?} instead of {want:?}", cut(text, 200))); }
        let rest = &text[want.len()..];
        if kind == "EndOfStream" { if !rest.is_empty() { return mine("text after the headline of an unexpected end", cut(rest, 200)); } }
        else {
            let n = line.to_string(); let pad = " ".repeat(n.len() + 1);
            let mut want = format!("{pad}|\n{n} | {}\n{pad}| ", src[ls..le].replace('\t', "    "));
            for c in src[ls..a].chars() { want += if c == '\t' { "    " } else { " " }; }
            for _ in 0..src[a..b.min(le).max(a)].chars().count().max(1) { want.push('^'); }
            let Some(label) = rest.strip_prefix(&want).and_then(|l| l.strip_prefix(' ')).and_then(|l| l.strip_suffix('\n')) else { return mine("wrong excerpt", format!("{:?} instead of {:?}", cut(rest, 300), cut(&want, 300))) };
            if label.starts_with('^') { return mine("wrong excerpt", format!("too many carets: {:?}", cut(rest, 300))); }
            let fine = match kind {
                "ForbiddenIdentifier" => label.ends_with("is not allowed as an identifier in this context") && (slice.contains('\\') || label.starts_with(&format!("`{slice}` "))),
                "UnexpectedToken" => label == "Unexpected token" || label.starts_with(&format!("Unexpected token, found `{slice}`, expected `")) && label.ends_with('`'),
                "ExpectedIdentifier" => label.starts_with("Unexpected token, found `") && label.ends_with(", expected identifier") && (slice.contains('\\') || label.contains(&format!("`{slice}`")) || label.contains("`literal`") || label.contains("``")),
                _ => label.is_empty(),
            };
            if !fine { return mine("wrong label", format!("{label:?} for {slice:?}")); }
            if line > 1 { o.count("excerpts of later lines", 1); }
            if src[ls..a].contains('\t') { o.count("excerpts with tabs before the error", 1); }
            if !src[ls..le].is_ascii() { o.count("excerpts with non-ASCII characters", 1); }
            if slice.contains('\n') { o.count("errors over several lines", 1); }
        }
        o.case(fnv(text), || job.clone());
        // ---- against the reference ----
        let y = t.refer(job);
        if y["ok"] == false {
            o.count("also rejected by the reference", 1);
            if let (Some(p), Some(m)) = (y["pos"].as_u64(), y["err"].as_str()) {
                let p = byte_at(src, p as usize);
                let m = m.split(" (").next().unwrap_or("");
                if kind == "UnexpectedToken" && m == "Unexpected token" && job["raw"] != true && decides(src, slice, s, p) {
                    o.count("places compared with the reference", 1);
                    if s != p { return mine("the error is reported at another place than the reference stops at", format!("{p}: {:?}", cut(&src[p..], 30))); }
                } else if let (Some(r), true) = (PLACES.iter().find(|r| msg.starts_with(r.0) && m.starts_with(r.1)).map(|r| r.2), job["raw"] != true && heads_are_closed(&src[..s.min(p)]) && !(s < p && src[s..p].contains("...")) && !(p < s && src[p..s].contains("=>")) && !(msg.contains("in template") && (src.contains("=>") || src.contains('/')))) {
                    o.count("places compared with the reference by the kind of error", 1);
                    o.count(format!("errors that are placed by {r:?}"), 1);
                    if !r.holds(src, s, b, p) { return mine("the error is reported at another place than the construct it is about", format!("{r:?} {p}: {:?} ({m})", cut(&src[p..], 30))); }
                } else { o.count(format!("place {} the reference's, not decided", if s == p { "same as" } else if s < p { "before" } else { "after" }), 1); }
            }
        }
        vec![]
    }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("places compared with the reference", 15_000), ("messages that name the token", 50_000), ("excerpts of later lines", 30_000), ("excerpts with tabs before the error", 10_000)] }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the reference stops at the first token that no program can have there; readings with several interpretations are left undecided (counted)", "lines are separated by line feeds only, as the emitter documents by its tests"] }
}
