//! Tokens: the lexer against the reference tokenizer, read in order (C02) and read, re-read and rewound (C03).
use crate::check::*;
use crate::judge::must;
use crate::reflex::{self, Lex, Mode, Out, Tok};
use crate::{checks, gen, mutate, rng::Rng, worker::fnv};
use serde_json::{json, Value};

fn html(job: &Value) -> bool { job["type"] != "module" }

pub struct Lexing;
const SPELL: &[&str] = &["a", "abc", "$", "_x", "é", "变量", "a\u{200d}b", "x1", "\\u0061b", "\\u{62}", "0", "1", "42", "1.5", ".5", "5.", "1e3", "1E-2", "0x1F", "0b10", "0O17", "1_000", "\"\"", "\"s\"", "'t\\'u'", "\"\\n\"", "``", "`t`", "`a$b`", "`x${", "`\\``", "undefined", "constructor", "meta", "gets", "asx", "inn", "newTarget", "#", "@", "\\", "\"", "'", "`", "/", "0x", "09", "1__0", "1_", "3in", "1n", "..", "/*", "<!--", "-->"];
const GAPS: &[&str] = &["", " ", "\n", "/**/", "//c\n", "/*\n*/", "\u{2028}", "\u{a0}", "\r\n"];
fn spellings() -> Vec<String> { let mut v: Vec<String> = SPELL.iter().map(|s| s.to_string()).collect(); v.extend(reflex::KEYWORDS.iter().map(|s| s.to_string())); v.extend(reflex::PUNCT.iter().map(|p| p.0.to_string())); v }
fn batches(all: Vec<String>, ty: &str) -> Vec<Value> { all.chunks(1500).map(|c| json!({"entry": "lexmany", "srcs": c, "type": ty})).collect() }
fn enumerate(alphabet: &[char], len: usize, keep: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut all = vec![]; let mut cur = vec![String::new()];
    for _ in 0..len { cur = cur.iter().flat_map(|s| alphabet.iter().map(move |c| format!("{s}{c}"))).filter(|s| keep(s)).collect(); all.extend(cur.iter().cloned()); }
    all
}

impl Check for Lexing {
    fn id(&self) -> &'static str { "C02" }
    fn rule(&self) -> &'static str { "Enumerated: every Unicode code point alone and inside a word, every pair of token spellings with every kind of gap, every string over the number alphabet and over a string/template/comment alphabet up to a length, every string of one and two ASCII characters; generated: programs, token soup and character soup. Every token (kind, value, line-start flag, span), the end and the error are compared with the reference tokenizer; non-trivial: a source not seen before with at least one token or an error." }
    fn size(&self) -> (u64, u64) { (120_000, 3_000_000) }
    fn fixed(&self, thorough: bool) -> Vec<Value> {
        let mut v: Vec<Value> = checks::corpus().into_iter().chain(crate::scale::jobs(thorough)).chain(crate::scale::broken(thorough)).map(|mut j| { j["entry"] = json!("lex"); j }).collect();
        let chars: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).filter(|c| thorough || (*c as u32) < 0x32000 || (*c as u32) % 97 == 0 || (*c as u32) > 0xe0000 && (*c as u32) < 0xe0200).collect();
        v.extend(batches(chars.iter().map(|c| c.to_string()).collect(), "script"));
        v.extend(batches(chars.iter().map(|c| format!("a{c}b=1")).collect(), "script"));
        if thorough { v.extend(batches(chars.iter().map(|c| format!("'{c}'\"\\{c}\"`{c}`//{c}x\n/*{c}*/y")).collect(), "script")); }
        else { v.extend(batches(chars.iter().filter(|c| (**c as u32) < 0x3000 || (**c as u32) % 16 == 0).map(|c| format!("'{c}'\"\\{c}\"`{c}`//{c}x\n/*{c}*/y")).collect(), "script")); }
        let sp = spellings();
        let mut pairs = vec![];
        for a in &sp { for b in &sp { for g in GAPS { pairs.push(format!("{a}{g}{b}")); } } }
        v.extend(batches(pairs, "script"));
        let mut html = vec![];
        for a in ["a", "1", "\n", "", ";", "/**/", "/*\n*/", "}", ")", "'s'"] { for c in ["<!--", "-->", "<!-", "--", "<!--x-->", "<!", "-- >"] { for b in ["", "a", "\na", " 1\n-->b\nc", "\u{2028}a"] { html.push(format!("{a}{c}{b}")); html.push(format!("{a} {c}{b}")); html.push(format!("{a}\n{c}{b}")); } } }
        v.extend(batches(html.clone(), "script")); v.extend(batches(html, "module"));
        let numeric = ['0', '1', '9', '_', '.', 'e', 'E', '+', '-', 'x', 'b', 'o', 'a', 'n', '7'];
        v.extend(batches(enumerate(&numeric, if thorough { 6 } else { 5 }, &|s| s.starts_with(|c: char| c.is_ascii_digit() || c == '.') && (s.len() < 2 || !s.starts_with("..")) && (s.len() < 5 || !s.contains(['9', '7', 'E', 'a']) )), "script"));
        let quoting = ['\'', '"', '`', '\\', '$', '{', '}', '/', '*', '\n', 'n', 'é'];
        v.extend(batches(enumerate(&quoting, if thorough { 6 } else { 4 }, &|_| true), "script"));
        let ascii: Vec<char> = (0..128u8).map(|c| c as char).collect();
        v.extend(batches(enumerate(&ascii, 2, &|_| true), "module"));
        if thorough { let some: Vec<char> = (32..127u8).map(|c| c as char).chain(['\n', '\t']).collect(); v.extend(batches(enumerate(&some, 3, &|_| true), "script")); }
        let esc = ['u', '{', '}', '0', '6', '1', 'a', 'g', '\\'];
        v.extend(batches(enumerate(&esc, if thorough { 7 } else { 6 }, &|s| s.starts_with('u') && (s.len() < 5 || !s[1..].contains(['u', 'g']))).into_iter().flat_map(|s| [format!("\\{s}"), format!("b\\{s} c")]).collect(), "script"));
        // literals and escapes of every length
        let mut long = vec![];
        for n in 1..48usize { for (a, d) in [("", "0"), ("", "1"), ("1", "0"), ("", "f"), ("6", "0"), ("", "6"), ("10", "0"), ("8000", "0"), ("ffffffff", "0")] { for e in ["", "1", "61", "061", "10ffff", "110000"] { let h = format!("{a}{}{e}", d.repeat(n)); long.push(format!("\\u{{{h}}}")); long.push(format!("b\\u{{{h}}}c")); long.push(format!("'\\u{{{h}}}'")); long.push(format!("`\\u{{{h}}}`")); } } }
        for n in 1..400usize { for (a, d, b) in [("0x", "f", ""), ("0x", "0", "1"), ("0b", "1", ""), ("0b1", "0", "1"), ("0o", "7", ""), ("", "9", ""), ("1", "0", "1"), (".", "0", "1"), ("1.", "9", ""), ("1e", "0", "1"), ("1", "_1", ""), ("0x1", "_f", ""), ("", "1", "e5"), ("0.", "0", "1e10")] { if n < 40 || n % 7 == 0 { long.push(format!("{a}{}{b}", d.repeat(n))); } } }
        v.extend(batches(long, "script"));
        // regular expressions and template continuations
        let with = |srcs: Vec<String>, ty: &str, modes: &str| -> Vec<Value> { batches(srcs, ty).into_iter().map(|mut j| { j["modes"] = json!(modes); j }).collect() };
        let regex = ['/', '[', ']', '\\', 'a', '\n', '*', '=', 'é'];
        let bodies: Vec<String> = enumerate(&regex, if thorough { 7 } else { 6 }, &|s| s.len() < 6 || !s.contains(['é', '\n', '*']) && !s.starts_with('=')).into_iter().map(|s| format!("/{s}")).collect();
        v.extend(with(bodies, "script", "rn"));
        let mut tails = vec![];
        for b in ["/a/", "/[/]/", "/\\//", "/[\\]/]/", "/(?:)/", "/=/", "/变/", "/a"] { for t in ["", "g", "gi", "\\u0067", "é", "1", "$", "变", " g", ";", "/", "//c\n", "/*c*/", "[", ".a", "\n", "\u{2028}", "=", "\u{200d}", "#", "`", "'"] { for a in ["", " ", "\n", "/*c*/", "//\n", "\u{2029}", "<!--\n", "-->\n"] { tails.push(format!("{a}{b}{t}")); } } }
        v.extend(with(tails.clone(), "script", "rn")); v.extend(with(tails, "module", "rr"));
        let chunk = ['}', '`', '$', '{', '\\', 'a', '\n', 'é', '/', '\r'];
        v.extend(with(enumerate(&chunk, if thorough { 6 } else { 5 }, &|s| s.starts_with('}') || s.len() < 2).into_iter().collect(), "script", "tn"));
        v.extend(with(enumerate(&['}', '`', '$', '{', '\\', 'a'], if thorough { 8 } else { 6 }, &|s| s.starts_with('}')), "script", "t"));
        v.extend(with(chars.iter().filter(|c| thorough || (**c as u32) < 0x3000 || (**c as u32) % 64 == 0).map(|c| format!("/{c}\\{c}[{c}]/{c}")).collect(), "script", "rn"));
        v.extend(with(chars.iter().filter(|c| thorough || (**c as u32) < 0x3000 || (**c as u32) % 64 == 0).map(|c| format!("}}{c}\\{c}`{c}")).collect(), "script", "tn"));
        v
    }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let ty = if r.pct(25) { "module" } else { "script" };
        let src = match k % 4 {
            0 => { let p = gen::profile(*r.pick(&["mixed", "expr", "stmt", "module"])); let s = checks::source(r, &p, 20, 50); return json!({"entry": "lex", "src": s.src, "type": if s.module { "module" } else { "script" }}); }
            1 => { let sp = spellings(); let n = r.range(1, 12); (0..n).map(|_| { let a: &str = if r.pct(30) { "" } else { r.pick(GAPS) }; format!("{a}{}", r.pick(&sp)) }).collect::<String>() }
            2 => { let n = r.range(1, 24); (0..n).map(|_| mutate::any_char(r)).collect::<String>() }
            _ => { // few characters, close to each other
                let set: &[char] = *r.pick(&[&['/', '*', '\n', 'a', ' ', '-', '>', '<', '!'][..], &['\'', '\\', '\n', '\r', 'a', '\u{2028}', '"'][..], &['`', '$', '{', '}', '\\', 'x', '\n'][..], &['0', '1', '_', '.', 'e', '-', 'x', 'f', 'b', 'o', '8'][..], &['\\', 'u', '{', '}', '0', '6', '1', 'a', '变'][..], &['+', '-', '=', '>', '<', '!', '?', '.', '&', '|', '*', '0'][..]]);
                let n = r.range(1, 14); (0..n).map(|_| *r.pick(set)).collect::<String>() }
        };
        if r.pct(15) { let n = r.range(1, 6); let modes: String = (0..n).map(|_| *r.pick(&['n', 'n', 'r', 't'])).collect(); let src = if modes.starts_with('t') { format!("}}{src}") } else if modes.starts_with('r') { format!("/{src}") } else { src }; return json!({"entry": "lex", "src": src, "type": ty, "modes": modes}); }
        json!({"entry": "lex", "src": src, "type": ty})
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let x = must!(t.fajt(job), "reading tokens");
        let html = html(job); let modes = job["modes"].as_str().unwrap_or("");
        if let Some(srcs) = job["srcs"].as_array() {
            let mut v = vec![];
            for (s, a) in srcs.iter().zip(x["all"].as_array().unwrap()) { v.extend(one(s.as_str().unwrap(), html, modes, a, o)); if v.len() > 3 { break; } }
            return v;
        }
        one(job["src"].as_str().unwrap(), html, modes, &x, o)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the reference tokenizer (written from the specification, on the unicode-id tables) is right", "token values drop the escaping backslash, numbers with a leading zero are errors, and a token whose last character is not ASCII ends as the project's tests pin"] }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("tokens compared", 500_000), ("errors expected and seen", 5_000)] }
}
fn read_modes(lex: &Lex, modes: &str) -> (Vec<Tok>, bool) {
    let m = modes.as_bytes();
    let (mut v, mut p, mut fol) = (vec![], 0, true);
    loop {
        let mode = match m.get(v.len()).or(m.last()) { Some(b'r') => Mode::Regex, Some(b't') => Mode::Template, _ => Mode::Normal };
        match lex.next(p, fol, mode) { Out::Tok(t) => { p = t.end; fol = false; v.push(t); } Out::End => return (v, false), Out::Err => return (v, true) }
    }
}
fn one(src: &str, html: bool, modes: &str, x: &Value, o: &mut Obs) -> Viols {
    o.evaluations += 1;
    let (toks, bad) = if modes.is_empty() { Lex { src, html }.all() } else { read_modes(&Lex { src, html }, modes) };
    let got = x["toks"].as_array().unwrap();
    let quote = || format!("{src:?}");
    for (i, t) in toks.iter().enumerate() {
        let e = t.json();
        match got.get(i) {
            None => return vec![(format!("token missing"), format!("{}: token {i} should be {e}, reading stopped with {}", quote(), x["err"]))],
            Some(g) if *g != e => { let f = ["value", "first_on_line", "span"].iter().find(|k| g[**k] != e[**k]).unwrap(); return vec![(format!("wrong token ({f})"), format!("{}: token {i} is {g}, expected {e}", quote()))]; }
            _ => {}
        }
    }
    if got.len() > toks.len() { return vec![("extra token".into(), format!("{}: {} after the expected end", quote(), got[toks.len()]))]; }
    if bad != !x["err"].is_null() { return vec![(if bad { "error missed".into() } else { "unexpected error".into() }, format!("{}: {} after {} tokens", quote(), x["err"], toks.len()))]; }
    if x["all_ok"] != true { return vec![("reading all at once differs".into(), quote())]; }
    o.count("tokens compared", toks.len() as u64); if bad { o.count("errors expected and seen", 1); }
    for t in &toks { let k = t.value.as_object().unwrap().keys().next().unwrap().clone(); *o.constructs.entry(k).or_default() += 1; }
    if !toks.is_empty() || bad { o.case(fnv(src), || json!({"src": src, "tokens": toks.len(), "error": bad})); }
    vec![]
}

// ---- histories ----
#[derive(Clone)]
enum St { At(usize, bool), Unknown }
struct Model<'a> { lex: Lex<'a>, st: St }
#[derive(Clone, Debug)]
enum Seen { Known(Out), Unknown }
impl<'a> Model<'a> {
    fn read(&mut self, mode: Mode) -> Seen {
        let St::At(p, fol) = self.st else { return Seen::Unknown };
        let r = self.lex.next(p, fol, mode);
        match &r { Out::Tok(t) => self.st = St::At(t.end, false), Out::End => self.st = St::At(self.lex.src.len(), fol), Out::Err => self.st = St::Unknown }
        Seen::Known(r)
    }
    fn rewind(&mut self, tok: &Value) { self.st = St::At(start_of(tok), tok["first_on_line"] == true); }
}
fn start_of(tok: &Value) -> usize { tok["span"].as_str().unwrap().split(':').next().unwrap().parse().unwrap() }
/// None: as expected
fn mismatch(e: &Seen, got: &Value) -> Option<String> {
    let is_end = got["err"].as_str().map(|s| s.contains("kind: EndOfStream"));
    match e {
        Seen::Unknown => None,
        Seen::Known(Out::Tok(t)) => if *got == t.json() { None } else { Some(format!("got {got}, expected {}", t.json())) },
        Seen::Known(Out::End) => if is_end == Some(true) { None } else { Some(format!("got {got}, expected the end of the source")) },
        Seen::Known(Out::Err) => if is_end == Some(false) { None } else { Some(format!("got {got}, expected an error")) },
    }
}

/// An html-like comment (an error in a module) somewhere among the tokens.
fn html_comment(r: &mut Rng, src: &str) -> String {
    let (t, _) = Lex { src, html: false }.all();
    let at = if t.is_empty() { 0 } else { t[r.below(t.len())].start };
    format!("{}{}{}", &src[..at], r.pick(&["<!-- x\n", "\n--> x\n", "/*\n*/--> x\n", " <!--"]), &src[at..])
}
pub struct Histories;
impl Check for Histories {
    fn id(&self) -> &'static str { "C03" }
    fn rule(&self) -> &'static str { "Every call the parser makes to the token source while it parses (read, rewind, re-read as regular expression or template) is recorded and compared with a stateless reference tokenizer; and a reader is driven with random sequences of consume, peek, rewind and re-read. Non-trivial: a history with at least one rewind or re-read whose sequence of operations and tokens was not seen before." }
    fn size(&self) -> (u64, u64) { (60_000, 2_000_000) }
    fn fixed(&self, thorough: bool) -> Vec<Value> { checks::corpus().into_iter().chain(crate::scale::jobs(thorough)).map(|mut j| { j["want"] = json!(["trace"]); j }).collect() }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        if k % 2 == 0 {
            let mut p = gen::profile(*r.pick(&["cover", "cover", "expr", "mixed", "stmt"]));
            if r.pct(50) { p.size = (2, 20); }
            p.expr[gen::E_TEMPLATE] *= 3; p.expr[gen::E_REGEX] *= 3;
            let s = checks::source(r, &p, 25, 30);
            let mut j = s.job(); if r.pct(25) { j["src"] = json!(html_comment(r, &s.src)); }
            j["want"] = json!(["trace"]); return j;
        }
        let mut p = gen::profile("expr"); p.size = (1, 14); p.expr[gen::E_TEMPLATE] *= 5; p.expr[gen::E_REGEX] *= 5;
        let s = checks::source(r, &p, 40, 40);
        let n = r.range(3, 40); let mut done = 0; let mut ops = vec![];
        for _ in 0..n {
            match r.weighted(&[40, 10, 10, 8, 14, 12, 12]) {
                0 => { ops.push(json!(["c"])); done += 1; }
                1 => ops.push(json!(["p"])), 2 => ops.push(json!(["u"])), 3 => ops.push(json!(["o"])),
                4 if done > 0 => ops.push(json!(["w", if r.pct(60) { (done - 1usize).saturating_sub(r.below(4)) } else { r.below(done) }])),
                5 => { ops.push(json!(["r"])); } 6 => { ops.push(json!(["t"])); }
                _ => {}
            }
        }
        let src = if r.pct(25) { html_comment(r, &s.src) } else { s.src };
        json!({"entry": "drive", "src": src, "type": if s.module { "module" } else { "script" }, "ops": ops})
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let src = job["src"].as_str().unwrap();
        let x = must!(t.fajt(job), "reading");
        o.evaluations += 1;
        let mut m = Model { lex: Lex { src, html: html(job) }, st: St::At(0, true) };
        if job["entry"] == "drive" { return drive(job, &x, m, o); }
        let (mut rewinds, mut reads, mut rereads) = (0, 0, 0);
        let mut key = String::new();
        let mut given = std::collections::HashSet::new();
        for (i, e) in x["events"].as_array().unwrap().iter().enumerate() {
            let kind = e[0].as_str().unwrap();
            if kind == "rewind" {
                rewinds += 1; key.push('w'); key.push_str(e[1]["span"].as_str().unwrap());
                if !given.contains(&e[1].to_string()) { return vec![("rewind to a token that was never read".into(), format!("event {i}: {}", e[1]))]; }
                m.rewind(&e[1]); continue;
            }
            let got = if e[1]["err"].is_null() { &e[1]["tok"] } else { &e[1] };
            let mode = if kind == "reread" { rereads += 1; key.push('r'); match m.st { St::At(p, _) if src[p..].starts_with('/') => Mode::Regex, St::At(p, _) if src[p..].starts_with('}') && got["value"]["Punctuator"] != "BracketClose" => Mode::Template, _ if !got["err"].is_null() => Mode::Template, _ => Mode::Normal } } else { reads += 1; key.push('n'); Mode::Normal };
            if let St::Unknown = m.st { o.count("reads after an error (not judged)", 1); }
            let exp = m.read(mode);
            if let Some(d) = mismatch(&exp, got) { return vec![(format!("read depends on history ({kind})"), format!("event {i} of the parse: {d}"))]; }
            if got["err"].is_null() { given.insert(got.to_string()); if e[1]["end"].to_string() != got["span"].as_str().unwrap().split(':').nth(1).unwrap() { return vec![("reported end differs from the token's".into(), e[1].to_string())]; } key.push_str(got["span"].as_str().unwrap()); }
        }
        if x["trace_same"] != true { return vec![("parsing through the recorder gave another result".into(), String::new())]; }
        o.count("tokens read", reads); o.count("rewinds", rewinds); o.count("re-reads in another mode", rereads);
        if rewinds + rereads > 0 { o.case(fnv(&key), || json!({"src": src, "reads": reads, "rewinds": rewinds, "rereads": rereads})); }
        vec![]
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the reference tokenizer is right", "what a reader returns after an error and before the next rewind is not specified"] }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("rewinds", 10_000), ("re-reads in another mode", 3_000)] }
}
fn drive(job: &Value, x: &Value, mut m: Model, o: &mut Obs) -> Viols {
    let mut cur = m.read(Mode::Normal); let mut next = m.read(Mode::Normal);
    // (as the reader is specified: at most two items ahead, so an error hides what follows)
    let mut consumed: Vec<Value> = vec![];
    let mut position: Option<usize> = Some(0);
    let mut jumps = 0;
    for (i, (op, got)) in job["ops"].as_array().unwrap().iter().zip(x["log"].as_array().unwrap()).enumerate() {
        let bad = |what: &str, d: String| vec![(format!("reader: {what}"), format!("operation {i} {op}: {d}"))];
        match op[0].as_str().unwrap() {
            "c" => {
                if let Some(d) = mismatch(&cur, got) { return bad("consume", d); }
                match &cur { Seen::Known(Out::Tok(t)) => position = Some(t.shown_end), Seen::Unknown => if got["err"].is_null() { position = got["span"].as_str().unwrap().split(':').nth(1).unwrap().parse().ok(); }, _ => {} }
                if got["err"].is_null() { consumed.push(got.clone()); }
                cur = std::mem::replace(&mut next, Seen::Unknown); next = m.read(Mode::Normal);
            }
            "p" => if let Some(d) = mismatch(&next, got) { return bad("peek", d); },
            "u" => if let Some(d) = mismatch(&cur, got) { return bad("current", d); },
            "o" => if let Some(p) = position { if got.as_u64() != Some(p as u64) { return bad("position", format!("got {got}, expected {p}")); } },
            "w" => { let k = op[1].as_u64().unwrap() as usize; if k < consumed.len() { let c = consumed[k].clone(); m.rewind(&c); cur = m.read(Mode::Normal); next = m.read(Mode::Normal); jumps += 1; } }
            "r" | "t" => {
                let mode = if op[0] == "r" { Mode::Regex } else { Mode::Template };
                match &cur {
                    Seen::Known(Out::Tok(t)) => {
                        // the template mode is only meant for a closing brace
                        let t: Tok = t.clone();
                        m.st = St::At(t.start, t.fol);
                        if mode == Mode::Template && !m.lex.src[t.start..].starts_with('}') { m.st = St::Unknown; cur = Seen::Unknown; next = Seen::Unknown; continue; }
                        cur = m.read(mode); next = m.read(Mode::Normal); jumps += 1;
                        if let Some(d) = mismatch(&cur, got) { return bad("re-read", d); }
                    }
                    Seen::Known(_) => if let Some(d) = mismatch(&cur, got) { return bad("re-read of nothing", d); },
                    Seen::Unknown => { m.st = St::Unknown; next = Seen::Unknown; }
                }
            }
            _ => {}
        }
    }
    o.count("operations on the reader", job["ops"].as_array().unwrap().len() as u64); o.count("reader rewinds and re-reads", jumps);
    if jumps > 0 { o.case(fnv(&format!("{}{}", job["src"], job["ops"])), || job.clone()); }
    vec![]
}
