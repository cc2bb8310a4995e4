//! The monitored side: runs the real fajt crates on one source at a time and reports, as JSON, what
//! was observed (result, tree, error, emitted diagnostic, traversal events, generated code, reader
//! events). It decides nothing; the parent process holds the oracles, and notices when this process dies.
use fajt_ast::traverse::{Traverse, Visitor};
use fajt_ast::*;
use fajt_codegen::{generate_code, GeneratorContext};
use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
use fajt_lexer::token::Token;
use fajt_lexer::{Lexer, LexerState};
use fajt_parser::error::emitter::ErrorEmitter;
use fajt_parser::{Parse, Parser};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100_0000_01b3); }
    h & ((1 << 52) - 1)
}
fn js<T: serde::Serialize>(t: &T) -> String { serde_json::to_value(t).unwrap().to_string() }

// ---- traversal recording ----
/// Records every visitor call with a fingerprint of the node it was given.
struct Recorder { events: Vec<(String, u64)>, skip: u64 }
macro_rules! visitor {
    ($($t:ty, $enter:ident, $exit:ident;)*) => {
        impl Visitor for Recorder {
            $(
                fn $enter(&mut self, node: &mut $t) -> bool {
                    let h = fnv(&js(node));
                    self.events.push((stringify!($enter).to_owned(), h));
                    self.skip == 0 || h % self.skip != 0
                }
                fn $exit(&mut self, node: &mut $t) { self.events.push((stringify!($exit).to_owned(), fnv(&js(node)))); }
            )*
        }
    };
}
include!("visitor_list.rs");

/// Compares the position an enum reports with the one of the variant it holds.
struct Spans(Vec<String>);
impl Spans {
    fn see<T: serde::Serialize + Spanned>(&mut self, n: &T) {
        let v = serde_json::to_value(n).unwrap();
        let mut x = &v;
        while x["span"].is_null() { match x.as_object().and_then(|o| o.values().next()) { Some(n) => x = n, None => break } }
        let inner = x["span"].clone();
        if inner != serde_json::to_value(n.span()).unwrap() { self.0.push(v.to_string()); }
    }
}
impl Visitor for Spans {
    fn enter_expr(&mut self, n: &mut Expr) -> bool { self.see(n); true }
    fn enter_stmt(&mut self, n: &mut Stmt) -> bool { self.see(n); true }
}

/// A visitor that edits: renames identifiers, and changes strings, numbers and operators on the way out.
struct Editor;
impl Visitor for Editor {
    fn exit_ident(&mut self, n: &mut Ident) { n.name.push_str("_r"); }
    fn enter_string_literal(&mut self, n: &mut LitString) -> bool { n.value.push('!'); true }
    fn exit_number_literal(&mut self, n: &mut LitNumber) { n.raw.push('1'); }
    fn enter_this_expr(&mut self, n: &mut ExprThis) -> bool { n.span.end += 1000; true }
    fn exit_super(&mut self, n: &mut Super) { n.span.end += 1000; }
    fn exit_unary_operator(&mut self, n: &mut UnaryOperator) { *n = UnaryOperator::Void; }
    fn enter_binary_operator(&mut self, n: &mut BinaryOperator) -> bool { *n = BinaryOperator::Plus; true }
    fn exit_block_stmt(&mut self, n: &mut StmtBlock) { n.statements.push(Stmt::Empty(StmtEmpty { span: Span::new(7, 7) })); }
    fn exit_literal(&mut self, n: &mut Literal) { if *n == Literal::Null { *n = Literal::Boolean(true); } }
}

// ---- reader instrumentation ----
#[derive(Default)]
pub struct Trace { pub reads: usize, pub errors: usize, pub rewinds: usize, pub rereads: usize, pub ends: std::collections::HashSet<usize>, pub events: Vec<Value>, pub keep: bool }
pub struct Spy<'a> { inner: Lexer<'a>, log: Rc<RefCell<Trace>> }
fn tokjs(r: &Result<(usize, Token), fajt_lexer::error::Error>) -> Value {
    match r { Ok((e, t)) => json!({"end": e, "tok": t}), Err(e) => json!({"err": format!("{e:?}")}) }
}
impl PeekRead<Token> for Spy<'_> {
    type Error = fajt_lexer::error::Error;
    fn next(&mut self) -> Result<(usize, Token), Self::Error> {
        let r = self.inner.next();
        let mut l = self.log.borrow_mut();
        l.reads += 1; match &r { Ok((e, _)) => { l.ends.insert(*e); } Err(_) => l.errors += 1 }
        if l.keep { let v = tokjs(&r); l.events.push(json!(["next", v])); }
        r
    }
}
impl Seek for Spy<'_> { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.inner.seek(p) } }
impl ReReadWithState<Token> for Spy<'_> {
    type Error = fajt_lexer::error::Error;
    type State = LexerState;
    fn rewind_before(&mut self, t: &Token) {
        { let mut l = self.log.borrow_mut(); l.rewinds += 1; if l.keep { l.events.push(json!(["rewind", t])); } }
        self.inner.rewind_before(t);
    }
    fn read_with_state(&mut self, s: LexerState) -> Result<(usize, Token), Self::Error> {
        let r = self.inner.read_with_state(s);
        let mut l = self.log.borrow_mut();
        l.rereads += 1; if let Ok((e, _)) = &r { l.ends.insert(*e); }
        if l.keep { let v = tokjs(&r); l.events.push(json!(["reread", v])); }
        r
    }
}

fn source_type(v: &Value) -> SourceType { if v["type"] == "module" { SourceType::Module } else { SourceType::Script } }
fn want(v: &Value, w: &str) -> bool { v["want"].as_array().map_or(false, |a| a.iter().any(|x| x == w)) }

trait Tree: Parse + Traverse + serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug {}
impl<T: Parse + Traverse + serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug> Tree for T {}

/// the last span in the debug form of an error is the error's own
fn err_span(dbg: &str) -> Value {
    let Some(i) = dbg.rfind("span: Span { start: ") else { return Value::Null };
    let rest = &dbg[i + "span: Span { start: ".len()..];
    let mut it = rest.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty());
    match (it.next().and_then(|s| s.parse::<u64>().ok()), it.next().and_then(|s| s.parse::<u64>().ok())) { (Some(a), Some(b)) => json!([a, b]), _ => Value::Null }
}

fn code<T: Tree>(ast: &mut T, minified: bool) -> String {
    let mut c = GeneratorContext::new();
    c.minified = minified;
    generate_code(ast, c)
}

fn job<T: Tree>(v: &Value) -> Value {
    let src = v["src"].as_str().unwrap();
    let ty = source_type(v);
    let mut out = serde_json::Map::new();
    let parsed = fajt_parser::parse::<T>(src, ty);
    if want(v, "entry") {
        // the other ways in have to say the same
        let a = serde_json::to_value(fajt_parser::parse::<Program>(src, ty).map_err(|e| format!("{e:?}"))).unwrap();
        let b = serde_json::to_value(if ty == SourceType::Module { fajt_parser::parse_module(src) } else { fajt_parser::parse_script(src) }.map_err(|e| format!("{e:?}"))).unwrap();
        let mut lexer = Lexer::new(src).unwrap();
        if ty == SourceType::Module { lexer.set_state(LexerState::default().with_html_comments_allowed(false)); }
        let mut reader = PeekReader::new(lexer).unwrap();
        let c = serde_json::to_value(Parser::new(&mut reader, ty).and_then(|mut p| <Program as Parse>::parse(&mut p)).map_err(|e| format!("{e:?}"))).unwrap();
        out.insert("entries_same".into(), json!(a == b && a == c));
    }
    if want(v, "debug") { out.insert("pretty_debug".into(), json!(format!("{parsed:#?}"))); }
    if want(v, "flat") { out.insert("debug_length".into(), json!(format!("{parsed:?}").len())); }
    if want(v, "twice") { out.insert("same".into(), json!(parsed == fajt_parser::parse::<T>(src, ty))); }
    if want(v, "trace") || want(v, "count") {
        let log = Rc::new(RefCell::new(Trace { keep: want(v, "trace"), ..Default::default() }));
        let mut lexer = Lexer::new(src).unwrap();
        if ty == SourceType::Module { lexer.set_state(LexerState::default().with_html_comments_allowed(false)); }
        let spy = Spy { inner: lexer, log: log.clone() };
        let mut reader = PeekReader::new(spy).unwrap();
        let r = Parser::parse::<T>(&mut reader, ty);
        out.insert("trace_same".into(), json!(r == parsed));
        let l = log.borrow();
        out.insert("counts".into(), json!([l.reads, l.rewinds, l.rereads, l.errors, l.ends.len()]));
        if l.keep { out.insert("events".into(), Value::Array(l.events.clone())); }
    }
    match parsed {
        Ok(mut ast) => {
            out.insert("ok".into(), json!(true));
            let j = serde_json::to_value(&ast).unwrap();
            if want(v, "trav") {
                let mut r = Recorder { events: vec![], skip: 0 };
                ast.traverse(&mut r);
                out.insert("trav".into(), json!(r.events));
                let mut r = Recorder { events: vec![], skip: 5 };
                ast.traverse(&mut r);
                out.insert("trav_skip".into(), json!(r.events));
                let mut tr = fajt_ast::traverse::TraceVisitor::new();
                ast.traverse(&mut tr);
                out.insert("trav_trace".into(), json!(tr.visits));
                let mut sp = Spans(vec![]);
                ast.traverse(&mut sp);
                out.insert("span_bad".into(), json!(sp.0));
                out.insert("trav_pure".into(), json!(serde_json::to_value(&ast).unwrap() == j));
                let mut e = fajt_parser::parse::<T>(src, ty).unwrap();
                e.traverse(&mut Editor);
                out.insert("edited".into(), serde_json::to_value(&e).unwrap());
            }
            if want(v, "code") {
                let mut o = serde_json::Map::new();
                for (name, min) in [("pretty", false), ("minified", true)] {
                    let mut one = serde_json::Map::new();
                    let text = match catch_unwind(AssertUnwindSafe(|| code(&mut ast, min))) { Ok(t) => t, Err(p) => { one.insert("panic".into(), panic_msg(p)); o.insert(name.into(), Value::Object(one)); continue; } };
                    one.insert("text".into(), json!(text));
                    match fajt_parser::parse::<T>(&text, ty) {
                        Ok(mut a2) => {
                            let j2 = serde_json::to_value(&a2).unwrap();
                            let again = code(&mut a2, min);
                            if again != text { one.insert("again".into(), json!(again)); }
                            let cross = code(&mut a2, !min);
                            one.insert("cross".into(), json!(cross));
                            one.insert("ast".into(), j2);
                        }
                        Err(e) => { one.insert("err".into(), json!(format!("{e}"))); }
                    }
                    o.insert(name.into(), Value::Object(one));
                }
                o.insert("pure".into(), json!(serde_json::to_value(&ast).unwrap() == j));
                out.insert("code".into(), Value::Object(o));
            }
            if want(v, "serde") {
                let mut problems = vec![];
                rt(&ast, "tree", &mut problems);
                out.insert("serde".into(), json!(problems));
            }
            out.insert("ast".into(), j);
        }
        Err(e) => {
            let dbg = format!("{e:?}");
            out.insert("ok".into(), json!(false));
            out.insert("err".into(), json!(format!("{e}")));
            out.insert("debug".into(), json!(dbg));
            out.insert("kind".into(), json!(dbg.trim_start_matches("Error { kind: ").split(['(', ',', ' ', '{']).next().unwrap_or("")));
            out.insert("span".into(), err_span(&dbg));
            if want(v, "emit") {
                let mut buf = Vec::new();
                let r = catch_unwind(AssertUnwindSafe(|| ErrorEmitter::new(v["file"].as_str().unwrap_or("file.js"), src, &mut buf).emit_error(&e)));
                match r { Ok(Ok(())) => { out.insert("emit".into(), json!(String::from_utf8_lossy(&buf))); } Ok(Err(e)) => { out.insert("emit_panic".into(), json!(e.to_string())); } Err(p) => { out.insert("emit_panic".into(), panic_msg(p)); } }
            }
        }
    }
    Value::Object(out)
}

fn lex(v: &Value) -> Value {
    let src = v["src"].as_str().unwrap();
    let mut lexer = Lexer::new(src).unwrap();
    if source_type(v) == SourceType::Module { lexer.set_state(LexerState::default().with_html_comments_allowed(false)); }
    let mut toks: Vec<Value> = vec![];
    let mut err = Value::Null;
    let mut ends = true;
    // how each token is to be read: n(ormal), r(egular expression allowed), t(emplate continues); the last goes on
    let modes = v["modes"].as_str().unwrap_or("").as_bytes();
    loop {
        if let Some(m) = modes.get(toks.len()).or(modes.last()) { let s = match m { b'r' => LexerState::regex_allowed(), b't' => LexerState::inside_template(), _ => LexerState::default() }; lexer.set_state(s.with_html_comments_allowed(source_type(v) != SourceType::Module)); }
        match PeekRead::next(&mut lexer) {
            Ok((end, t)) => { ends &= end == t.span.end; toks.push(serde_json::to_value(&t).unwrap()); }
            Err(e) => { if format!("{:?}", e.kind()) != "EndOfStream" { err = json!({"kind": format!("{:?}", e.kind()), "span": [e.span().start, e.span().end]}); } break; }
        }
        if toks.len() > src.len() + 2 { return json!({"ok": null, "panic": "more tokens than characters"}); }
    }
    // read_all has to agree with reading one at a time
    let mut l2 = Lexer::new(src).unwrap();
    if source_type(v) == SourceType::Module { l2.set_state(LexerState::default().with_html_comments_allowed(false)); }
    let all = match l2.read_all() { Ok(t) => serde_json::to_value(&t).unwrap(), Err(_) => Value::Null };
    let all_ok = if !modes.is_empty() { true } else if err.is_null() { all == Value::Array(toks.clone()) } else { all.is_null() };
    json!({"ok": true, "toks": toks, "err": err, "all_ok": all_ok && ends})
}

fn rt<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T, what: &str, problems: &mut Vec<String>) {
    let j = serde_json::to_value(x).unwrap();
    let text = serde_json::to_string(x).unwrap();
    let reads = [("value", serde_json::from_value::<T>(j.clone())), ("text", crate::pool::from_str::<T>(&text)), ("pretty text", crate::pool::from_str::<T>(&serde_json::to_string_pretty(x).unwrap())), ("reader", { let mut d = serde_json::Deserializer::from_reader(text.as_bytes()); d.disable_recursion_limit(); T::deserialize(&mut d) })];
    for (how, r) in reads {
        match r {
            Err(e) => problems.push(format!("{what}: {how}: {e}")),
            Ok(b) => {
                if b != *x { problems.push(format!("{what}: {how}: round trip changed it")); }
                if serde_json::to_value(&b).unwrap() != j { problems.push(format!("{what}: {how}: round trip changed what is written")); }
                if format!("{b:?}") != format!("{x:?}") { problems.push(format!("{what}: {how}: round trip changed the debug form")); }
            }
        }
    }
}
/// Written tokens and errors are read back as they were.
fn tokens_serde(v: &Value) -> Value {
    let src = v["src"].as_str().unwrap();
    let mut lexer = Lexer::new(src).unwrap();
    let (mut problems, mut n) = (vec![], 0);
    loop {
        match PeekRead::next(&mut lexer) { Ok((_, t)) => { n += 1; rt(&t, "token", &mut problems); } Err(e) => { n += 1; rt(&e, "error", &mut problems); break; } }
        if n > src.len() + 2 { break; }
    }
    json!({"ok": true, "n": n, "problems": problems})
}
/// Text that may or may not be a written tree is read: what came of it.
fn read_json<T: Tree>(v: &Value) -> Value {
    let text = v["text"].as_str().unwrap();
    let Ok(base) = crate::pool::from_str::<T>(v["base"].as_str().unwrap()) else { return json!({"ok": true, "base": false}) };
    match crate::pool::from_str::<T>(text) {
        Err(e) => json!({"ok": true, "base": true, "read": false, "err": e.to_string()}),
        Ok(mut a) => {
            let j = serde_json::to_value(&a).unwrap();
            let again = crate::pool::from_str::<T>(&j.to_string()).map(|b| b == a).unwrap_or(false);
            let equal = a == base;
            let same = j == serde_json::to_value(&base).unwrap();
            struct Nothing; impl Visitor for Nothing {}
            a.traverse(&mut Nothing);
            json!({"ok": true, "base": true, "read": true, "again": again, "equal": equal, "same": same, "kept": serde_json::to_value(&a).unwrap() == j})
        }
    }
}

/// Drives a PeekReader over the lexer with a list of operations and reports what each returned.
/// ops: ["c"] consume, ["p"] peek, ["u"] current, ["o"] position, ["w", k] rewind to the k-th consumed token, ["r"] re-read current as regular expression
fn drive(v: &Value) -> Value {
    let src = v["src"].as_str().unwrap();
    let mut lexer = Lexer::new(src).unwrap();
    if source_type(v) == SourceType::Module { lexer.set_state(LexerState::default().with_html_comments_allowed(false)); }
    let mut reader = PeekReader::new(lexer).unwrap();
    let mut consumed: Vec<Token> = vec![];
    let mut log = vec![];
    let show = |r: Result<&Token, &fajt_lexer::error::Error>| match r { Ok(t) => serde_json::to_value(t).unwrap(), Err(e) => json!({"err": format!("{e:?}")}) };
    for op in v["ops"].as_array().unwrap() {
        match op[0].as_str().unwrap() {
            "c" => { let r = reader.consume(); log.push(match r { Ok(t) => { let j = serde_json::to_value(&t).unwrap(); consumed.push(t); j } Err(e) => json!({"err": format!("{e:?}")}) }); }
            "p" => log.push(show(reader.peek())),
            "u" => log.push(show(reader.current())),
            "o" => log.push(json!(reader.position())),
            "w" => { let k = op[1].as_u64().unwrap() as usize; if k < consumed.len() { let t = consumed[k].clone(); reader.rewind_to(&t).unwrap(); log.push(json!("w")); } else { log.push(json!("-")); } }
            "r" => { let _ = reader.reread_with_state(LexerState::regex_allowed()); log.push(show(reader.current())); }
            "t" => { let _ = reader.reread_with_state(LexerState::inside_template()); log.push(show(reader.current())); }
            _ => unreachable!(),
        }
    }
    json!({"ok": true, "log": log})
}

fn panic_msg(p: Box<dyn std::any::Any + Send>) -> Value {
    json!(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stack: usize = std::env::var("FAJT_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(64 << 20);
    std::thread::Builder::new().stack_size(stack).spawn(|| {
        let stdin = std::io::stdin();
        let stdout = std::io::stdout();
        for l in stdin.lock().lines() {
            let Ok(l) = l else { break };
            let v: Value = crate::pool::from_str(&l).expect("job");
            let r = catch_unwind(AssertUnwindSafe(|| match v["entry"].as_str() {
                Some("expr") => job::<Expr>(&v),
                Some("stmt") => job::<Stmt>(&v),
                Some("lex") => lex(&v),
                Some("lexmany") => json!({"ok": true, "all": v["srcs"].as_array().unwrap().iter().map(|s| lex(&json!({"src": s, "type": v["type"], "modes": v["modes"]}))).collect::<Vec<_>>()}),
                Some("drive") => drive(&v),
                Some("tokens") => tokens_serde(&v),
                Some("json") => match v["of"].as_str() { Some("expr") => read_json::<Expr>(&v), Some("stmt") => read_json::<Stmt>(&v), _ => read_json::<Program>(&v) },
                _ => job::<Program>(&v),
            }));
            let mut o = match r { Ok(o) => o, Err(p) => json!({"ok": null, "panic": panic_msg(p)}) };
            o["id"] = v["id"].clone();
            let mut so = stdout.lock();
            if writeln!(so, "{o}").and_then(|_| so.flush()).is_err() { break; }
        }
    }).unwrap().join().unwrap();
}
