//! Traversal of the tree (C14): the calls a visitor receives, against a schema of the tree.
use crate::check::*;
use crate::judge::must;
use crate::{checks, gen, rng::Rng, worker::fnv};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::OnceLock;

struct Field { name: String, ty: String, list: bool }
enum Kind { Enum(HashMap<String, String>), Struct(Vec<Field>) }
pub struct Type { visitor: String, kind: Kind }
pub fn schema() -> &'static HashMap<String, Type> {
    static S: OnceLock<HashMap<String, Type>> = OnceLock::new();
    S.get_or_init(|| include_str!("schema.txt").lines().map(|l| {
        let mut w = l.split_whitespace();
        let (k, name, visitor) = (w.next().unwrap(), w.next().unwrap().to_owned(), w.next().unwrap().to_owned());
        let pairs: Vec<(String, String)> = w.map(|p| { let (a, b) = p.split_once('=').unwrap(); (a.to_owned(), b.to_owned()) }).collect();
        let kind = if k == "enum" { Kind::Enum(pairs.into_iter().collect()) } else { Kind::Struct(pairs.into_iter().map(|(a, ty)| { let list = a.contains('*'); Field { name: a.trim_end_matches(['*', '?']).to_owned(), ty, list } }).collect()) };
        (name, Type { visitor, kind })
    }).collect())
}
/// The children of a node, in order, with their types; `swap` gives the other order where the tree's
/// fields and the source disagree (`a as b` in exports, prefix operators).
pub fn children<'a>(ty: &str, v: &'a Value) -> Vec<(&'static str, &'a Value)> {
    let t = &schema()[ty];
    match &t.kind {
        Kind::Enum(m) => match v.as_object() { Some(o) if o.len() == 1 => { let (k, x) = o.iter().next().unwrap(); m.get(k).map(|t| vec![(t.as_str(), x)]).unwrap_or_default() } _ => vec![] },
        Kind::Struct(fs) => fs.iter().flat_map(|f| { let x = &v[&f.name]; if f.list { x.as_array().map(|a| a.iter().filter(|e| !e.is_null()).map(|e| (f.ty.as_str(), e)).collect::<Vec<_>>()).unwrap_or_default() } else if x.is_null() { vec![] } else { vec![(f.ty.as_str(), x)] } }).collect(),
    }
}
struct Walk<'a> { ev: &'a [Value], at: usize, skip: u64, hashes: bool, nodes: u64, skipped: u64 }
impl Walk<'_> {
    fn name(&self, i: usize) -> &str { self.ev.get(i).map(|e| if self.hashes { e[0].as_str().unwrap() } else { e.as_str().unwrap() }).unwrap_or("the end") }
    fn expect(&mut self, name: String, h: u64, v: &Value) -> Option<String> {
        let got = self.name(self.at);
        if got != name { return Some(format!("call {} is {got}, expected {name} for {}", self.at, cut(&v.to_string(), 160))); }
        if self.hashes && self.ev[self.at][1].as_u64() != Some(h) { return Some(format!("call {} ({name}) was given another node than {}", self.at, cut(&v.to_string(), 160))); }
        self.at += 1; None
    }
    fn walk(&mut self, ty: &'static str, v: &Value) -> Option<String> {
        let h = if self.hashes { fnv(&v.to_string()) } else { 0 };
        let visitor = &schema()[ty].visitor;
        self.nodes += 1;
        if let Some(e) = self.expect(format!("enter_{visitor}"), h, v) { return Some(e); }
        if self.skip == 0 || h % self.skip != 0 {
            let mut c = children(ty, v);
            if (ty == "ExprUpdate" || ty == "NamedExport") && c.len() == 2 {
                // either order is fine
                let first = format!("enter_{}", schema()[c[0].0].visitor);
                let other_first = if ty == "NamedExport" && self.hashes { self.ev.get(self.at).map_or(false, |e| e[1].as_u64() != Some(fnv(&c[0].1.to_string()))) } else { self.name(self.at) != first };
                if other_first { c.reverse(); }
            }
            for (t, x) in c { if let Some(e) = self.walk(t, x) { return Some(e); } }
        } else { self.skipped += 1; }
        self.expect(format!("exit_{visitor}"), h, v)
    }
}
/// What the editing visitor of the worker makes of a tree.
fn edited(ty: &str, v: &Value) -> Value {
    let mut n = v.clone();
    let bump = |n: &mut Value| { let s = n["span"].as_str().unwrap().to_owned(); let (a, b) = s.split_once(':').unwrap(); n["span"] = json!(format!("{a}:{}", b.parse::<u64>().unwrap() + 1000)); };
    match ty { "LitString" => { n["value"] = json!(format!("{}!", n["value"].as_str().unwrap())); } "ExprThis" => bump(&mut n), "BinaryOperator" => n = json!("Plus"), _ => {} }
    let t = &schema()[ty];
    match &t.kind {
        Kind::Enum(m) => if let Some(o) = n.as_object_mut() { if o.len() == 1 { let (k, x) = o.iter_mut().next().unwrap(); if let Some(t) = m.get(k) { *x = edited(t, x); } } },
        Kind::Struct(fs) => for f in fs { let x = &mut n[&f.name]; if f.list { if let Some(a) = x.as_array_mut() { for e in a { if !e.is_null() { *e = edited(&f.ty, e); } } } } else if !x.is_null() { *x = edited(&f.ty, x); } },
    }
    match ty {
        "Ident" => { n["name"] = json!(format!("{}_r", n["name"].as_str().unwrap())); }
        "LitNumber" => { n["raw"] = json!(format!("{}1", n["raw"].as_str().unwrap())); }
        "Super" => bump(&mut n), "UnaryOperator" => n = json!("Void"),
        "StmtBlock" => n["statements"].as_array_mut().unwrap().push(json!({"Empty": {"span": "7:7"}})),
        "Literal" => if n == json!("Null") { n = json!({"Boolean": true}); },
        _ => {}
    }
    n
}

pub struct Traversal;
impl Check for Traversal {
    fn id(&self) -> &'static str { "C14" }
    fn rule(&self) -> &'static str { "Trees parsed from programs of all profiles are traversed with a visitor that records every call with a fingerprint of the node, with one that skips the children of a pseudo-random fifth of the nodes, with the library's own tracing visitor, and with one that edits nodes; every call is compared with the schema of the tree. Non-trivial: more than 6 nodes and an unseen tree shape." }
    fn size(&self) -> (u64, u64) { (24_000, 1_000_000) }
    fn fixed(&self, thorough: bool) -> Vec<Value> { checks::corpus().into_iter().chain(crate::scale::jobs_to(130)).map(|mut j| { j["want"] = json!(["trav"]); j }).collect() }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let mut p = gen::profile(["mixed", "expr", "cover", "stmt", "func", "module", "strict"][(k % 7) as usize]);
        if r.pct(30) { p.size = (2, 14); }
        let mut j = checks::source(r, &p, 15, 0).job();
        if j["type"] == "script" && r.pct(15) { j["entry"] = json!(if r.pct(50) { "expr" } else { "stmt" }); }
        j["want"] = json!(["trav"]); j
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let x = must!(t.fajt(job), "traversing");
        if x["ok"] != true { o.count("sources that do not parse", 1); return vec![]; }
        let ast = &x["ast"];
        let root = match job["entry"].as_str() { Some("expr") => "Expr", Some("stmt") => "Stmt", _ => "Program" };
        o.evaluations += 1;
        let mut out = vec![];
        for (field, skip, hashes) in [("trav", 0, true), ("trav_skip", 5, true), ("trav_trace", 0, false)] {
            let ev = x[field].as_array().unwrap();
            let mut w = Walk { ev, at: 0, skip, hashes, nodes: 0, skipped: 0 };
            let what = match field { "trav" => "visitor calls", "trav_skip" => "calls of a visitor that skips children", _ => "calls of the tracing visitor" };
            match w.walk(root, ast) { Some(e) => { out.push((format!("wrong {what}"), e)); break; } None if w.at != ev.len() => { out.push((format!("wrong {what}"), format!("{} calls after the end of the tree, first {}", ev.len() - w.at, w.name(w.at)))); break; } None => {} }
            o.count(what, ev.len() as u64); o.count("nodes whose children were skipped", w.skipped);
            if field == "trav" { for e in ev { let n = e[0].as_str().unwrap(); if n.starts_with("enter") { *o.constructs.entry(n.to_owned()).or_default() += 1; } } }
        }
        if out.is_empty() {
            if x["trav_pure"] != true { out.push(("traversal without edits changes the tree".into(), String::new())); }
            if let Some(d) = crate::cmp::diff(&x["edited"], &edited(root, ast)) { out.push(("edits of a visitor".into(), format!("observed vs expected at {d}"))); }
            if x["span_bad"] != json!([]) { out.push(("node position differs from its variant's".into(), x["span_bad"].to_string())); }
        }
        if crate::cmp::count_nodes(ast) > 6 { o.case(crate::cmp::shape(ast), || job.clone()); }
        out
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the schema of the tree in harness/src/schema.txt (fields in source order; the operator of a prefix update and the names of an export alias may come in either order)"] }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("visitor calls", 300_000), ("nodes whose children were skipped", 5_000)] }
}
