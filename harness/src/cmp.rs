//! Comparison of serialised trees.
use serde_json::Value;

/// First difference between two trees as (path, left, right).
pub fn diff(a: &Value, b: &Value) -> Option<String> { let mut path = String::new(); go(a, b, &mut path) }
fn short(v: &Value) -> String { let s = v.to_string(); if s.chars().count() > 110 { s.chars().take(110).collect::<String>() + "…" } else { s } }
fn go(a: &Value, b: &Value, path: &mut String) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            if x.len() != y.len() || x.keys().ne(y.keys()) { return Some(format!("{path}: {:?} vs {:?}", x.keys().collect::<Vec<_>>(), y.keys().collect::<Vec<_>>())); }
            // structure first, spans last: a wrong shape is more telling than its spans
            for pass in 0..2 { for (k, v) in x { if (k == "span") != (pass == 1) { continue; } let l = path.len(); path.push('.'); path.push_str(k); let r = go(v, &y[k], path); if r.is_some() { return r; } path.truncate(l); } }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() { return Some(format!("{path}: {} vs {} items ({} / {})", x.len(), y.len(), short(a), short(b))); }
            for (i, (v, w)) in x.iter().zip(y).enumerate() { let l = path.len(); path.push_str(&format!("[{i}]")); let r = go(v, w, path); if r.is_some() { return r; } path.truncate(l); }
            None
        }
        _ => if a == b { None } else { Some(format!("{path}: {} vs {}", short(a), short(b))) },
    }
}
/// The tree without any position information.
pub fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), if k == "span" { Value::Null } else if k == "arguments_span" { Value::Bool(!v.is_null()) } else { strip(v) })).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        _ => v.clone(),
    }
}
pub fn count_nodes(v: &Value) -> usize {
    match v { Value::Object(m) => 1 + m.values().map(count_nodes).sum::<usize>(), Value::Array(a) => a.iter().map(count_nodes).sum(), _ => 0 }
}
/// names of the constructs in a tree (for coverage evidence)
pub fn kinds(v: &Value, out: &mut std::collections::BTreeMap<String, u64>) {
    match v {
        Value::Object(m) => {
            if m.len() == 1 { let (k, x) = m.iter().next().unwrap(); if k.starts_with(|c: char| c.is_uppercase()) { *out.entry(k.clone()).or_default() += 1; } kinds(x, out); } else { for (k, x) in m { if k == "operator" { if let Some(s) = x.as_str() { *out.entry(format!("op:{s}")).or_default() += 1; } } kinds(x, out); } }
        }
        Value::Array(a) => for x in a { kinds(x, out) },
        _ => {}
    }
}
/// shape fingerprint: the tree without positions, names and values
pub fn shape(v: &Value) -> u64 {
    fn s(v: &Value, o: &mut String) {
        match v {
            Value::Object(m) => { o.push('{'); for (k, x) in m { if k == "span" || k == "arguments_span" || k == "name" || k == "value" && x.is_string() || k == "raw" { continue; } o.push_str(k); s(x, o); } o.push('}'); }
            Value::Array(a) => { o.push('['); for x in a { s(x, o) } o.push(']'); }
            Value::String(t) => o.push_str(if t.len() < 20 { t } else { "" }),
            Value::Bool(b) => o.push(if *b { 'T' } else { 'F' }),
            _ => o.push('_'),
        }
    }
    let mut o = String::new(); s(v, &mut o); crate::worker::fnv(&o)
}
