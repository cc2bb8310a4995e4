//! Development aid: differential run that groups disagreements.
use crate::{cmp, gen, mutate, pool::*, rng::Rng, shrink};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;
fn groups_of(x: &Answer, y: &Answer) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut add = |k: String, v: String| out.push((k, v));
    let (Answer::Got(x), Answer::Got(y)) = (x, y) else { add(format!("DEAD {x:?} {y:.80?}"), String::new()); return out };
    if y["ok"] == "skip" { return out; }
    match (&x["ok"], &y["ok"]) {
        (Value::Null, _) => add(format!("PANIC {}", x["panic"]), String::new()),
        (_, Value::Null) => add(format!("ORACLE {}", y["err"]), String::new()),
        (Value::Bool(true), Value::Bool(false)) => add(format!("OVER {}", y["err"].as_str().unwrap().split(" (").next().unwrap()), y["err"].to_string()),
        (Value::Bool(false), Value::Bool(true)) if y["quirks"].as_array().map_or(false, |q| q.iter().any(|q| q == "legacyNumber" || q == "literalTarget")) => {}
        (Value::Bool(false), Value::Bool(true)) => add(format!("UNDER {}", x["err"].as_str().unwrap()), x["span"].to_string()),
        (Value::Bool(true), _) => {
            if y["ast"].is_object() { if let Some(d) = cmp::diff(&x["ast"], &y["ast"]) { add(format!("DIFF {}", d.split(':').next().unwrap_or("").rsplit('.').next().unwrap().chars().filter(|c| c.is_alphabetic() || *c == '_').collect::<String>()), d); } }
            else { add(format!("UNSUPPORTED {}", y["unsupported"]), String::new()); }
            for m in ["pretty", "minified"] {
                let c = &x["code"][m];
                if !c["err"].is_null() { add(format!("GENERR {m} {}", c["err"]), c["text"].to_string()); continue }
                if !c["panic"].is_null() { add(format!("GENPANIC {m} {}", c["panic"]), String::new()); continue }
                if let Some(d) = cmp::diff(&cmp::strip(&c["ast"]), &cmp::strip(&x["ast"])) { add(format!("GENDIFF {m} {}", d.split(':').next().unwrap_or("").rsplit('.').next().unwrap_or("")), format!("{} {d}", c["text"])); }
                else if !c["again"].is_null() { add(format!("GENIDEM {m}"), format!("{} => {}", c["text"], c["again"])); }
            }
        }
        _ => {}
    }
    out
}
pub fn main(a: &[String]) {
    let prof = &a[0]; let seed: u64 = a[1].parse().unwrap(); let n: usize = a[2].parse().unwrap(); let mutp: usize = a[3].parse().unwrap(); let show: usize = a.get(4).map_or(3, |s| s.parse().unwrap());
    let groups = std::sync::Mutex::new(BTreeMap::<String, Vec<(Value, String)>>::new());
    let stats = std::sync::Mutex::new([0usize; 5]);
    lanes(8, |th| {
        let mut r = Rng::new(seed, th); let mut p = gen::profile(prof);
        if std::env::var("PLAIN").is_ok() { p.no_quirks = true; p.escapes = false; }
        let mut f = Proc::fajt(); let mut ac = Proc::acorn();
        for _ in 0..n / 8 / 50 {
            let mut jobs: Vec<Value> = vec![];
            for _ in 0..50 {
                let mut pr = gen::program(&mut r, &p);
                let m = r.pct(mutp);
                if m { let d = gen::program(&mut r, &p); mutate::tokens(&mut r, &mut pr.toks, &d.toks); }
                let st = *r.pick(&[gen::Style::Plain, gen::Style::Plain, gen::Style::Tight, gen::Style::Wild]);
                let mut x = gen::render(&mut r, &pr.toks, pr.module, st, 8).src;
                if m && r.pct(25) { x = mutate::chars(&mut r, &x); }
                jobs.push(json!({"src": x, "type": if pr.module { "module" } else { "script" }, "want": ["code"]}));
            }
            let fa = f.ask(&jobs, Duration::from_secs(20)); let ra = ac.ask(&jobs, Duration::from_secs(20));
            for ((j, x), y) in jobs.iter().zip(&fa).zip(&ra) {
                if let (Answer::Got(x), Answer::Got(y)) = (x, y) { let mut st = stats.lock().unwrap(); st[0] += 1; if x["ok"] == true { st[1] += 1; } if y["ok"] == true { st[2] += 1; } else if y["ok"] == "lenient" { st[3] += 1; } }
                if let (Answer::Got(x), Answer::Got(y)) = (x, y) { if y["ok"] == "lenient" && std::env::var("LEN").is_ok() { let m = y["err"].as_str().unwrap().split(" (").next().unwrap().split('\'').enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect::<String>(); groups.lock().unwrap().entry(format!("LENIENT {} {m}", if x["ok"] == true { "ACCEPT" } else { "reject" })).or_default().push((j.clone(), String::new())); } }
                for (k, v) in groups_of(x, y) { groups.lock().unwrap().entry(k).or_default().push((j.clone(), v)); }
            }
        }
    });
    println!("{:?}", stats.lock().unwrap());
    let g = groups.into_inner().unwrap();
    let mut v: Vec<_> = g.into_iter().collect(); v.sort_by_key(|(_, v)| std::cmp::Reverse(v.len()));
    let out = std::sync::Mutex::new(vec![String::new(); v.len()]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    lanes(8, |_| {
        let mut f = Proc::fajt(); let mut ac = Proc::acorn();
        loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if i >= v.len() { break; }
            let (k, ex) = &v[i];
            let mut ex = ex.clone(); ex.sort_by_key(|s| s.0["src"].as_str().unwrap().len());
            let mut o = format!("## {} {k}\n", ex.len());
            for (job, _) in ex.iter().take(show) {
                let mut run = |srcs: &[String]| -> Vec<Vec<(String, String)>> {
                    let jobs: Vec<Value> = srcs.iter().map(|s| { let mut j = job.clone(); j["src"] = json!(s); j }).collect();
                    let fa = f.ask(&jobs, Duration::from_secs(20)); let ra = ac.ask(&jobs, Duration::from_secs(20));
                    fa.iter().zip(&ra).map(|(x, y)| groups_of(x, y)).collect()
                };
                let s = if k.starts_with("DEAD") || k.starts_with("LENIENT") { job["src"].as_str().unwrap().to_owned() } else { shrink::shrink(job["src"].as_str().unwrap(), 3000, &mut |c| run(c).iter().map(|g| g.iter().any(|(x, _)| x == k)).collect()) };
                let d = run(&[s.clone()]).remove(0).into_iter().find(|(x, _)| x == k).map(|x| x.1).unwrap_or_default();
                o.push_str(&format!("     {} {s:?}  {}\n", job["type"].as_str().unwrap(), d.chars().take(260).collect::<String>()));
            }
            out.lock().unwrap()[i] = o;
        }
    });
    for o in out.lock().unwrap().iter() { print!("{o}"); }
}
/// Development aid: the tables of a property (or n random ones), judged, with what fails grouped.
pub fn matrix(a: &[String]) {
    use crate::check::*;
    let id = a[0].as_str(); let n: usize = a.get(1).map_or(0, |s| s.parse().unwrap()); let spans = a.get(2).map_or(false, |s| s == "spans");
    let srcs: Vec<String> = if n == 0 { crate::matrix::all(id) } else { let mut r = Rng::new(n as u64, 7); (0..n).map(|_| crate::matrix::one(&mut r, id)).collect() };
    println!("{} sources", srcs.len());
    let groups = std::sync::Mutex::new(BTreeMap::<String, (usize, Vec<String>)>::new());
    let counts = std::sync::Mutex::new(BTreeMap::<String, u64>::new());
    let next = std::sync::atomic::AtomicUsize::new(0);
    lanes(8, |_| {
        let mut t = Tools::new(30, &[]); let mut o = Obs::default();
        loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if i >= srcs.len() * 2 { break; }
            let j = crate::judge::job(&srcs[i / 2], i % 2 == 1);
            if std::env::var("LEN").is_ok() {
                let y = t.refer(&j); if y["ok"] != "lenient" { continue; }
                let x = t.fajt(&j); let Answer::Got(x) = x else { continue };
                let key = format!("{} {}", y["err"].as_str().unwrap().split(" (").next().unwrap().split('\'').enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect::<String>(), if x["ok"] == true { "ACCEPT" } else { "reject" });
                let mut g = groups.lock().unwrap(); let e = g.entry(key).or_default(); e.0 += 1;
                e.1.push(format!("{} {:?} {}", j["type"].as_str().unwrap(), srcs[i / 2], y["err"])); e.1.sort_by_key(|s| s.len()); e.1.truncate(14);
                continue;
            }
            for (class, d) in crate::judge::tree(&j, &mut t, &mut o, spans) {
                let key = format!("{class}: {}", d.split(" at ").next().unwrap_or("").split(" (").next().unwrap_or("").split('\'').enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect::<String>());
                let mut g = groups.lock().unwrap(); let e = g.entry(key).or_default(); e.0 += 1;
                e.1.push(format!("{} {:?} {}", j["type"].as_str().unwrap(), srcs[i / 2], d.chars().take(160).collect::<String>())); e.1.sort_by_key(|s| s.len()); e.1.truncate(12);
            }
        }
        for (k, v) in o.counts { *counts.lock().unwrap().entry(k).or_default() += v; }
    });
    println!("{:?}", counts.lock().unwrap());
    for (k, (n, ex)) in groups.into_inner().unwrap() { println!("## {n} {k}"); for e in ex { println!("     {e}"); } }
}
