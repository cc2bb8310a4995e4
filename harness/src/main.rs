mod check; mod checks; mod cmp; mod codegen; mod explore; mod gen; mod judge; mod matrix; mod lexcheck; mod mutate; mod pool; mod reflex; mod registry; mod relate; mod diag; mod edits; mod early; mod total; mod effort; mod cli; mod written; mod rng; mod scale; mod shrink; mod trav; mod worker;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => { worker::main(); 0 }
        Some("matrix") => { explore::matrix(&a[2..]); 0 }
        Some("explore") => { explore::main(&a[2..]); 0 }
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            big(move || check::run(registry::get(&a[2]).as_ref(), &tier, seed))
        }
        Some("replay") => big(move || {
            let v: serde_json::Value = pool::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
            check::replay(registry::get(v["property"].as_str().unwrap()).as_ref(), &v["job"])
        }),
        Some("early") => { early::explore(a[2].parse().unwrap(), a.get(3).map_or(0, |s| s.parse().unwrap())); 0 }
        Some("list") => { for c in registry::ids() { println!("{c}"); } 0 }
        _ => { eprintln!("usage: fajt_monitor check ID | replay FILE | list"); 2 }
    };
    std::process::exit(code);
}
fn big(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    match std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join() { Ok(c) => c, Err(_) => 2 }
}
