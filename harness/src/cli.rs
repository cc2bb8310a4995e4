//! The command line program (C18): what it prints and how it ends, against what the library says.
use crate::check::*;
use crate::judge::must;
use crate::{checks, gen, mutate, pool::root, rng::Rng};
use serde_json::{json, Value};
use std::process::{Command, Stdio};

fn program() -> std::path::PathBuf { std::env::var("FAJT_CLI").map(Into::into).unwrap_or_else(|_| root().join("harness/target/cli/release/fajt")) }
const NAMES: &[(&str, bool)] = &[("a.js", false), ("a.mjs", true), ("a.module.js", true), ("module.js", false), ("a.cjs", false), ("mjs", false), ("a.mjs.js", false), ("amjs", false), ("a.module.mjs", true), ("a.js.mjs", true), ("a.MJS", false), (".mjs", true), (".module.js", true), ("x y.mjs", true), ("é变.js", false), ("a.modulejs", false), ("a.module.jsx", false), ("a.ts", false), ("noext", false), ("-a.js", false), ("sub/a.mjs", true), ("sub.mjs/a.js", false), ("sub.mjs/a.module.js", true)];

pub struct Cli;
impl Check for Cli {
    fn id(&self) -> &'static str { "C18" }
    fn rule(&self) -> &'static str { "The program is built from the repository and run on files with sources of all kinds (valid, invalid, empty, not UTF-8, missing, a directory), under many file names and with every combination and spelling of its options; its standard output, standard error and exit status are compared with what the library answers in another process for the source type that the file name stands for. Non-trivial: distinct (source, name, options)." }
    fn size(&self) -> (u64, u64) { (25_000, 800_000) }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let name = ["mixed", "expr", "cover", "stmt", "func", "module", "module", "strict"][(k % 8) as usize];
        let mut p = gen::profile(name);
        if r.pct(50) { p.size = (2, 20); }
        p.unicode = 15;
        let src = match r.below(20) { 0 => String::new(), 1 => crate::total::nested(r, 30), 2 => { let n = r.range(0, 30); (0..n).map(|_| mutate::any_char(r)).collect() } _ => checks::source(r, &p, 35, 20).src };
        let file = r.below(NAMES.len());
        let mode = *r.pick(&["", "", "pretty", "pretty", "minified", "minified"]);
        let mut args: Vec<String> = match (mode, r.below(5)) { ("", _) => vec![], (m, 0) => vec!["-f".into(), m.into()], (m, 1) => vec![format!("-f{m}")], (m, 2) => vec!["--format".into(), m.into()], (m, 3) => vec![format!("-f={m}")], (m, _) => vec![format!("--format={m}")] };
        let check = r.pct(25);
        if check { let c = (*r.pick(&["-c", "--check"])).to_owned(); if r.pct(50) { args.push(c) } else { args.insert(0, c) } }
        json!({"src": src, "file": file, "args": args, "mode": mode, "check": check, "last": r.pct(50), "special": match r.below(60) { 0 => "missing", 1 => "directory", 2 => "bytes", 3 => "usage", _ => "" }})
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let src = job["src"].as_str().unwrap();
        let (name, module) = NAMES[job["file"].as_u64().unwrap() as usize];
        let dir = std::env::temp_dir().join(format!("fajt-cli-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
        let path = dir.join(name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        let special = job["special"].as_str().unwrap_or("");
        match special { "missing" => {} "directory" => std::fs::create_dir(&path).unwrap(), "bytes" => { let mut b = src.as_bytes().to_vec(); b.push(0xff); std::fs::write(&path, b).unwrap() } _ => std::fs::write(&path, src).unwrap() }
        let mut args: Vec<String> = job["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().to_owned()).collect();
        if special == "usage" { args.push("--no-such-option".into()); }
        // a name that starts with a dash has to be given as a path
        let shown = if name.starts_with('-') { format!("./{name}") } else { name.to_owned() };
        if job["last"] == true { args.push(shown.clone()) } else { args.insert(0, shown.clone()) }
        let out = Command::new(program()).args(&args).current_dir(&dir).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output();
        let left = std::fs::read(&path).ok();
        let _ = std::fs::remove_dir_all(&dir);
        let out = match out { Ok(x) => x, Err(e) => { eprintln!("error of the check: cannot run {}: {e}", program().display()); std::process::exit(2) } };
        let (stdout, stderr) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
        let code = out.status.code();
        o.evaluations += 1; o.count("runs of the program", 1);
        *o.constructs.entry(format!("exit {code:?}")).or_default() += 1;
        o.case(crate::worker::fnv(&job.to_string()), || job.clone());
        let shown_run = || format!("fajt {} -> {:?}\nstdout: {:?}\nstderr: {:?}", args.join(" "), out.status, cut(&stdout, 400), cut(&stderr, 400));
        if code.is_none() || code == Some(101) || stderr.contains("panicked at") { return vec![("the program panics or dies".into(), shown_run())]; }
        if special.is_empty() && left.as_deref() != Some(src.as_bytes()) { return vec![("the program changes the file".into(), shown_run())]; }
        if !special.is_empty() {
            o.count(format!("special: {special}"), 1);
            if code == Some(0) { return vec![("success although there is nothing to read".into(), shown_run())]; }
            if !stdout.is_empty() || stderr.is_empty() { return vec![("a failure is not told on standard error".into(), shown_run())]; }
            return vec![];
        }
        let j = json!({"src": src, "type": if module { "module" } else { "script" }, "want": ["emit", "code", "debug"], "file": shown});
        let x = must!(t.fajt(&j), "parsing");
        let (want_out, want_err, want_code) = if x["ok"] != true { (String::new(), x["emit"].as_str().unwrap_or("").to_owned(), 1) }
            else if job["check"] == true { ("Parsed successfully!\n".to_owned(), String::new(), 0) }
            else if job["mode"] != "" { (format!("{}\n", x["code"][job["mode"].as_str().unwrap()]["text"].as_str().unwrap_or("")), String::new(), 0) }
            else { (format!("{}\n", x["pretty_debug"].as_str().unwrap_or("")), String::new(), 0) };
        o.count(if want_code == 1 { "sources with an error" } else { "sources without an error" }, 1);
        if code != Some(want_code) { return vec![("wrong exit status".into(), format!("{want_code} expected: {}", shown_run()))]; }
        if stdout != want_out { return vec![("wrong standard output".into(), format!("{:?} expected: {}", cut(&want_out, 400), shown_run()))]; }
        if stderr != want_err { return vec![("wrong standard error".into(), format!("{:?} expected: {}", cut(&want_err, 400), shown_run()))]; }
        vec![]
    }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("sources with an error", 1500), ("sources without an error", 4000)] }
    fn assumptions(&self) -> Vec<&'static str> { vec!["what the library answers is decided by the other checks; here the program has to pass it on"] }
}
