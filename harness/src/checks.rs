//! The checks of the parse trees: one per area of the grammar, plus positions and rejection.
use crate::check::*;
use crate::{edits, gen, judge, matrix, mutate, pool::root, rng::Rng, scale};
use serde_json::{json, Value};

pub fn read_jobs(file: &str) -> Vec<Value> {
    std::fs::read_to_string(root().join("corpus").join(file)).unwrap_or_default().lines().filter(|l| !l.trim().is_empty() && !l.starts_with("//")).map(|l| crate::pool::from_str(l).unwrap_or_else(|e| panic!("{file}: {e}: {l}"))).collect()
}
/// The sources the project's own tests use, as scripts and as modules, and the sources on which defects were found.
pub fn corpus() -> Vec<Value> {
    let mut v = vec![];
    for j in read_jobs("seeds.jsonl") { for ty in ["script", "module"] { v.push(json!({"src": j["src"], "type": ty})); } }
    v.extend(read_jobs("regress.jsonl"));
    v
}
pub struct Source { pub src: String, pub module: bool, pub mutated: bool }
impl Source { pub fn job(&self) -> Value { judge::job(&self.src, self.module) } }
/// A generated source (a fifth from the tables); with probability `mutp` percent its tokens are mutated, with `charp` percent of those its characters too.
pub fn source(r: &mut Rng, p: &gen::Profile, mutp: usize, charp: usize) -> Source {
    if r.pct(20) { return tabled(r, "", p.module, mutp / 2, charp); }
    let mut pr = gen::program(r, p);
    let m = r.pct(mutp);
    if m { let d = gen::program(r, p); mutate::tokens(r, &mut pr.toks, &d.toks); }
    let st = *r.pick(&[gen::Style::Plain, gen::Style::Plain, gen::Style::Tight, gen::Style::Wild]);
    let mut src = gen::render(r, &pr.toks, pr.module, st, 8).src;
    if m && r.pct(charp) { src = mutate::chars(r, &src); }
    Source { src, module: pr.module, mutated: m }
}
/// The tokens of a source, each with whether a line break was before it; None where the plain tokens do not tell.
pub fn pieces(src: &str) -> Option<Vec<gen::Tok>> {
    if src.contains(['/', '`', '\\', '#', '@']) || src.contains("<!--") || src.contains("-->") { return None; }
    let (t, bad) = crate::reflex::Lex { src, html: false }.all();
    if bad { return None; }
    Some(t.iter().map(|t| gen::Tok { s: src[t.start..t.end].to_owned(), no_nl: true, want_nl: t.fol }).collect())
}
fn written(r: &mut Rng, toks: &mut Vec<gen::Tok>, module: bool, style: gen::Style) -> String {
    for (i, t) in toks.iter_mut().enumerate() { if t.want_nl && i > 0 { t.no_nl = false; } }
    gen::render(r, toks, module, style, 0).src
}
/// A source from the tables of a property (of all for ""), sometimes with other white space, sometimes with an edit.
pub fn tabled(r: &mut Rng, id: &str, modules: usize, mutp: usize, charp: usize) -> Source {
    let mut src = matrix::one(r, id);
    let module = src.contains("import") || src.contains("export") || r.pct(modules);
    let mutated = r.pct(mutp);
    if mutated || r.pct(30) { if let Some(mut toks) = pieces(&src) {
        if mutated { let d = pieces(&matrix::one(r, id)).unwrap_or_default(); mutate::tokens(r, &mut toks, &d); }
        let st = *r.pick(&[gen::Style::Plain, gen::Style::Tight, gen::Style::Wild, gen::Style::Wild]);
        src = written(r, &mut toks, module, st);
    } }
    if mutated && r.pct(charp) { src = mutate::chars(r, &src); }
    Source { src, module, mutated }
}
/// Every source of the tables of a property, as script and as module.
fn tables(id: &str) -> Vec<Value> { matrix::all(id).iter().flat_map(|s| [judge::job(s, false), judge::job(s, true)]).collect() }

fn seed_pieces() -> Vec<Vec<gen::Tok>> { corpus().iter().filter_map(|j| pieces(j["src"].as_str()?)).filter(|t| t.len() > 1 && t.len() < 60).collect() }

pub struct Trees { pub id: &'static str, pub profiles: &'static [(&'static str, u32)], pub mutp: usize, pub charp: usize, pub spans: bool, pub n: (u64, u64), pub rule: &'static str, pub small: usize, pub table: usize, pub seeds: std::sync::OnceLock<Vec<Vec<gen::Tok>>>, pub floor: &'static [(&'static str, u64)] }
impl Check for Trees {
    fn id(&self) -> &'static str { self.id }
    fn rule(&self) -> &'static str { self.rule }
    fn size(&self) -> (u64, u64) { self.n }
    fn fixed(&self, thorough: bool) -> Vec<Value> { let mut v = corpus(); v.extend(scale::jobs(thorough)); if self.id == "C11" { v.extend(scale::broken(thorough)); } v.extend(tables(self.id)); if !self.spans { v.extend(edits::all(self.id, if thorough { 1 } else if self.id == "C11" { 5 } else { 3 })); } v }
    fn make(&self, r: &mut Rng, _: u64) -> Value {
        if r.pct(self.table) {
            let edits = if self.spans { 0 } else if self.id == "C11" { 85 } else { 25 };
            // (the project's own test sources, edited)
            if edits > 80 && r.pct(35) { if let Some(mut toks) = self.seeds.get_or_init(seed_pieces).get(r.below(self.seeds.get_or_init(seed_pieces).len())).cloned() { let (d, module) = (pieces(&matrix::one(r, "")).unwrap_or_default(), r.pct(40)); mutate::tokens(r, &mut toks, &d); return judge::job(&written(r, &mut toks, module, gen::Style::Plain), module); } }
            return tabled(r, self.id, 40, edits, self.charp).job();
        }
        let i = r.weighted(&self.profiles.iter().map(|p| p.1).collect::<Vec<_>>());
        let mut p = gen::profile(self.profiles[i].0);
        if r.pct(self.small) { p.size = (2, 14); }
        if self.spans { p.unicode = 20; }
        source(r, &p, self.mutp, self.charp).job()
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols { judge::tree(job, t, o, self.spans) }
    fn floor(&self) -> Vec<(&'static str, u64)> { self.floor.to_vec() }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the reference reader (acorn 8, an independent ECMAScript parser) and its conversion to this project's tree are right", "constructs on which the project's own tests pin another behaviour, or that it does not support, are left undecided (counted)"] }
}
