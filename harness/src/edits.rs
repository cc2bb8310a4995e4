//! Every single-token edit of a list of small programs that together use every construct: deleting,
//! doubling, swapping, replacing by something of the same kind or by anything, inserting anything.
use crate::{checks::pieces, gen, judge, mutate::SOUP, rng::Rng};
use serde_json::Value;

/// (property the construct belongs to, source)
pub const BASE: &[(&str, &str)] = &[
    ("C04", "x = a ? b : c ? d : e;"), ("C04", "x = a.b.c[d](e, ...f).g;"), ("C04", "x = new a.b(c, d).e(f);"), ("C04", "x = new new a()(b);"), ("C04", "new a; new b.c; new d[e]"), ("C04", "x = a?.b?.[c]?.(d).e;"), ("C04", "a(b)(c)[d]; a(...b, c,)"),
    ("C04", "x = { a, b: c, [d]: e, 'f': g, 1: h, ...i, };"), ("C04", "x = [a, , ...b, [c], , ];"), ("C04", "x = - a + + b - -- c * d ++ / ~ e % ! f ;"), ("C04", "x = typeof a in void b instanceof delete c.d;"),
    ("C04", "x = (a ?? b) || (c && d | e ^ f & g);"), ("C04", "x = a == b != c === d !== e;"), ("C04", "x = a < b > c <= d >= e << f >> g >>> h;"), ("C04", "x = (-a) ** b ** c;"), ("C04", "a = b += c -= d *= e /= f %= g **= h ;"), ("C04", "a <<= b; a >>= b; a >>>= b; a &= b; a |= b; a ^= b;"),
    ("C04", "x = `a` + `b${ c }d` + e `f${ g }h${ i }j` [ k ]"), ("C04", "x = /a/ + b / c / /d/g . e"), ("C04", "x = (a, b), c, (d, e)"), ("C04", "x = a || b || c && d && e"), ("C04", "x = [1, 'a', null, true, false, this, 0x1f]"), ("C04", "a.b = c[d] = e; a.if = b.class"), ("C04", "async function f() { x = await a + await b; await c }"), ("C04", "function* f() { x = yield a, yield; x = yield* b; yield\nc }"),
    ("C04", "import(a + b).c(d); x = import('m')"), ("C04", "function f() { new new.target(a).b }"),
    ("C05", "var a = b, [c, d = e, , ...f] = g, { h, i = j, k: l, [m]: n, ...o } = p;"), ("C05", "let [{ a: [b] }] = c"), ("C05", "const { a: { b: [c] = d } = e } = f"), ("C05", "[a, b.c, d[e] = f, , ...g] = h;"), ("C05", "({ a, b: c, d = e, f: g.h, i: [j] = k, ...l } = m);"), ("C05", "[[a], { b }] = [c, ...d.e] = f"), ("C05", "[...[a, b]] = c"),
    ("C05", "(a, b) => c; () => d; (a) => { e }"), ("C05", "a => b => c"), ("C05", "(a = 1, [b], { c, d: e = f }, ...g) => h"), ("C05", "async (a, b = c) => d; async () => { }; async a => b"), ("C05", "async(a, ...b); async (c)\n(d)"), ("C05", "x = (a, b, (c)), (d)"), ("C05", "(([a], { b }) => c)(d)"), ("C05", "(...[a, b]) => c; (a, ...{ b }) => d"),
    ("C05", "for (var a of b); for (let [c] of d); for (const { e } of f);"), ("C05", "for (a of b) c; for (a.b of c) d; for ([a, b] of c); for ({ d, e: f } of g);"), ("C05", "for (a in b) c; for (var d in e, f); for ([g] in h); for (let i in j);"), ("C05", "async function f() { for await (var a of b); for await (c of d); for await ([e] of f) g }"), ("C05", "try { } catch ([a, { b }]) { }"), ("C05", "function f([a], { b = c }, ...[d]) { }"),
    ("C06", "if (a) b; else if (c) d; else { e }"), ("C06", "for (var a = b, c = d; e; f) g;"), ("C06", "for (;;) ; for (a; ; ) b; for (let c; d; );"), ("C06", "while (a) b; do c; while (d) e"), ("C06", "do { a } while (b); do\nc\nwhile (d)"), ("C06", "switch (a) { case b: c; d; case e: default: f; case g: { h } }"), ("C06", "switch (a) { } switch (b) { default: }"), ("C06", "try { a } catch (b) { c } finally { d }"), ("C06", "try { a } catch { b } try { c } finally { d }"), ("C06", "a: while (b) { c: { break a; continue a; } break; continue }"),
    ("C06", "function f() { if (a) return b; return; return c\n}"), ("C06", "throw a; throw new b(c)"), ("C06", "with (a) b; with (c) { d }"), ("C06", "debugger; ; {} { ; } debugger"), ("C06", "var a; var b = c, d; let e, f = g; const h = i"), ("C06", "a\nb\n++c\nd\n--e"), ("C06", "{ a\nb } { c }\nd"), ("C06", "'use strict'; 'a'; b"), ("C06", "let a\nlet\nb"), ("C06", "var a\n, b\n= c"),
    ("C07", "function a(b, c = d, ...e) { f }"), ("C07", "x = function a() { }, function (b) { }"), ("C07", "function* a(b) { yield c } x = function* () { }"), ("C07", "async function a(b) { await c } x = async function () { }"), ("C07", "async function* a() { for await (b of c) yield* d }"), ("C07", "class A { constructor(a) { b } c() { } static d() { } }"), ("C07", "class A extends B.c { constructor() { super(a, ...b); super.c(d) } }"), ("C07", "class A extends (b, c) { get a() { } set a(b) { } static get c() { } static set c(d) { } }"), ("C07", "class A { *a() { } async b() { } async *c() { } static async *d() { } ; ; }"), ("C07", "class A { [a]() { } 'b'() { } 1() { } static [c]() { } get [d]() { } if() { } }"), ("C07", "class A { get() { } set() { } static() { } async() { } static static() { } }"),
    ("C07", "x = class { }, class A extends class { } { }"), ("C07", "x = { a() { }, *b() { }, async c() { }, async *d() { }, get e() { }, set e(f) { } }"), ("C07", "x = { [a]() { }, 'b'() { }, 1() { }, get [c]() { }, get: 1, set, async, get() { }, async() { } }"), ("C07", "x = { a() { super.b(c); return super[d] } }"), ("C07", "x = () => { return a }, b => ({ c })"),
    ("C08", "import a from 'b';"), ("C08", "import * as a from 'b'"), ("C08", "import { a, b as c, default as d, } from 'e';"), ("C08", "import a, { b } from 'c'; import d, * as e from 'f'"), ("C08", "import 'a'; import { } from 'b'"), ("C08", "export { a, b as c, d as default, }; export { }"), ("C08", "export { a, default as b, c as d } from 'e';"), ("C08", "export * from 'a'; export * as b from 'c'"), ("C08", "export var a = b, c; export let d; export const e = f"), ("C08", "export function a() { } export class b { } export async function* c() { }"), ("C08", "export default a + b; c"), ("C08", "export default function () { } a"), ("C08", "export default class { }"), ("C08", "export default async function a() { }"), ("C08", "x = import.meta.url; import('a')"),
];
const KINDS: &[&[&str]] = &[
    &["(", ")", "[", "]", "{", "}"], &[";", ",", ".", ":", "?", "?.", "...", "=>", "="],
    &["=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=="], &["+", "-", "*", "/", "%", "**", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "<<", ">>", ">>>", "&", "|", "^", "&&", "||", "??", "in", "instanceof", "of"], &["++", "--", "!", "~", "+", "-", "typeof", "void", "delete", "await", "yield", "new"],
    &["if", "while", "with", "for", "switch", "do", "return", "throw", "break", "continue", "try", "catch", "finally", "else", "case", "default", "function", "class", "var", "let", "const", "import", "export"], &["async", "get", "set", "static", "of", "from", "as", "default", "await", "yield", "let", "extends", "target", "meta"],
    &["null", "true", "this", "super", "1", "'s'", "a", "(a)", "[a]", "{ a }", "a.b", "a()", "`t`"],
];
fn like(s: &str) -> Vec<String> {
    let mut v: Vec<&str> = KINDS.iter().filter(|k| k.contains(&s)).flat_map(|k| k.iter().copied()).filter(|k| *k != s).collect();
    if v.is_empty() { v = KINDS[7].iter().copied().filter(|k| *k != s).collect(); if s.starts_with(|c: char| c.is_ascii_alphabetic()) { v.extend(["let", "await", "yield", "eval", "arguments", "static", "if", "enum"]); } }
    let mut v: Vec<String> = v.into_iter().map(String::from).collect();
    // (a word with a meaning, misspelt)
    if s.len() > 1 && s.chars().all(|c| c.is_ascii_lowercase()) { v.extend([format!("{s}s"), format!("x{s}"), s[..s.len() - 1].to_owned(), format!("{}{}", s[..1].to_uppercase(), &s[1..])]); }
    v.sort(); v.dedup(); v
}
fn tok(s: &str) -> gen::Tok { gen::Tok { s: s.to_owned(), no_nl: true, want_nl: false } }
/// The edits that keep near the program, and those that put anything anywhere.
fn edits(toks: &[gen::Tok]) -> (Vec<Vec<gen::Tok>>, Vec<Vec<gen::Tok>>) {
    let (mut near, mut far) = (vec![], vec![]);
    let with = |from: usize, to: usize, put: &[gen::Tok]| [&toks[..from], put, &toks[to..]].concat();
    for i in 0..toks.len() {
        near.push(with(i, i + 1, &[]));
        near.push(with(i, i, &toks[i..i + 1]));
        if i + 1 < toks.len() { near.push(with(i, i + 2, &[toks[i + 1].clone(), toks[i].clone()])); near.push(with(i, i + 2, &[])); }
        let mut line = toks[i].clone(); line.want_nl = true; near.push(with(i, i + 1, &[line]));
        for s in like(&toks[i].s) { let mut t = tok(&s); t.want_nl = toks[i].want_nl; near.push(with(i, i + 1, &[t.clone()])); t.want_nl = true; far.push(with(i, i + 1, &[t])); }
        near.push(toks[..i].to_vec());
        for s in SOUP { far.push(with(i, i, &[tok(s)])); far.push(with(i, i + 1, &[tok(s)])); }
    }
    for s in SOUP { far.push(with(toks.len(), toks.len(), &[tok(s)])); }
    (near, far)
}
/// All edits of the programs of a property ("C11": of all), the far ones only every `nth`.
pub fn all(id: &str, nth: usize) -> Vec<Value> {
    let mut out = vec![]; let mut seen = std::collections::HashSet::new(); let mut r = Rng::new(1, 1);
    for (k, (p, src)) in BASE.iter().enumerate() {
        if id != "C11" && id != *p { continue; }
        // (the plain tokens do not tell in these: written with a blank between every two)
        let toks = pieces(src).unwrap_or_else(|| src.split(' ').map(tok).collect());
        let (near, far) = edits(&toks);
        // (a different part of the far ones for each program)
        for mut t in near.into_iter().chain(far.into_iter().enumerate().filter(|(i, _)| (i + k) % nth == 0).map(|x| x.1)) {
            for (i, t) in t.iter_mut().enumerate() { if t.want_nl && i > 0 { t.no_nl = false; } }
            let text = gen::render(&mut r, &t, false, gen::Style::Plain, 0).src;
            let module = *p == "C08" || text.contains("import") || text.contains("export");
            if seen.insert(text.clone()) { out.push(judge::job(&text, module)); }
        }
    }
    out
}
