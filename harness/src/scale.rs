//! The same constructs in many sizes: long lists, long words, long gaps, long chains, deep nesting.
use crate::{judge, total::NESTS};
use serde_json::Value;

/// (before, item (# is its number), between, after)
pub const LISTS: &[(&str, &str, &str, &str)] = &[
    ("x = [", "a#", ", ", "];"), ("x = [", "", ",", "];"), ("x = [", "...a", ",", ",];"), ("f(", "a#", ",", ")"), ("f(", "...a", ", ", ", b);"), ("new f(", "#", ",", ")"), ("x = {", "a#: b", ",", "};"), ("x = {", "a#", ",", ",}"), ("x = {", "m#() { }", ",", "}"), ("x = {", "get a#() { return 1 }", ",", "}"), ("x = {", "...a", ",", "}"),
    ("function f(", "a#", ", ", ") { }"), ("function f(", "a# = #", ", ", ", ...r) { }"), ("x = (", "a#", ",", ") => b"), ("x = (", "a#", ",", ")"), ("x = async (", "a#", ",", ") => b"), ("async(", "a#", ",", ")"), ("x = (", "[a#]", ",", ", ...{ b }) => c"), ("", "a# =>", " ", "b"),
    ("var ", "a#", ", ", ";"), ("let ", "a# = #", ",\n", ""), ("const ", "[a#] = b", ",", ";"), ("var [", "a#", ",", "] = b;"), ("var [", "", ",", "] = b"), ("var {", "a#", ",", ", ...r} = b"), ("var {", "a#: b# = c", ",", "} = b"), ("[", "a#", ",", "] = b;"), ("[", "a.b#", ",", ", ...c] = b"), ("({", "a#: b.c", ",", "} = d)"), ("({", "a# = 1", ",", "} = d)"), ("for (var [", "a#", ",", "] of b);"), ("for ([", "a#", ",", "] of b);"), ("for (", "a#", ",", ";;);"),
    ("", "a#", ", ", ";"), ("", "a#;", "", ""), ("", "a#", "\n", ""), ("", ";", "", ""), ("{", "a#", ";", "}"), ("{", "{ }", " ", "}"), ("'a'", "", "\n'b'", "; x"), ("", "'use strict'", ";", ""), ("switch (a) {", "case #: b;", " ", "}"), ("switch (a) {", "case #:", " ", "default: c }"), ("", "function f#() { }", " ", ""), ("", "class A# { }", "\n", ""), ("class A {", "m#() { }", " ", "}"), ("class A {", ";", "", "}"), ("class A {", "static get a#() { }", " ", "}"), ("", "if (a#) b", "\nelse ", "\nelse c"), ("", "if (a) ;", " ", ""), ("", "l#:", " ", "a"), ("", "try { } catch { }", "", ""), ("", "do a\nwhile (b)", " ", ""), ("", "for (;;) ;", " ", ""),
    ("x = `", "a${ # }", "", "`"), ("x = ", "`a#`", " + ", ""), ("a", "", "`b`", ""), ("x = ", "a#", " + ", ""), ("x = ", "a#", " - ", ";"), ("x = ", "a#", " * ", ";"), ("x = ", "a#", " && ", ""), ("x = ", "a#", " || ", ""), ("x = ", "a#", " ?? ", ""), ("x = ", "a#", " < ", ""), ("x = ", "a#", " in ", ""), ("", "a#", " = ", ""), ("", "a#", " += ", ""), ("x = ", "a# ? b#", " : ", " : c"), ("x = ", "a# ? ", "", "b"), ("a", "", ".b", ""), ("a", "", "?.b", ""), ("a", "", "[0]", ""), ("a", "", "()", ""), ("a", "", "(b)(c)", ".d"), ("new ", "", "new ", "a"), ("new a", "", ".b", "()"), ("x = ", "", "- ", "a"), ("x = ", "", "typeof ", "a"), ("x = ", "", "!", "a"), ("async () => { ", "", "await ", "a }"), ("function* g() { ", "", "yield ", "}"), ("x = ", "/a#/g", ", ", ""),
    ("import {", "a# as b#", ",", "} from 'm'"), ("import {", "a#", ", ", ", } from 'm'"), ("export {", "a# as b#", ",", "};"), ("export {", "a#", ",", "} from 'm'"), ("", "import a# from 'm'", "\n", ""), ("", "export var a#", ";", ""), ("export default [", "a#", ",", "]"),
    // words and gaps
    ("x = ", "", "y", "z"), ("x = a.", "", "b", "b"), ("x = '", "", "y", "'"), ("x = \"", "", "é", "\""), ("x = '", "", "😀", "'"), ("x = `", "", "y", "`"), ("x = `", "", "\n", "`"), ("x = `", "", "变", "${a}`"), ("x = 1", "", "0", ""), ("x = 1.", "", "5", "e3"), ("x = 0x", "", "f", "f"), ("x = 1", "", "_0", ""), ("x = 0b1", "", "01", ""), ("x = /a", "", "b", "/g"), ("x = /[", "", "/", "]/"), ("x = /a/", "", "g", ""), ("var ", "", "变", " = 1"), ("var é", "", "é", " = 1"), ("x = { 'a", "", "b", "': 1 }"), ("import a from '", "", "b", "'"),
    ("a", "", " ", "+ b"), ("a", "", "\t", "= b;"), ("a", "", "\n", "b"), ("a", "", "\r\n", "++b"), ("a;", "", "\u{2028}", "b"), ("return_a /*", "", "*", "*/ + b"), ("a /*", "", "\n", "*/ b"), ("a //", "", "/", "\n b"), ("", "// a #", "\n", "\na = b"), ("", "/* a # */", "", "a = b"), ("", "/*\n*/", " ", "a"), ("", "", "\n", "a = b"), ("", "", " ", "a = b;"), ("a = b", "", " ", ""), ("a = b", "", "\n", ""), ("", "", "\u{a0}", "a"), ("", "", "\u{feff}", "a"),
    ("x = '", "\\x41", "", "'"), ("x = '", "\\u{41}", "", "'"), ("x = '", "\\'", "", "'"), ("x = '", "\\\n", "", "'"), ("x = \\u0061", "", "\\u0062", ""), ("", "", "(", "a))"), ("", "", "[", "a]]"),
];
pub fn sizes(thorough: bool) -> Vec<usize> { let mut v = vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 81, 99, 100, 101, 120, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513]; if thorough { v.extend([10, 12, 14, 18, 19, 30, 70, 80, 90, 110, 150, 400, 700, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097]); } v }
pub fn list(l: &(&str, &str, &str, &str), n: usize) -> String {
    let (before, item, between, after) = l;
    let mut s = before.to_string();
    for i in 0..n { if i > 0 || item.is_empty() { s += between; } s += &item.replace('#', &i.to_string()); }
    s + after
}
/// Chains that are read by recursion, and take stack.
fn recursive(l: &(&str, &str, &str, &str)) -> bool { matches!(l.2, " = " | " += " | " : " | "\nelse " | "new " | "- " | "typeof " | "!" | "await " | "yield " | "(" | "[") || l.1.ends_with(['>', '?', ':', ')']) && l.2.len() < 2 || l.0 == "new " || l.1.contains("=>") }
pub fn sources(thorough: bool) -> Vec<String> { sources_to(&sizes(thorough)) }
fn sources_to(sizes: &[usize]) -> Vec<String> {
    let mut v = vec![];
    for l in LISTS { for n in sizes.iter().copied() { if n <= 100 || !recursive(l) { v.push(list(l, n)); } } }
    for (open, close, again) in NESTS { for n in [2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 24, 32, 33, 40] { if n <= 5 || !again { v.push(format!("{}{}{}", open.repeat(n), "a", close.repeat(n))); } } }
    // far along in the file
    for s in ["a = b", "function f(a, [b] = c) { return `d${e}f` }", "a ? b.c[d](e) : /f/g", "class A extends B { static get c() { } }\n export_a", "for (var [a, b] of c) d: { break d }", "x = ({ a, b = 1 }) => c", "'s' + é"] { for n in [254, 65530, 65536, 70000] { v.push(format!("{}{s}", " ".repeat(n))); v.push(format!("{}{s}", "\n".repeat(n))); v.push(format!("/*{}*/{s}", "é".repeat(n / 2))); } }
    v
}
pub fn jobs(thorough: bool) -> Vec<Value> { as_jobs(sources(thorough)) }
pub fn jobs_to(max: usize) -> Vec<Value> { as_jobs(sources_to(&sizes(true).into_iter().filter(|n| *n <= max).collect::<Vec<_>>())) }
fn as_jobs(v: Vec<String>) -> Vec<Value> { v.iter().map(|s| judge::job(s, s.starts_with("import") || s.starts_with("export"))).collect() }
/// With an error after, before or on the next line of them.
pub fn broken(thorough: bool) -> Vec<Value> { sources(thorough).iter().flat_map(|s| [format!("{s} )"), format!("{s}\n )\nc"), format!("; ) {s}"), format!("{s}\n\t@ é"), s[..s.char_indices().last().map_or(0, |c| c.0)].to_owned()]).map(|s| { let m = s.starts_with("import") || s.starts_with("export"); judge::job(&s, m) }).collect() }
