//! Source mutations: token edits on generated programs and character edits on text.
use crate::gen::Tok;
use crate::rng::Rng;

pub const SOUP: &[&str] = &["(", ")", "[", "]", "{", "}", ";", ",", ".", "...", "=>", "=", "+", "-", "*", "/", "%", "**", "++", "--", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "??", "?", "?.", ":", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=",
    "a", "b", "x", "foo", "1", "0.5", "\"s\"", "'t'", "`t`", "/r/g", "null", "true", "this", "async", "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "finally", "for", "function", "get", "if", "import", "in", "instanceof", "let", "new", "of", "return", "set", "static", "super", "switch", "throw", "try", "typeof", "var", "void", "while", "with", "yield", "as", "from", "target", "eval", "arguments", "implements", "interface", "package", "private", "protected", "public", "as", "from", "of", "meta"];

pub fn tokens(r: &mut Rng, toks: &mut Vec<Tok>, donor: &[Tok]) {
    let n = [1, 1, 1, 1, 2, 3][r.below(6)];
    for _ in 0..n {
        let p = r.below(toks.len() + 1);
        let fresh = |r: &mut Rng| Tok { s: r.pick(SOUP).to_string(), no_nl: false, want_nl: r.pct(5) };
        match r.below(12) {
            0..=2 if p < toks.len() => { toks.remove(p); }
            3 | 4 => { let t = fresh(r); toks.insert(p, t); }
            5 if p < toks.len() => toks[p] = fresh(r),
            6 if !toks.is_empty() => { let (a, b) = (r.below(toks.len()), r.below(toks.len())); toks.swap(a, b); }
            7 if p < toks.len() => { let t = toks[p].clone(); toks.insert(p, t); }
            8 if !donor.is_empty() => { let a = r.below(donor.len()); let e = (a + r.range(1, 6)).min(donor.len()); for (i, t) in donor[a..e].iter().enumerate() { toks.insert(p + i, t.clone()); } }
            9 if p < toks.len() => { let e = (p + r.range(1, 4)).min(toks.len()); toks.drain(p..e); }
            10 if p < toks.len() => { toks[p].no_nl = false; toks[p].want_nl = true; }
            _ => if p < toks.len() && p > 0 { toks.swap(p - 1, p); },
        }
    }
}
const CHARS: &[char] = &['(', ')', '{', '}', '[', ']', ';', ',', '.', '=', '>', '<', '+', '-', '*', '/', '\\', '"', '\'', '`', '$', ' ', '\n', '\r', '\t', 'a', 'e', 'u', 'x', '0', '1', '_', '!', '?', ':', '&', '|', '%', '^', '~', '#', '@', 'é', '变', '😀', '\u{2028}', '\u{a0}', '\u{feff}', '\u{200d}', '\0', 'n', 'b'];
pub fn chars(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..[1, 1, 2, 4][r.below(4)] {
        let p = r.below(c.len() + 1);
        match r.below(8) {
            0..=2 if p < c.len() => { c.remove(p); }
            3 | 4 => c.insert(p, *r.pick(CHARS)),
            5 if p < c.len() => c[p] = *r.pick(CHARS),
            6 if p < c.len() => c.truncate(p),
            _ => if p < c.len() { let x = c[p]; c.insert(p, x); },
        }
    }
    c.into_iter().collect()
}
pub fn any_char(r: &mut Rng) -> char { *r.pick(CHARS) }
