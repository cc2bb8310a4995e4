//! Reference tokenizer: ECMA-262's lexical grammar (plus Annex B html-like comments), written from the
//! specification and from what this project's own lexer tests pin (values drop the escaping backslash,
//! numbers with a leading zero are rejected). It works on byte offsets and keeps no state besides the
//! position and whether a line break has been passed, so it can be asked for a token at any offset.
use serde_json::{json, Value};
use unicode_id::UnicodeID;

pub const KEYWORDS: &[&str] = &["await", "as", "async", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "from", "function", "get", "if", "implements", "import", "in", "instanceof", "interface", "let", "new", "null", "of", "package", "private", "protected", "public", "return", "set", "static", "super", "switch", "target", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield"];
/// spelling and serialised name
pub const PUNCT: &[(&str, &str)] = &[
    (">>>=", "TripleGreaterEqual"),
    ("...", "TripleDot"), ("===", "TripleEqual"), ("!==", "ExclamationDoubleEqual"), ("**=", "DoubleStarEqual"), ("<<=", "DoubleLessEqual"), (">>=", "DoubleGreaterEqual"), (">>>", "TripleGreaterThan"),
    ("=>", "EqualGreater"), ("==", "DoubleEqual"), ("!=", "NotEqual"), ("<=", "LessEqual"), (">=", "GreaterEqual"), ("&&", "DoubleAmpersand"), ("||", "DoublePipe"), ("??", "DoubleQuestionMark"), ("?.", "QuestionMarkDot"), ("++", "DoublePlus"), ("--", "DoubleMinus"), ("+=", "PlusEqual"), ("-=", "MinusEqual"), ("*=", "StarEqual"), ("/=", "SlashEqual"), ("%=", "PercentEqual"), ("&=", "AmpersandEqual"), ("|=", "PipeEqual"), ("^=", "CaretEqual"), ("<<", "DoubleLessThan"), (">>", "DoubleGreaterThan"), ("**", "DoubleStar"),
    ("{", "BracketOpen"), ("}", "BracketClose"), ("(", "ParenOpen"), (")", "ParenClose"), ("[", "BraceOpen"), ("]", "BraceClose"), (".", "Dot"), (";", "SemiColon"), (",", "Comma"), ("<", "LessThan"), (">", "GreaterThan"), ("+", "Plus"), ("-", "Minus"), ("*", "Star"), ("/", "Slash"), ("%", "Percent"), ("&", "Ampersand"), ("|", "Pipe"), ("^", "Caret"), ("!", "Exclamation"), ("~", "Tilde"), ("?", "QuestionMark"), (":", "Colon"), ("=", "Equal"),
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Normal, Regex, Template }
#[derive(Clone, Debug, PartialEq)]
pub struct Tok { pub value: Value, pub fol: bool, pub start: usize, pub end: usize /* real end */, pub shown_end: usize }
impl Tok {
    pub fn json(&self) -> Value { json!({"value": self.value, "first_on_line": self.fol, "span": format!("{}:{}", self.start, self.shown_end)}) }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Tok(Tok), End, Err }

pub fn is_line_end(c: char) -> bool { matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}') }
pub fn is_space(c: char) -> bool { matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}') }
pub fn id_start(c: char) -> bool { c == '$' || c == '_' || c.is_ascii_alphabetic() || (c as u32 > 127 && c.is_id_start()) }
pub fn id_part(c: char) -> bool { id_start(c) || c.is_ascii_digit() || c == '\u{200c}' || c == '\u{200d}' || (c as u32 > 127 && c.is_id_continue()) }

pub struct Lex<'a> { pub src: &'a str, pub html: bool }
impl<'a> Lex<'a> {
    fn at(&self, p: usize) -> Option<char> { self.src[p..].chars().next() }
    /// skips white space and comments: (position, passed a line break) or None on an error
    fn skip(&self, mut p: usize, mut fol: bool) -> Option<(usize, bool)> {
        loop {
            let rest = &self.src[p..];
            let Some(c) = rest.chars().next() else { return Some((p, fol)) };
            if is_line_end(c) { fol = true; p += c.len_utf8(); }
            else if is_space(c) { p += c.len_utf8(); }
            else if rest.starts_with("//") { p += rest.find(is_line_end).unwrap_or(rest.len()); fol = true; }
            else if rest.starts_with("/*") { let e = rest[2..].find("*/")?; if rest[..e + 2].contains(is_line_end) { fol = true; } p += e + 4; }
            else if rest.starts_with("<!--") { if !self.html { return None; } p += rest.find(is_line_end).unwrap_or(rest.len()); fol = true; }
            else if fol && rest.starts_with("-->") { if !self.html { return None; } p += rest.find(is_line_end).unwrap_or(rest.len()); }
            else { return Some((p, fol)); }
        }
    }
    /// The token at or after `p`.
    pub fn next(&self, p: usize, fol: bool, mode: Mode) -> Out {
        if mode == Mode::Template { return self.template_rest(p); }
        let Some((p, fol)) = self.skip(p, fol) else { return Out::Err };
        let rest = &self.src[p..];
        let Some(c) = rest.chars().next() else { return Out::End };
        let d = |c: Option<char>| c.map_or(false, |c| c.is_ascii_digit());
        let got = if c == '/' && mode == Mode::Regex { self.regex(p) }
            else if c.is_ascii_digit() || (c == '.' && d(rest[1..].chars().next())) { self.number(p) }
            else if c == '"' || c == '\'' { self.string(p, c) }
            else if c == '`' { self.chunk(p + 1).map(|(v, e, more)| (if more { json!({"TemplateHead": v}) } else { json!({"Literal": {"Template": {"parts": [{"String": v}]}}}) }, e)) }
            else if id_start(c) || c == '\\' { self.word(p) }
            else if rest.starts_with("..") && !rest.starts_with("...") { None }
            else if rest.starts_with("?.") && d(rest[2..].chars().next()) { Some((json!({"Punctuator": "QuestionMark"}), p + 1)) }
            else { PUNCT.iter().find(|(s, _)| rest.starts_with(s)).map(|(s, n)| (json!({"Punctuator": n}), p + s.len())) };
        match got { Some((value, end)) => Out::Tok(Tok { value, fol, start: p, end, shown_end: self.shown_end(end) }), None => Out::Err }
    }
    // A token that ends in a non-ASCII character ends, as the project's tests pin, at the first byte of
    // that character plus its length in UTF-16 units.
    fn shown_end(&self, end: usize) -> usize { let c = self.src[..end].chars().next_back().unwrap(); end - c.len_utf8() + c.len_utf16() }
    fn word(&self, start: usize) -> Option<(Value, usize)> {
        let mut p = start; let mut w = String::new();
        while let Some(c) = self.at(p) {
            if c == '\\' { let (c, e) = self.escape(p)?; if !(if w.is_empty() { id_start(c) } else { id_part(c) }) { return None; } w.push(c); p = e; }
            else if id_part(c) { w.push(c); p += c.len_utf8(); } else { break; }
        }
        let value = if KEYWORDS.contains(&w.as_str()) { let mut k = w.clone(); k[..1].make_ascii_uppercase(); json!({"Keyword": k}) } else { json!({"Identifier": w}) };
        Some((value, p))
    }
    fn escape(&self, p: usize) -> Option<(char, usize)> {
        let r = self.src[p..].strip_prefix("\\u")?;
        let (hex, len) = if let Some(r) = r.strip_prefix('{') { let e = r.find('}')?; (&r[..e], e + 4) } else { (r.get(..4)?, 6) };
        if hex.is_empty() || !hex.bytes().all(|b| b.is_ascii_hexdigit()) { return None; }
        let h = hex.trim_start_matches('0'); if h.len() > 6 { return None; }
        char::from_u32(u32::from_str_radix(if h.is_empty() { "0" } else { h }, 16).ok()?).map(|c| (c, p + len))
    }
    /// digits with single separators between them: end, or None if malformed; may be empty
    fn digits(&self, p: usize, radix: u32) -> Option<usize> {
        let r = &self.src[p..]; let e = r.find(|c: char| !(c == '_' || c.is_digit(radix))).unwrap_or(r.len());
        let s = &r[..e]; if s.starts_with('_') || s.ends_with('_') || s.contains("__") { return None; }
        Some(p + e)
    }
    fn number(&self, start: usize) -> Option<(Value, usize)> {
        let r = self.src[start..].as_bytes();
        let radix = if r[0] == b'0' { match r.get(1) { Some(b'x' | b'X') => 16, Some(b'o' | b'O') => 8, Some(b'b' | b'B') => 2, Some(b'0'..=b'9' | b'_') => return None, _ => 10 } } else { 10 };
        let mut p;
        if radix != 10 { p = self.digits(start + 2, radix)?; if p == start + 2 { return None; } }
        else {
            p = self.digits(start, 10)?;
            if self.at(p) == Some('.') { p = self.digits(p + 1, 10)?; }
            if matches!(self.at(p), Some('e' | 'E')) { p += 1; if matches!(self.at(p), Some('+' | '-')) { p += 1; } let e = self.digits(p, 10)?; if e == p { return None; } p = e; }
        }
        if self.at(p).map_or(false, id_start) { return None; }
        Some((json!({"Literal": {"Number": {"raw": &self.src[start..p]}}}), p))
    }
    fn string(&self, start: usize, q: char) -> Option<(Value, usize)> {
        let mut v = String::new(); let mut p = start + 1;
        loop {
            let c = self.at(p)?; p += c.len_utf8();
            if c == q { return Some((json!({"Literal": {"String": {"value": v, "delimiter": q}}}), p)); }
            if c == '\n' || c == '\r' { return None; }
            if c == '\\' { let n = self.at(p)?; p += n.len_utf8(); v.push(n); if n == '\r' && self.at(p) == Some('\n') { v.push('\n'); p += 1; } } else { v.push(c); }
        }
    }
    /// template characters from p: (value, end, a substitution follows)
    fn chunk(&self, mut p: usize) -> Option<(String, usize, bool)> {
        let mut v = String::new();
        loop {
            let r = &self.src[p..];
            if r.starts_with('`') { return Some((v, p + 1, false)); }
            if r.starts_with("${") { return Some((v, p + 2, true)); }
            let mut c = r.chars().next()?; p += c.len_utf8();
            if c == '\\' { c = self.at(p)?; p += c.len_utf8(); }
            v.push(c);
        }
    }
    fn template_rest(&self, p: usize) -> Out {
        if self.at(p) != Some('}') { return Out::Err; }
        match self.chunk(p + 1) { Some((v, end, more)) => Out::Tok(Tok { value: if more { json!({"TemplateMiddle": v}) } else { json!({"TemplateTail": v}) }, fol: false, start: p, end, shown_end: self.shown_end(end) }), None => Out::Err }
    }
    fn regex(&self, start: usize) -> Option<(Value, usize)> {
        let mut p = start + 1; let mut class = false;
        loop {
            let c = self.at(p)?; p += c.len_utf8();
            if is_line_end(c) { return None; }
            match c {
                '\\' => { let n = self.at(p)?; if is_line_end(n) { return None; } p += n.len_utf8(); }
                '[' => class = true, ']' => class = false,
                '/' if !class => break, _ => {}
            }
        }
        while let Some(c) = self.at(p) { if id_part(c) { p += c.len_utf8() } else { break } }
        Some((json!({"Literal": {"Regexp": &self.src[start..p]}}), p))
    }
    /// all tokens read one after the other in the default mode, and whether that ended in an error
    pub fn all(&self) -> (Vec<Tok>, bool) {
        let mut v = vec![]; let (mut p, mut fol) = (0, true);
        loop { match self.next(p, fol, Mode::Normal) { Out::Tok(t) => { p = t.end; fol = false; v.push(t); } Out::End => return (v, false), Out::Err => return (v, true) } }
    }
}
