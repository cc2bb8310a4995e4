//! Random program generator. Emits token sequences following the ECMAScript grammar; whether the
//! outcome is valid in every detail is left to the reference reader, so the generator may be
//! slightly loose where that is cheaper than being exact.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub s: String,
    /// a line break directly before this token would change the meaning
    pub no_nl: bool,
    /// a line break is wanted before this token (a semicolon was left out)
    pub want_nl: bool,
}

#[derive(Clone)]
pub struct Profile {
    pub name: &'static str,
    pub module: usize, // percent of modules
    pub strict: usize, // percent of "use strict"
    pub expr: [u32; NE],
    pub stmt: [u32; NS],
    pub escapes: bool,
    pub unicode: usize,
    pub asi: usize,
    pub size: (usize, usize),
    pub lenient_bits: bool,
    /// avoid the constructs whose tree this project (pinned by its tests) records differently from ECMAScript
    pub no_quirks: bool,
    /// a semicolon is only left out where a line break takes its place
    pub sure_asi: bool,
}

pub const NE: usize = 26;
pub const NS: usize = 26;
// expression kinds
pub const E_IDENT: usize = 0;
pub const E_LIT: usize = 1;
pub const E_STR: usize = 2;
pub const E_TEMPLATE: usize = 3;
pub const E_REGEX: usize = 4;
pub const E_ARRAY: usize = 5;
pub const E_OBJECT: usize = 6;
pub const E_FUNC: usize = 7;
pub const E_CLASS: usize = 8;
pub const E_ARROW: usize = 9;
pub const E_ASYNC_ARROW: usize = 10;
pub const E_PAREN: usize = 11;
pub const E_SEQ: usize = 12;
pub const E_UNARY: usize = 13;
pub const E_UPDATE: usize = 14;
pub const E_BINARY: usize = 15;
pub const E_COND: usize = 16;
pub const E_ASSIGN: usize = 17;
pub const E_MEMBER: usize = 18;
pub const E_CALL: usize = 19;
pub const E_NEW: usize = 20;
pub const E_OPT: usize = 21;
pub const E_TAGGED: usize = 22;
pub const E_SUPER_META: usize = 23;
pub const E_YIELD_AWAIT: usize = 24;
pub const E_DESTRUCT: usize = 25;
// statement kinds
pub const S_EXPR: usize = 0;
pub const S_VAR: usize = 1;
pub const S_BLOCK: usize = 2;
pub const S_EMPTY: usize = 3;
pub const S_IF: usize = 4;
pub const S_FOR: usize = 5;
pub const S_FORIN: usize = 6;
pub const S_FOROF: usize = 7;
pub const S_WHILE: usize = 8;
pub const S_DO: usize = 9;
pub const S_CONT: usize = 10;
pub const S_BREAK: usize = 11;
pub const S_RET: usize = 12;
pub const S_WITH: usize = 13;
pub const S_SWITCH: usize = 14;
pub const S_LABEL: usize = 15;
pub const S_THROW: usize = 16;
pub const S_TRY: usize = 17;
pub const S_DEBUGGER: usize = 18;
pub const S_FUNC: usize = 19;
pub const S_CLASS: usize = 20;
pub const S_IMPORT: usize = 21;
pub const S_EXPORT: usize = 22;
pub const S_DESTRUCT: usize = 23;
pub const S_LEXDECL: usize = 24;
pub const S_ASI: usize = 25;

const BASE_E: [u32; NE] = [30, 12, 8, 4, 3, 5, 6, 3, 2, 4, 2, 5, 2, 6, 4, 14, 4, 7, 9, 9, 4, 4, 2, 3, 4, 2];
const BASE_S: [u32; NS] = [30, 10, 4, 1, 5, 4, 3, 3, 2, 2, 2, 2, 4, 1, 3, 2, 2, 3, 1, 5, 4, 6, 8, 3, 8, 3];

pub fn profile(name: &str) -> Profile {
    let mut p = Profile { name: "mixed", module: 25, strict: 15, expr: BASE_E, stmt: BASE_S, escapes: true, unicode: 6, asi: 20, size: (10, 90), lenient_bits: true, no_quirks: false, sure_asi: false };
    match name {
        "mixed" => {}
        "expr" => {
            p.name = "expr";
            for i in [E_BINARY, E_COND, E_UNARY, E_UPDATE, E_MEMBER, E_CALL, E_NEW, E_OPT, E_TAGGED, E_TEMPLATE, E_REGEX, E_ASSIGN, E_SEQ, E_PAREN, E_ARRAY, E_OBJECT] { p.expr[i] = p.expr[i] * 2 + 4; }
            p.expr[E_FUNC] = 1; p.expr[E_CLASS] = 1;
            p.stmt = [0; NS]; p.stmt[S_EXPR] = 80; p.stmt[S_VAR] = 10; p.stmt[S_RET] = 5; p.stmt[S_FUNC] = 4; p.stmt[S_FOR] = 3;
            p.module = 8;
        }
        "cover" => {
            p.name = "cover";
            for i in [E_ARROW, E_ASYNC_ARROW, E_DESTRUCT, E_PAREN, E_OBJECT, E_ARRAY, E_CALL, E_SEQ] { p.expr[i] = p.expr[i] * 3 + 8; }
            p.stmt = [0; NS]; p.stmt[S_EXPR] = 50; p.stmt[S_DESTRUCT] = 30; p.stmt[S_VAR] = 10; p.stmt[S_LEXDECL] = 10; p.stmt[S_FOROF] = 10; p.stmt[S_FORIN] = 6; p.stmt[S_FUNC] = 6; p.stmt[S_FOR] = 3;
            p.module = 8;
        }
        "stmt" => {
            p.name = "stmt";
            for i in 0..NS { if i != S_EXPR { p.stmt[i] = p.stmt[i] * 2 + 4; } }
            p.stmt[S_IMPORT] = 1; p.stmt[S_EXPORT] = 1; p.stmt[S_ASI] = 20;
            p.asi = 45; p.module = 10; p.size = (15, 90);
        }
        "func" => {
            p.name = "func";
            for i in [E_FUNC, E_CLASS, E_ARROW, E_ASYNC_ARROW, E_OBJECT, E_SUPER_META, E_YIELD_AWAIT] { p.expr[i] = p.expr[i] * 3 + 8; }
            for i in [S_FUNC, S_CLASS, S_RET] { p.stmt[i] = p.stmt[i] * 4 + 10; }
            p.strict = 25; p.module = 15; p.size = (15, 110);
        }
        "module" => {
            p.name = "module"; p.module = 100;
            p.stmt[S_IMPORT] = 60; p.stmt[S_EXPORT] = 80; p.size = (6, 60);
        }
        "strict" => { p.name = "strict"; p.strict = 60; p.module = 30; for i in [S_FUNC, S_CLASS, S_WITH] { p.stmt[i] += 8; } }
        _ => panic!("profile {name}"),
    }
    p
}

#[derive(Clone, Copy, Default)]
pub struct Cx {
    pub strict: bool, pub yield_: bool, pub await_: bool, pub ret: bool, pub in_fn: bool, pub method: bool, pub super_call: bool,
    pub loop_: bool, pub switch: bool, pub no_in: bool, pub ya_tainted: bool, pub module: bool, pub params: bool,
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: &'a Profile,
    pub out: Vec<Tok>,
    pub budget: isize,
    fresh: usize,
    labels: Vec<String>,
    no_nl_next: bool,
    want_nl_next: bool,
    cover_depth: usize,
}

const IDENTS: &[&str] = &["a", "b", "c", "d", "x", "y", "z", "foo", "bar", "baz", "i", "obj", "fn1", "$", "_", "$a", "_b1", "Abc", "async", "get", "set", "of", "as", "from", "target", "undefined", "NaN", "arguments", "constructor", "prototype", "meta", "functional", "newer", "ins", "instanceofx", "nullable", "thisArg", "trueish", "vary", "iff", "doe"];
const UNI_IDENTS: &[&str] = &["é", "ñandu", "变量", "Ωmega", "aé", "x変", "𝒳", "a𝒳b", "µ", "ªb", "क्षa", "ユ", "ℵ0", "Ꮳ"];
const ESC_IDENTS: &[&str] = &["\\u0061bc", "x\\u{62}", "\\u{1d4b3}", "a\\u0062", "\\u00e9t"];
const SLOPPY: &[&str] = &["implements", "interface", "package", "private", "protected", "public", "static", "let", "eval"];
const PROPS: &[&str] = &["if", "else", "for", "while", "do", "return", "function", "class", "new", "delete", "typeof", "void", "in", "instanceof", "this", "null", "true", "false", "default", "import", "export", "super", "yield", "await", "let", "static", "async", "get", "set", "of", "with", "enum", "try", "catch", "finally", "switch", "case", "throw", "const", "var", "break", "continue", "debugger", "extends", "as", "from", "target", "eval", "arguments", "constructor", "prototype", "implements", "interface", "package", "private", "protected", "public"];
const NUMS: &[&str] = &["0", "1", "2", "7", "10", "42", "1.5", ".5", "5.", "0.25", "1e3", "2E-3", "1e+10", "0x1F", "0XaB", "0b101", "0B1", "0o17", "0O7", "1_000", "0x1_F", "1.5e2", ".5e1", "5.e1", "9007199254740993", "0.0", "1_0.2_5e1_0"];
const REGEX: &[&str] = &["/a/", "/ab+c/g", "/[/]/", "/a\\/b/i", "/=/", "/=a/", "/[\\]/]x/gi", "/(?:)/", "/\\//", "/[^/\\\\]*/", "/x{2,3}/m", "/é/u", "/(a|b)*?$/", "/\\d+\\s/y", "/[a-z]]/", "/*?/"];
const BIN: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "in", "instanceof", "+", "-", "*", "/", "<", "&&", "||", "**"];
const ASG: &[&str] = &["=", "=", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];
const UNA: &[&str] = &["-", "+", "!", "~", "typeof", "void", "delete"];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: &'a Profile) -> Self {
        let budget = r.range(p.size.0, p.size.1) as isize;
        Gen { r, p, out: vec![], budget, fresh: 0, labels: vec![], no_nl_next: false, want_nl_next: false, cover_depth: 0 }
    }
    pub fn t(&mut self, s: impl Into<String>) {
        self.budget -= 1;
        let (no_nl, want_nl) = (self.no_nl_next, self.want_nl_next && !self.no_nl_next);
        self.no_nl_next = false; self.want_nl_next = false;
        let s = s.into();
        // a regular expression that starts with `/=` on a line of its own is left out (see known-findings.txt)
        if want_nl && s.starts_with("/=") { self.out.push(Tok { s: ";".into(), no_nl: false, want_nl: false }); }
        self.out.push(Tok { s, no_nl, want_nl });
    }
    fn nonl(&mut self, s: impl Into<String>) { self.no_nl_next = true; self.t(s); }
    fn low(&self) -> bool { self.budget <= 0 }
    fn pct(&mut self, p: usize) -> bool { self.r.pct(p) }

    // ---- names ----
    fn name(&mut self, cx: Cx) -> String {
        let k = self.r.below(100);
        if k < self.p.unicode { return self.r.pick(UNI_IDENTS).to_string(); }
        if k < self.p.unicode + 1 && self.p.escapes { return self.r.pick(ESC_IDENTS).to_string(); }
        if k < self.p.unicode + 5 && !cx.strict { return self.r.pick(SLOPPY).to_string(); }
        if k < self.p.unicode + 7 && !cx.strict && !cx.ya_tainted && !cx.module { return if self.pct(50) { "yield".into() } else { "await".into() }; }
        let n = *self.r.pick(IDENTS);
        if n == "arguments" && (cx.strict || cx.params) { return "a".into(); }
        n.to_string()
    }
    /// a name for a new binding; numbered most of the time so that programs do not redeclare names
    fn bname(&mut self, cx: Cx) -> String {
        let n = self.name(cx);
        self.fresh += 1;
        if self.pct(3) && n != "let" && n != "arguments" && n != "eval" && n != "undefined" { return n; }
        format!("{}{}", n, self.fresh)
    }
    fn prop_ident(&mut self, cx: Cx) -> String { if self.pct(35) { self.r.pick(PROPS).to_string() } else { self.name(cx) } }
    pub fn string(&mut self) -> String {
        let q = if self.pct(50) { '"' } else { '\'' };
        let mut s = String::new(); s.push(q);
        for _ in 0..self.r.below(6) {
            match self.r.below(if self.p.escapes { 16 } else { 10 }) {
                0..=4 => s.push(*self.r.pick(&['a', 'b', ' ', 'x', '0', '/', '*', '{', '$', '`', ';', '\t'])),
                5 => s.push(if q == '"' { '\'' } else { '"' }),
                6 if self.p.unicode > 0 => s.push(*self.r.pick(&['é', '变', '😀', 'ß', '\u{2028}', '\u{2029}', '\u{a0}'])),
                7 => s.push_str(if q == '"' { "\\\"" } else { "\\'" }),
                8 => s.push_str("\\\\"),
                9 => s.push_str("//"),
                10 => s.push_str("\\n"), 11 => s.push_str("\\x41"), 12 => s.push_str("\\u0041"), 13 => s.push_str("\\\n"), 14 => s.push_str("\\u{1F600}"),
                _ => s.push_str("\\q"),
            }
        }
        s.push(q); s
    }
    fn chunk(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.below(5) {
            match self.r.below(if self.p.escapes { 13 } else { 9 }) {
                0..=3 if s.ends_with('$') => s.push('a'), 0..=3 => s.push(*self.r.pick(&['a', ' ', 'z', '"', '\'', '}', '{', '/', '0'])),
                4 => s.push_str("$ "), 5 => s.push('\n'), 6 => s.push_str("\\`"), 7 => s.push_str("\\${"), 8 => s.push_str("\\\\"),
                9 => s.push_str("\\n"), 10 => s.push_str("\\u0041"), 11 if self.p.unicode > 0 => s.push('é'),
                _ => s.push_str("$ $"),
            }
        }
        s
    }
    fn template(&mut self, cx: Cx, nonl_first: bool) {
        if nonl_first { /* a tagged template may be on the next line */ }
        let n = if self.low() { 0 } else { self.r.below(3) };
        let c = self.chunk();
        if n == 0 { let s = format!("`{c}`"); self.t(s); return; }
        self.t(format!("`{c}${{"));
        for i in 0..n {
            self.expr(cx_in(cx), 0);
            let c = self.chunk();
            if i + 1 < n { self.t(format!("}}{c}${{")); } else { self.t(format!("}}{c}`")); }
        }
    }

    // ---- expressions; level 0 sequence, 1 assignment, 2 conditional, 3 binary operand chain, 4 unary, 5 update/postfix, 6 lhs, 7 member, 8 primary ----
    pub fn expr(&mut self, cx: Cx, level: usize) {
        let mut w = self.p.expr;
        if self.low() { for (i, x) in w.iter_mut().enumerate() { if i > E_REGEX || i == E_TEMPLATE { *x = 0; } } }
        if !(cx.yield_ || cx.await_) || cx.params { w[E_YIELD_AWAIT] = 0; }
        if self.cover_depth >= 3 { w[E_ARROW] = 0; w[E_ASYNC_ARROW] = 0; }
        let k = self.r.weighted(&w);
        let need = match k {
            E_SEQ => 0,
            E_ASSIGN | E_DESTRUCT | E_ARROW | E_ASYNC_ARROW => 1,
            E_COND => 2, E_BINARY => 3, E_UNARY => 4, E_UPDATE => 5,
            E_YIELD_AWAIT => if cx.yield_ && (!cx.await_ || self.r.pct(50)) { 1 } else { 4 },
            E_CALL | E_OPT => 6,
            E_NEW => 6,
            _ => 8,
        };
        if need < level {
            self.t("("); let c = cx_in(cx); self.expr_kind(c, k, need); self.t(")");
        } else { self.expr_kind(cx, k, need); }
    }
    fn expr_kind(&mut self, cx: Cx, k: usize, need: usize) {
        match k {
            E_IDENT => { let n = self.name(cx); self.t(n); }
            E_LIT => match self.r.below(8) { 0 => self.t("null"), 1 => self.t("true"), 2 => self.t("false"), 3 => self.t("this"), _ => { let n = *self.r.pick(NUMS); self.t(n); } },
            E_STR => { let s = self.string(); self.t(s); }
            E_TEMPLATE => self.template(cx, false),
            E_REGEX => { let mut s = *self.r.pick(REGEX); if s == "/*?/" { s = "/a*?/"; } self.t(s); }
            E_ARRAY => {
                self.t("[");
                let n = self.r.below(4);
                for i in 0..n {
                    match self.r.below(10) { 0 | 1 => { self.t(","); continue; } 2 => { self.t("..."); self.expr(cx_in(cx), 1); } _ => self.expr(cx_in(cx), 1) }
                    if i + 1 < n || self.pct(15) { self.t(","); }
                }
                self.t("]");
            }
            E_OBJECT => self.object(cx),
            E_FUNC => self.function(cx, false),
            E_CLASS => self.class(cx, false, false),
            E_ARROW => self.arrow(cx, false),
            E_ASYNC_ARROW => self.arrow(cx, true),
            E_PAREN => { self.t("("); self.expr(cx_in(cx), 0); self.t(")"); }
            E_SEQ => { let n = self.r.range(2, 3); for i in 0..n { if i > 0 { self.t(","); } self.expr(cx, 1); } }
            E_UNARY => {
                let op = *self.r.pick(UNA); self.t(op);
                if op == "delete" && cx.strict { self.lhs_target(cx, false); } else { self.expr(cx, 4); }
            }
            E_UPDATE => {
                if self.pct(50) { let o = *self.r.pick(&["++", "--"]); self.t(o); self.lhs_target(cx, true); } else { self.lhs_target(cx, true); let o = *self.r.pick(&["++", "--"]); self.nonl(o); }
            }
            E_BINARY => {
                let n = self.r.range(2, 4);
                let coalesce = self.pct(12);
                let mut prev_exp = false;
                let mut expo_used = false;
                for i in 0..n {
                    let op = if i + 1 < n { Some(if coalesce && self.pct(60) { "??" } else { let mut o = *self.r.pick(BIN); if (cx.no_in && o == "in") || (coalesce && (o == "&&" || o == "||")) || (self.p.no_quirks && o == "**" && expo_used) { o = "+"; } o }) } else { None };
                    if op == Some("**") { expo_used = true; } else { expo_used = false; }
                    let base_pow = op == Some("**");
                    self.expr(cx, if base_pow || prev_exp { 5 } else { 4 });
                    if let Some(o) = op { self.t(o); prev_exp = false; let _ = prev_exp; prev_exp = base_pow && self.r.pct(80); }
                }
            }
            E_COND => { self.expr(cx, 3); self.t("?"); self.expr(cx_in(cx), 1); self.t(":"); self.expr(cx, 1); }
            E_ASSIGN => { self.lhs_target(cx, true); let o = *self.r.pick(ASG); self.t(o); self.expr(cx, 1); }
            E_DESTRUCT => {
                // an object pattern at the start of a statement is parenthesized by the caller
                let c = cx_in(cx); self.assign_pattern(c, 0); self.t("="); self.expr(cx, 1);
            }
            E_MEMBER => { self.expr(cx, 7); self.member_tail(cx); for _ in 0..self.r.below(2) { self.member_tail(cx); } }
            E_CALL => {
                if self.pct(4) { self.t("import"); self.t("("); self.expr(cx_in(cx), 1); self.t(")"); }
                else { self.expr(cx, 6); self.args(cx); }
                for _ in 0..self.r.below(3) { self.call_tail(cx); }
            }
            E_NEW => {
                self.t("new");
                if self.pct(15) { self.t("new"); self.expr(cx, 8); if self.pct(80) { self.args(cx); } }
                else { self.expr_new_callee(cx); }
                if self.pct(75) { self.args(cx); if self.pct(30) { self.call_tail(cx); } }
            }
            E_OPT => {
                self.expr(cx, 6); self.t("?.");
                match self.r.below(4) { 0 => { self.t("["); self.expr(cx_in(cx), 0); self.t("]"); } 1 => self.args(cx), _ => { let n = self.prop_ident(cx); self.t(n); } }
                for _ in 0..self.r.below(3) { if self.pct(25) { self.t("?."); match self.r.below(3) { 0 => { self.t("["); self.expr(cx_in(cx), 0); self.t("]"); } 1 => self.args(cx), _ => { let n = self.prop_ident(cx); self.t(n); } } } else { self.call_tail_notmpl(cx); } }
            }
            E_TAGGED => { self.expr(cx, 7); if self.pct(30) { self.args(cx); } self.template(cx, true); if self.pct(20) { self.template(cx, true); } if self.pct(20) { self.member_tail(cx); } }
            E_SUPER_META => {
                if cx.super_call && self.pct(40) { self.t("super"); self.args(cx); if self.pct(30) { self.call_tail(cx); } }
                else if cx.method { self.t("super"); self.member_tail(cx); if self.pct(40) { self.args(cx); } }
                else if cx.in_fn && self.pct(70) { self.t("new"); self.t("."); self.t("target"); }
                else if cx.module { self.t("import"); self.t("."); self.t("meta"); if self.pct(50) { self.member_tail(cx); } }
                else { self.t("this"); }
            }
            E_YIELD_AWAIT => {
                if need == 1 {
                    self.t("yield");
                    match self.r.below(4) { 0 => { /* no argument: must be followed by a terminator */ } 1 => { self.nonl("*"); self.expr(cx, 1); } _ => { let at = self.out.len(); self.expr(cx, 1); if let Some(t) = self.out.get_mut(at) { t.no_nl = true; t.want_nl = false; } } }
                } else { self.t("await"); self.expr(cx, 4); }
            }
            _ => unreachable!(),
        }
    }
    fn expr_new_callee(&mut self, cx: Cx) {
        let saved = self.budget;
        if self.pct(50) { let n = self.name(cx); self.t(n); } else { let at = self.out.len(); self.expr(cx, 7);
            // an import call or optional chain cannot be the callee of new
            if self.out[at].s == "import" { self.no_nl_next = self.out[at].no_nl; self.want_nl_next = self.out[at].want_nl; self.out.truncate(at); let n = self.name(cx); self.t(n); } }
        if self.pct(30) { self.member_tail(cx); }
        let _ = saved;
    }
    fn member_tail(&mut self, cx: Cx) {
        if self.pct(70) { self.t("."); let n = self.prop_ident(cx); self.t(n); } else { self.t("["); self.expr(cx_in(cx), 0); self.t("]"); }
    }
    fn call_tail_notmpl(&mut self, cx: Cx) { if self.pct(40) { self.args(cx); } else { self.member_tail(cx); } }
    fn call_tail(&mut self, cx: Cx) { if self.pct(8) { self.template(cx, true) } else { self.call_tail_notmpl(cx) } }
    fn args(&mut self, cx: Cx) {
        let c = cx_in(cx);
        self.t("(");
        let n = self.r.below(4);
        for i in 0..n { if self.pct(12) { self.t("..."); } self.expr(c, 1); if i + 1 < n || self.pct(8) { self.t(","); } }
        self.t(")");
    }
    /// a simple assignment target
    fn lhs_target(&mut self, cx: Cx, ident: bool) {
        let k = self.r.below(10);
        if ident && (k < 6 || self.low()) { loop { let n = self.name(cx); if n != "arguments" && n != "eval" { self.t(n); break; } } }
        else if ident && k == 6 && self.p.lenient_bits { self.t("("); let n = self.name(cx); self.t(n); self.t(")"); }
        else { let n = self.name(cx); if self.pct(20) { self.t("this"); } else { self.t(n); } self.member_tail(cx); if self.pct(20) { self.args(cx); self.member_tail(cx); } }
    }
    pub fn assign_pattern(&mut self, cx: Cx, depth: usize) {
        let n = self.r.below(4);
        if self.pct(50) {
            self.t("[");
            for i in 0..n {
                if self.pct(15) { self.t(","); continue; }
                if i + 1 == n && self.pct(20) { self.t("..."); self.assign_el(cx, depth, false); break; }
                self.assign_el(cx, depth, true);
                if i + 1 < n || self.pct(15) { self.t(","); }
            }
            self.t("]");
        } else {
            self.t("{");
            for i in 0..n {
                if i + 1 == n && self.pct(20) { self.t("..."); self.lhs_target(cx, true); break; }
                if self.pct(45) { loop { let n = self.name(cx); if n != "arguments" && n != "eval" { self.t(n); break; } } if self.pct(40) { self.t("="); self.expr(cx, 1); } }
                else { self.prop_name(cx); self.t(":"); self.assign_el(cx, depth, true); }
                if i + 1 < n || self.pct(15) { self.t(","); }
            }
            self.t("}");
        }
    }
    fn assign_el(&mut self, cx: Cx, depth: usize, init: bool) {
        if depth < 2 && self.pct(20) { self.assign_pattern(cx, depth + 1); } else { self.lhs_target(cx, true); }
        if init && self.pct(25) { self.t("="); self.expr(cx, 1); }
    }
    fn binding(&mut self, cx: Cx, depth: usize) {
        if depth >= 3 || self.low() || self.pct(65) { let n = self.bname(cx); self.t(n); } else { self.binding_pattern(cx, depth) }
    }
    fn binding_pattern(&mut self, cx: Cx, depth: usize) {
        let n = self.r.below(4);
        if self.pct(50) {
            self.t("[");
            for i in 0..n {
                if self.pct(15) { self.t(","); continue; }
                if i + 1 == n && self.pct(20) { self.t("..."); self.binding(cx, depth + 1); break; }
                self.binding_el(cx, depth + 1);
                if i + 1 < n || self.pct(15) { self.t(","); }
            }
            self.t("]");
        } else {
            self.t("{");
            for i in 0..n {
                if i + 1 == n && self.pct(20) { self.t("..."); let n = self.bname(cx); self.t(n); break; }
                if self.pct(45) { let n = self.bname(cx); self.t(n); if self.pct(40) { self.t("="); self.expr(cx_in(cx), 1); } }
                else { self.prop_name(cx); self.t(":"); self.binding_el(cx, depth + 1); }
                if i + 1 < n || self.pct(15) { self.t(","); }
            }
            self.t("}");
        }
    }
    fn binding_el(&mut self, cx: Cx, depth: usize) { self.binding(cx, depth); if self.pct(25) { self.t("="); self.expr(cx_in(cx), 1); } }
    fn prop_name(&mut self, cx: Cx) {
        match self.r.below(10) {
            0 => { let s = self.string(); self.t(s); }
            1 => { let n = *self.r.pick(NUMS); self.t(n); }
            2 | 3 => { self.t("["); self.expr(cx_in(cx), 1); self.t("]"); }
            _ => { let n = self.prop_ident(cx); self.t(n); }
        }
    }
    fn object(&mut self, cx: Cx) {
        self.t("{");
        let n = self.r.below(4);
        for i in 0..n {
            match self.r.below(20) {
                0..=4 => { let n = self.name(cx); self.t(n); }
                5 | 6 => { self.t("..."); self.expr(cx_in(cx), 1); }
                7..=11 => self.method(cx, false, false, false),
                _ => { self.prop_name(cx); self.t(":"); self.expr(cx_in(cx), 1); }
            }
            if i + 1 < n || self.pct(15) { self.t(","); }
        }
        self.t("}");
    }
    /// a method definition of an object or (class) with its modifiers
    fn method(&mut self, cx: Cx, class: bool, heritage: bool, ctor: bool) {
        let ctor = ctor && !(self.p.no_quirks && cx.yield_);
        let kind = if ctor { 0 } else { self.r.below(8) };
        // quirk: a plain method or accessor inside a generator function
        let kind = if self.p.no_quirks && cx.yield_ && (kind < 2 || kind >= 5) { 2 } else { kind };
        let (mut y, mut a, mut acc) = (false, false, 0);
        match kind { 0 | 1 | 7 => {} 2 => { self.t("*"); y = true; } 3 => { self.t("async"); self.no_nl_next = true; a = true; } 4 => { self.t("async"); self.nonl("*"); a = true; y = true; } 5 => { self.t("get"); acc = 1; } _ => { self.t("set"); acc = 2; } }
        if ctor { self.t("constructor"); } else if class { // avoid a second "constructor" and static prototype
            loop { let at = self.out.len(); let (b, f) = (self.no_nl_next, self.fresh); self.prop_name(cx); let s = &self.out[at].s; if s.contains("constructor") || s.contains("prototype") { self.out.truncate(at); self.no_nl_next = b; self.fresh = f; } else { break; } }
        } else { self.prop_name(cx); }
        let plain = !y && !a;
        let c = Cx { yield_: y, await_: a, ret: true, in_fn: true, method: true, super_call: ctor && heritage, ya_tainted: cx.ya_tainted || y || a || (plain && (cx.yield_ || cx.await_)), loop_: false, switch: false, no_in: false, params: false, ..cx };
        match acc { 1 => { self.t("("); self.t(")"); } 2 => { self.t("("); let pc = Cx { params: true, ya_tainted: true, ..c }; self.binding_el(pc, 1); self.t(")"); } _ => self.params(c) }
        self.fn_body(c, acc != 2);
    }
    fn params(&mut self, cx: Cx) {
        let cx = Cx { params: true, no_in: false, ..cx };
        self.t("(");
        let n = self.r.below(4);
        for i in 0..n {
            if i + 1 == n && self.pct(15) { self.t("..."); self.binding(cx, 1); break; }
            self.binding_el(cx, 1);
            if i + 1 < n || self.pct(6) { self.t(","); }
        }
        self.t(")");
    }
    fn fn_body(&mut self, cx: Cx, directive: bool) {
        let labels = std::mem::take(&mut self.labels);
        self.t("{");
        let mut cx = cx;
        // "use strict" needs simple parameters; only offered when the parameter list is a bare `()`
        let l = self.out.len();
        let simple = l >= 3 && self.out[l - 2].s == ")" && self.out[l - 3].s == "(";
        if directive && simple && self.pct(6) { self.t("'use strict'"); self.end_stmt(); cx.strict = true; }
        else if self.pct(2) { self.t("\"use asm\""); self.end_stmt(); }
        self.stmts(cx, 3);
        self.want_nl_next = false;
        self.t("}");
        self.labels = labels;
    }
    pub fn function(&mut self, cx: Cx, decl: bool) {
        let a = self.pct(25); let y = self.pct(25);
        if a { self.t("async"); self.nonl("function"); } else { self.t("function"); }
        if y { self.t("*"); }
        if decl || self.pct(50) {
            let nc = if decl { cx } else { Cx { ya_tainted: cx.ya_tainted || a || y, ..cx } };
            let n = self.bname(nc); self.t(n);
        }
        let c = Cx { yield_: y, await_: a, ret: true, in_fn: true, method: false, super_call: false, ya_tainted: cx.ya_tainted || a || y, loop_: false, switch: false, no_in: false, params: false, ..cx };
        self.params(c); self.fn_body(c, true);
    }
    pub fn class(&mut self, cx: Cx, decl: bool, default: bool) {
        let cx = Cx { strict: true, ..cx };
        self.t("class");
        if (decl && !default) || self.pct(50) { let n = self.bname(cx); self.t(n); }
        let h = self.pct(35);
        if h { self.t("extends"); self.expr(Cx { ..cx }, 6); }
        self.t("{");
        let mut ctor = false;
        for _ in 0..self.r.below(4) {
            if self.pct(10) { self.t(";"); continue; }
            if !ctor && self.pct(25) { ctor = true; self.method(cx, true, h, true); continue; }
            if self.pct(20) { self.t("static"); }
            self.method(cx, true, h, false);
        }
        self.t("}");
    }
    fn arrow(&mut self, cx: Cx, is_async: bool) {
        self.cover_depth += 1;
        let c = Cx { yield_: false, await_: is_async, ret: true, ya_tainted: cx.ya_tainted || is_async || cx.yield_ || cx.await_, loop_: false, switch: false, params: cx.params, ..cx };
        if is_async { self.t("async"); self.no_nl_next = true; }
        if self.pct(35) { let pc = Cx { ya_tainted: true, ..cx }; let n = self.bname(pc); self.t(n); } else { self.params(Cx { ya_tainted: true, yield_: false, await_: false, ..cx }); }
        self.nonl("=>");
        if self.pct(60) {
            let at = self.out.len();
            self.expr(c, 1);
            if self.out.get(at).map(|t| t.s == "{").unwrap_or(false) { self.wrap(at); }
        } else { self.fn_body(Cx { no_in: false, params: false, ..c }, true); }
        self.cover_depth -= 1;
    }
    fn wrap(&mut self, at: usize) {
        let mut first = Tok { s: "(".into(), no_nl: false, want_nl: false };
        std::mem::swap(&mut first.no_nl, &mut self.out[at].no_nl);
        std::mem::swap(&mut first.want_nl, &mut self.out[at].want_nl);
        self.out.insert(at, first); self.t(")");
    }

    // ---- statements ----
    fn end_stmt(&mut self) {
        if self.pct(self.p.asi) { if self.p.sure_asi || !self.pct(8) { self.want_nl_next = true; } } else { self.t(";"); }
    }
    fn stmts(&mut self, cx: Cx, max: usize) { for _ in 0..self.r.below(max + 1) { if self.low() { break; } self.stmt(cx, false, false); } }
    fn expr_stmt_tokens(&mut self, cx: Cx) {
        let at = self.out.len();
        self.expr(cx, 0);
        let f = self.out[at].s.clone(); let g = self.out.get(at + 1).map(|t| t.s.clone()).unwrap_or_default();
        if f == "{" || f == "function" || f == "class" || (f == "let" && g == "[") || (f == "async" && g == "function") { self.wrap(at); }
    }
    fn sub(&mut self, cx: Cx) { if self.pct(45) { self.block(cx); } else { self.stmt(cx, true, false); } }
    fn block(&mut self, cx: Cx) { self.t("{"); self.stmts(cx, 3); self.want_nl_next = false; self.t("}"); }
    fn var_decl(&mut self, cx: Cx, kind: &str) {
        self.t(kind);
        let n = self.r.range(1, 2);
        for i in 0..n {
            if i > 0 { self.t(","); }
            let pat = !self.low() && self.pct(25);
            let lc = if kind == "var" { cx } else { Cx { ..cx } };
            if pat { self.binding_pattern(lc, 1); self.t("="); self.expr(cx, 1); }
            else { let mut nm = self.bname(lc); if kind != "var" && nm == "let" { nm = "let1".into(); } self.t(nm); if kind == "const" || self.pct(65) { self.t("="); self.expr(cx, 1); } }
        }
    }
    fn for_left(&mut self, cx: Cx, of: bool) {
        match self.r.below(6) {
            0 => { let c = cx_in(cx); self.assign_pattern(c, 0); }
            1 => { let at = self.out.len(); self.lhs_target(Cx { strict: true, ..cx }, true); let f = self.out[at].s.clone(); if f == "let" || (of && f == "async") { self.out[at].s = "q".into(); } }
            k => { let kw = ["var", "let", "const", "let"][k - 2]; self.t(kw); if self.pct(60) { let n = self.bname(Cx { strict: true, ..cx }); self.t(n); } else { self.binding_pattern(cx, 1); } }
        }
    }
    pub fn stmt(&mut self, cx: Cx, sub: bool, top: bool) {
        let mut w = self.p.stmt;
        let m = top && cx.module;
        if !m { w[S_IMPORT] = 0; w[S_EXPORT] = 0; }
        if sub { for k in [S_FUNC, S_CLASS, S_LEXDECL] { w[k] = 0; } }
        if !cx.loop_ { w[S_CONT] = 0; }
        if !cx.loop_ && !cx.switch { w[S_BREAK] = 0; }
        if !cx.ret { w[S_RET] = 0; }
        if cx.strict { w[S_WITH] = 0; }
        if self.low() { for (i, x) in w.iter_mut().enumerate() { if !matches!(i, S_EXPR | S_VAR | S_EMPTY | S_DEBUGGER | S_RET | S_BREAK | S_CONT) { *x = 0; } } }
        if w.iter().all(|x| *x == 0) { w[S_EXPR] = 1; }
        let cx = Cx { no_in: false, ..cx };
        let lp = Cx { loop_: true, ..cx };
        match self.r.weighted(&w) {
            S_EXPR => { self.expr_stmt_tokens(cx); self.end_stmt(); }
            S_DESTRUCT => { let at = self.out.len(); self.assign_pattern(cx, 0); self.t("="); self.expr(cx, 1); if self.out[at].s == "{" { self.wrap(at); } self.end_stmt(); }
            S_VAR => { self.var_decl(cx, "var"); self.end_stmt(); }
            S_LEXDECL => { let k = *self.r.pick(&["let", "const"]); self.var_decl(cx, k); self.end_stmt(); }
            S_BLOCK => self.block(cx),
            S_EMPTY => self.t(";"),
            S_IF => { self.t("if"); self.t("("); self.expr(cx, 0); self.t(")"); self.sub(cx); if self.pct(45) { self.t("else"); self.sub(cx); } }
            S_FOR => {
                self.t("for"); self.t("(");
                let ni = Cx { no_in: true, ..cx };
                match self.r.below(4) { 0 => {} 1 => { let at = self.out.len(); self.expr(ni, 0); let f = self.out[at].s.clone(); if f == "let" || f == "async" { self.wrap(at); } } k => { let kw = ["var", "let", "const"][if k == 2 { 0 } else { self.r.range(1, 2) }]; self.var_decl(ni, kw); } }
                self.want_nl_next = false;
                self.t(";"); if self.pct(65) { self.expr(cx, 0); } self.t(";"); if self.pct(65) { self.expr(cx, 0); } self.t(")");
                self.sub(lp);
            }
            S_FORIN => { self.t("for"); self.t("("); self.for_left(cx, false); self.t("in"); self.expr(cx, 0); self.t(")"); self.sub(lp); }
            S_FOROF => { self.t("for"); if cx.await_ && !cx.params && self.pct(40) { self.t("await"); } self.t("("); self.for_left(cx, true); self.t("of"); self.expr(cx, 1); self.t(")"); self.sub(lp); }
            S_WHILE => { self.t("while"); self.t("("); self.expr(cx, 0); self.t(")"); self.sub(lp); }
            S_DO => { self.t("do"); self.sub(lp); self.t("while"); self.t("("); self.expr(cx, 0); self.t(")"); self.end_stmt(); }
            S_CONT => { self.t("continue"); if !self.labels.is_empty() && self.pct(30) { /* only loop labels are valid: the reference decides */ let l = self.r.pick(&self.labels).clone(); self.nonl(l); } self.end_stmt(); }
            S_BREAK => { self.t("break"); if !self.labels.is_empty() && self.pct(40) { let l = self.r.pick(&self.labels).clone(); self.nonl(l); } self.end_stmt(); }
            S_RET => { self.t("return"); if self.pct(70) { self.no_nl_next = true; self.expr(cx, 0); } self.end_stmt(); }
            S_WITH => { self.t("with"); self.t("("); self.expr(cx, 0); self.t(")"); self.sub(cx); }
            S_SWITCH => {
                self.t("switch"); self.t("("); self.expr(cx, 0); self.t(")"); self.t("{");
                let c = Cx { switch: true, ..cx }; let mut def = false;
                for _ in 0..self.r.below(4) { if !def && self.pct(25) { def = true; self.t("default"); } else { self.t("case"); self.expr(cx, 0); } self.t(":"); self.stmts(c, 2); }
                self.want_nl_next = false; self.t("}");
            }
            S_LABEL => { let l = self.bname(cx); self.t(l.clone()); self.t(":"); self.labels.push(l); if self.pct(50) { self.t("for"); self.t("("); self.t(";"); self.t(";"); self.t(")"); self.sub(lp); } else { self.sub(cx); } self.labels.pop(); }
            S_THROW => { self.t("throw"); self.no_nl_next = true; self.expr(cx, 0); self.end_stmt(); }
            S_TRY => {
                self.t("try"); self.block(cx);
                let k = self.r.below(3);
                if k < 2 { self.t("catch"); if self.pct(75) { self.t("("); self.binding(cx, 1); self.t(")"); } self.block(cx); }
                if k > 0 { self.t("finally"); self.block(cx); }
            }
            S_DEBUGGER => { self.t("debugger"); self.end_stmt(); }
            S_FUNC => self.function(cx, true),
            S_CLASS => self.class(cx, true, false),
            S_IMPORT => self.import(cx),
            S_EXPORT => self.export(cx),
            S_ASI => {
                // line breaks where they decide between one statement and two
                let n = self.name(cx); self.t(n);
                self.want_nl_next = true;
                match self.r.below(7) { 0 => { self.t("++"); self.lhs_target(cx, true); } 1 => { self.t("--"); self.lhs_target(cx, true); } 2 => { self.t("("); self.expr(cx, 0); self.t(")"); } 3 => { self.t("["); self.expr(cx, 0); self.t("]"); } 4 => { self.t("/"); let n = self.name(cx); self.t(n); self.t("/"); self.t("g"); } 5 => self.template(cx, true), _ => { let o = *self.r.pick(&["+", "-"]); self.t(o); self.expr(cx, 4); } }
                self.end_stmt();
            }
            _ => unreachable!(),
        }
    }
    fn mstring(&mut self) -> String { let q = if self.pct(50) { '"' } else { '\'' }; let s = *self.r.pick(&["m", "./a.js", "", "x y", "ü", "b\\\\c"]); format!("{q}{s}{q}") }
    fn import(&mut self, cx: Cx) {
        self.t("import");
        let mut need = false;
        if self.pct(85) {
            if self.pct(45) { let n = self.bname(cx); self.t(n); need = true; }
            if !need || self.pct(40) {
                if need { self.t(","); }
                if self.pct(30) { self.t("*"); self.t("as"); let n = self.bname(cx); self.t(n); }
                else {
                    self.t("{");
                    let n = self.r.below(4);
                    for i in 0..n { if self.pct(50) { let n = self.prop_ident(cx); self.t(n); self.t("as"); let n = self.bname(cx); self.t(n); } else { let n = self.bname(cx); self.t(n); } if i + 1 < n || self.pct(15) { self.t(","); } }
                    self.t("}");
                }
            }
            self.t("from");
        }
        let s = self.mstring(); self.t(s); self.end_stmt();
    }
    fn export(&mut self, cx: Cx) {
        self.t("export");
        match self.r.below(9) {
            0 => { self.t("*"); if self.pct(50) { self.t("as"); let n = self.prop_ident(cx); self.t(n); } self.t("from"); let s = self.mstring(); self.t(s); self.end_stmt(); }
            1 | 2 => {
                self.t("{");
                let from = self.pct(60);
                let n = self.r.below(4);
                for i in 0..n {
                    let n1 = if from { self.prop_ident(cx) } else { self.name(cx) }; self.t(n1);
                    if self.pct(50) { self.t("as"); let n = self.prop_ident(cx); self.t(n); }
                    if i + 1 < n || self.pct(15) { self.t(","); }
                }
                self.t("}");
                if from { self.t("from"); let s = self.mstring(); self.t(s); }
                self.end_stmt();
            }
            3 => { let k = *self.r.pick(&["var", "let", "const"]); self.var_decl(cx, k); self.end_stmt(); }
            4 => self.function(cx, true),
            5 => self.class(cx, true, false),
            6 => {
                self.t("default");
                // an anonymous declaration
                if self.pct(50) { self.class(cx, true, true); } else {
                    let (a, y) = (self.pct(30), self.pct(30));
                    if a { self.t("async"); self.nonl("function"); } else { self.t("function"); }
                    if y { self.t("*"); }
                    if self.pct(40) { let n = self.bname(cx); self.t(n); }
                    let c = Cx { yield_: y, await_: a, ret: true, in_fn: true, ya_tainted: true, ..cx };
                    self.params(c); self.fn_body(c, true);
                }
            }
            _ => {
                self.t("default");
                let at = self.out.len(); self.expr(cx, 1);
                let f = self.out[at].s.clone(); let g = self.out.get(at + 1).map(|t| t.s.clone()).unwrap_or_default();
                if f == "function" || f == "class" || (f == "async" && g == "function") { self.wrap(at); }
                self.end_stmt();
            }
        }
    }
}
fn cx_in(cx: Cx) -> Cx { Cx { no_in: false, ..cx } }

#[derive(Clone)]
pub struct Prog { pub toks: Vec<Tok>, pub module: bool }

pub fn program(r: &mut Rng, p: &Profile) -> Prog {
    let module = r.pct(p.module);
    let strict = !module && r.pct(p.strict);
    let mut g = Gen::new(r, p);
    if strict { let d = if g.pct(50) { "'use strict'" } else { "\"use strict\"" }; if g.pct(20) { g.t("'other'"); g.end_stmt(); } g.t(d); g.end_stmt(); }
    else if g.pct(3) { g.t("'directive'"); g.end_stmt(); }
    let cx = Cx { strict: strict || module, module, ya_tainted: module, ..Default::default() };
    while !g.low() { g.stmt(cx, false, true); if g.pct(8) { break; } }
    Prog { toks: g.out, module }
}

// ---- rendering ----
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style { Plain, Tight, Wild }

fn word_char(c: char) -> bool { c.is_alphanumeric() || c == '$' || c == '_' || c == '\\' || (c as u32) > 127 }
/// may the two tokens be written next to each other without changing how they are read?
pub fn joinable(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().last(), b.chars().next()) else { return true };
    if word_char(x) && word_char(y) { return false; }
    // an identifier ending in an escape
    if x == '}' && a.starts_with(word_char) && word_char(y) { return false; }
    if b.starts_with('}') || a.ends_with("${") { return true; }
    let quote = |c: char| c == '"' || c == '\'' || c == '`';
    if quote(x) || quote(y) { return true; }
    if x == '.' && y != '.' && a.starts_with(|c: char| c.is_ascii_digit()) && word_char(y) { return false; }
    let solid = |c: char| "()[]{};,~:".contains(c);
    if y == '.' && a.starts_with(|c: char| c.is_ascii_digit() || c == '.') { return false; }
    if solid(x) || solid(y) { return true; }
    if word_char(x) && !word_char(y) { return !(a.starts_with(|c: char| c.is_ascii_digit() || c == '.') && y == '.'); }
    if word_char(y) && !word_char(x) { return !(x == '.' && y.is_ascii_digit()) && !(x == '/' ) && !(x == '?' && y == '.'); }
    false
}
pub fn gap(r: &mut Rng, style: Style, nl: bool, need: bool, module: bool, at_start: bool) -> String {
    if nl {
        return match style {
            Style::Wild => {
                let mut s = String::new();
                if r.pct(30) { s.push_str(&gap(r, style, false, false, module, false)); }
                s.push_str(match r.below(16) { 12 => "/*\u{2028}*/", 13 => "/* é\u{2029}*/", 14 => "/*\r*/", 15 => "/***\r\n**/", 0 => "\r\n", 1 => "\u{2028}", 2 => "\u{2029}", 3 => "\r", 4 => "//c\n", 5 => "// x */ /* é\n", 6 => "/*\n*/", 7 => "/* a\r\n b*/ ", 8 => "\n\n", 9 if !module => "<!-- x\n", 10 if !module => "\n--> y\n", _ => "\n" });
                if r.pct(30) { s.push_str(&gap(r, style, false, false, module, false)); }
                s
            }
            _ => if r.pct(50) { "\n".into() } else { "\n  ".into() },
        };
    }
    let _ = at_start;
    match style {
        Style::Tight => if need { " ".into() } else { String::new() },
        Style::Plain => if need || r.pct(60) { " ".into() } else { String::new() },
        Style::Wild => {
            let mut s = String::new();
            let n = if need { r.range(1, 2) } else { r.below(3) };
            for _ in 0..n { s.push_str(match r.below(12) { 0 => "\t", 1 => "/**/", 2 => "/* c */", 3 => "\u{a0}", 4 => "\u{feff}", 5 => "\u{b}", 6 => "\u{c}", 7 => "\u{3000}", 8 => "/*é*/", 9 => "/* // \" ' ` */", _ => " " }); }
            s
        }
    }
}
pub struct Rendered { pub src: String, pub gaps: Vec<(bool, String)> }
pub fn render(r: &mut Rng, toks: &[Tok], module: bool, style: Style, nl_pct: usize) -> Rendered {
    let mut src = String::new(); let mut gaps = vec![];
    for (i, t) in toks.iter().enumerate() {
        let nl = if i == 0 { r.pct(10) } else { !t.no_nl && (t.want_nl || r.pct(nl_pct)) };
        let need = i > 0 && !joinable(&toks[i - 1].s, &t.s);
        // (the reference reader does not look past html-like comments when it decides what these words are)
        let module = module || i > 0 && matches!(toks[i - 1].s.as_str(), "let" | "async" | "of" | "static" | "get" | "set" | "import") || i > 0 && toks[i - 1].s.starts_with(['"', '\'']);
        let g = if i == 0 && !nl { if style == Style::Wild { gap(r, style, false, false, module, true) } else { String::new() } } else { gap(r, style, nl, need, module, i == 0) };
        // a slash directly before a comment or another slash must not merge with it
        let g = if i > 0 && g.starts_with('/') && toks[i - 1].s.ends_with('/') { format!(" {g}") } else if i > 0 && g.starts_with('<') { format!(" {g}") } else { g };
        let g = if g.ends_with('/') && t.s.starts_with(['/', '*']) { format!("{g} ") } else { g };
        src.push_str(&g); src.push_str(&t.s);
        gaps.push((nl, g));
    }
    let tail = if r.pct(25) { let nl = r.pct(50); gap(r, style, nl, false, module, false) } else { String::new() };
    let tail = if toks.last().map(|t| t.s.ends_with('/')).unwrap_or(false) { format!(" {tail}") } else { tail };
    gaps.push((false, tail.clone())); src.push_str(&tail);
    Rendered { src, gaps }
}
