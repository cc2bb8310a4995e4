//! Systematic sources: every filler in every context of a grammar position (a table of each), rather
//! than at random; valid and nearly valid ones alike. The hole is written §.
use crate::rng::Rng;

/// Positions of an expression; (text, the result is an expression again)
pub const EXPR_CTX: &[(&str, bool)] = &[
    ("§", true), ("(§)", true), ("x = §", true), ("x += §", true), ("a ? § : c", true), ("a ? b : §", true), ("§ ? b : c", true), ("[§]", true), ("[a, §]", true), ("[, §, ]", true), ("[...§]", true), ("[...§, a]", true), ("f(§)", true), ("f(a, §)", true), ("f(§, )", true), ("f(...§)", true), ("f(...§, a)", true), ("new A(§)", true), ("new §", true), ("new §()", true), ("new new §()()", true), ("new §.b", true), ("new (§)", true), ("a[§]", true), ("a?.[§]", true), ("a?.(§)", true), ("a.b[§].c", true), ("({ a: § })", true), ("({ § })", true), ("({ [§]: 1 })", true), ("({ [§]() { } })", true), ("({ ...§ })", true), ("({ a: 1, ...§, })", true), ("({ a: §, b })", true), ("`${§}`", true), ("`a${b}c${§}d`", true), ("t`${§}`", true), ("(class extends § { })", true), ("(class { [§]() { } })", true), ("(class { static get [§]() { } })", true), ("(x = §) => 1", true), ("(x, { y = § }) => 1", true), ("([x = §]) => 1", true), ("async (x = §) => 1", true), ("x => §", true), ("() => §", true), ("async x => §", true), ("async () => §", true), ("() => { § }", true), ("() => { return § }", true), ("(function (x = §) { })", true), ("(function () { return § })", true), ("(function* () { yield § })", true), ("(function* () { yield* § })", true), ("(function* () { x = yield § })", true), ("(async function () { await § })", true), ("(async function () { x = await § + 1 })", true), ("({ m(x = §) { } })", true), ("({ a = § } = b)", true), ("[a = §] = b", true), ("[b[§]] = c", true), ("({ a: b[§] } = c)", true), ("({ [§]: b } = c)", true), ("§ = 1", true), ("§ += 1", true), ("§ **= 1", true), ("§++", true), ("§--", true), ("++§", true), ("--§", true), ("§.b", true), ("§.if", true), ("§[b]", true), ("§()", true), ("§(b)", true), ("§`t`", true), ("§?.b", true), ("§?.[b]", true), ("§?.()", true), ("§?.b.c", true), ("§?.b`t`", true), ("§ ** 2", true), ("2 ** §", true), ("§ + 1", true), ("1 + §", true), ("§ * 2 + 1", true), ("1 + 2 * §", true), ("§ << 1", true), ("1 < §", true), ("§ == 1", true), ("1 !== §", true), ("§ & b", true), ("b ^ §", true), ("§ | b", true), ("§ ?? b", true), ("b ?? §", true), ("§ || b", true), ("b || §", true), ("b && §", true), ("§ && b", true), ("(§) ?? b", true), ("b || (§)", true), ("!§", true), ("~§", true), ("+§", true), ("-§", true), ("- -§", true), ("typeof §", true), ("void §", true), ("delete §", true), ("§, b", true), ("b, §", true), ("§ in b", true), ("b in §", true), ("§ instanceof b", true), ("b instanceof §", true), ("import(§)", true), ("(§, b)", true), ("(b, §)", true), ("(§) => 1", true), ("(§, b) => 1", true), ("(b, §) => 1", true), ("(...§) => 1", true), ("async (§) => 1", true), ("async(§)", true), ("async (b, §) => 1", true), ("async(b, §)", true), ("§ => 1", true), ("async § => 1", true), ("[§] = a", true), ("[...§] = a", true), ("[§ = 1] = a", true), ("({ a: § } = b)", true), ("({ a: § = 1 } = b)", true), ("({ ...§ } = b)", true), ("({ § } = b)", true), ("§\n.b", true), ("§\n(b)", true), ("§\n[b]", true), ("§\n++\nb", true), ("§\n/b/g", true), ("(§)\n=> 1", true), ("x = §\n+ 1", true), ("§\n=> 1", true),
    ("§;", false), ("§\nb", false), ("a\n§", false), ("{ } §", false), ("if (a) §", false), ("if (a) §\nelse b", false), ("if (a) §; else §", false), ("if (§);", false), ("while (§);", false), ("while (a) §", false), ("do § while (a)", false), ("do §\nwhile (a)", false), ("do ; while (§)", false), ("do ; while (§) b", false), ("for (§;;);", false), ("for (x = §;;);", false), ("for (a, §;;);", false), ("for (var x = §;;);", false), ("for (var x, y = §;;);", false), ("for (let x = §, y;;);", false), ("for (const x = § ;;);", false), ("for (;§;);", false), ("for (;;§);", false), ("for (;;) §", false), ("for (§ in b);", false), ("for (§ of b);", false), ("for (x in §);", false), ("for (x of §);", false), ("for (var x in §);", false), ("for (const x of §);", false), ("for (let [x = §] of b);", false), ("for (var { x = § } in b);", false), ("for ([x = §] of b);", false), ("for ({ x: y[§] } of b);", false), ("for (x[§] of b);", false), ("for (x[§] in b);", false), ("for (x.y(§).z in b);", false), ("for (x = y[§];;);", false), ("for (x = (§);;);", false), ("for (x = y ? § : z;;);", false), ("for (x = y ? z : §;;);", false), ("for (x = y => §;;);", false), ("for (x = y => { § };;);", false), ("for (x = [§];;);", false), ("for (x = `${§}`;;);", false), ("for (x = f(§);;);", false), ("for (var [x] = §;;);", false), ("for (var x = function () { § };;);", false), ("for (§, x;;);", false), ("async function f() { for await (x of §); }", false), ("async function f() { for await (§ of b); }", false), ("switch (§) { }", false), ("switch (a) { case §: }", false), ("switch (a) { case 1: § }", false), ("switch (a) { default: § }", false), ("throw §", false), ("throw §\nb", false), ("function f() { return § }", false), ("function f() { return §\nb }", false), ("function f() { § }", false), ("function f(x = §) { }", false), ("function* g() { yield § }", false), ("function* g() { yield\n§ }", false), ("function* g() { § }", false), ("async function f() { § }", false), ("async function f() { await § }", false), ("class A extends § { }", false), ("class A { m() { § } }", false), ("class A extends B { constructor() { § } }", false), ("var x = §", false), ("var x = §, y", false), ("let x = §", false), ("const x = §", false), ("var { a = § } = b", false), ("var { [§]: a } = b", false), ("var [a = §] = b", false), ("let [{ a = § }] = b", false), ("l: §", false), ("with (§);", false), ("try { § } catch { }", false), ("try { } catch ({ x = § }) { }", false), ("try { } finally { § }", false), ("export default §", false), ("export default §;", false), ("export default §\nb", false), ("export const x = §", false), ("'use strict'; §", false), ("\"s\"\n§", false), ("function f() { 'use strict'; return § }", false),
    ("a?.b[§]", true), ("a?.b(§)", true), ("a?.b.c[§]", true), ("a?.[b][§]", true), ("a?.()[§]", true), ("a?.b(c)(§)", true), ("a?.b?.[§]", true), ("a.b[§]", true), ("a[b][§]", true), ("a()[§]", true), ("a(§)[b]", true), ("a[§]()", true), ("a?.[§].b", true), ("a?.[§]?.c", true), ("new a[§]", true), ("new a[§]()", true), ("new a.b[§](c)", true), ("new a(§)", true), ("new a(§).b", true), ("new (§)(b)", true), ("`a`[§]", true), ("a`b`[§]", true), ("a`${§}`", true), ("`${§}${a}`", true), ("[a][§]", true), ("({ a })[§]", true), ("this[§]", true), ("(a, §)", true), ("(§, a)", true), ("(§)()", true), ("(§)[a]", true), ("(§).a", true), ("(§)?.a", true), ("(§)`a`", true), ("import(a)[§]", true), ("({ [§]: a })", true), ("({ get [§]() { } })", true), ("({ a, ...§ })", true), ("(class { static [§]() { } })", true), ("(class extends (§) { })", true), ("(class extends a[§] { })", true), ("x => (§)", true), ("x => [§]", true), ("(x = §) => y", true), ("([x = §]) => y", true), ("({ x = §, y }) => z", true), ("({ [§]: x }) => y", true), ("(function () { a[§] })", true), ("(() => { a(§) })", true), ("[x = §] = y", true), ("({ x = § } = y)", true), ("({ [§]: x } = y)", true), ("[a[§]] = y", true), ("({ x: a[§] } = y)", true), ("[...a[§]] = y", true), ("a[§] = y", true), ("a[§]++", true), ("++a[§]", true), ("delete a[§]", true), ("typeof a[§]", true), ("await a[§]", true), ("yield a[§]", true), ("a ? b[§] : c", true), ("a || b[§]", true), ("a ?? b[§]", true), ("a ** b[§]", true), ("a in b[§]", true), ("a => b[§]", true), ("async (x = §) => y", true), ("async(a, §)[b]", true), ("a = b[§]", true),
];
pub const EXPR: &[&str] = &[
    "", "a", "1", "0x1f", "1.5e3", ".5", "\"s\"", "'s'", "`t`", "`a${b}c`", "/r/g", "/[/]\\/[\\]/]/", "null", "true", "this", "undefined", "async", "of", "get", "let", "yield", "await", "static", "eval", "arguments", "target", "meta", "super", "import", "new", "if", "enum", "else",
    "a.b", "a.if", "a['b']", "a[b, c]", "a[]", "a.", ".a", "a.1", "a.'b'", "a..b", "1..b", "1.b", "a?.b", "a?.[b]", "a?.(b)", "a?.b.c", "a?.b(c)", "a?.b = 1", "a?.`t`", "a?.5:1", "a()", "a(b)", "a(b, ...c)", "a(b,)", "a(,)", "a(b,,c)", "a(b c)", "a(...)", "a`t`", "a`t${b}u`", "a.b`t`()", "new a", "new a()", "new a.b(c)", "new a(b).c", "new a()()", "new (a())", "new (a().b)()", "new new a", "new new a()()", "new a`t`", "new a?.b", "new a?.()", "new import(a)", "new.target", "new.foo", "new . target", "new async()", "new (async () => 1)", "new function () { }", "new class { }", "new a\n(b)", "super.x", "super[x]", "super()", "super?.x", "import(a)", "import()", "import(a, b)", "import(...a)", "import.meta", "import.foo", "import.meta.url",
    "[]", "[a]", "[a, b]", "[,]", "[, a]", "[a, ,]", "[a, , b]", "[...a]", "[...a, b]", "[...a,]", "[...]", "[a b]", "[a = 1]", "[a.b]", "[f()]", "[[a]]", "[{ a }]", "{}", "{ }", "{ a }", "{ a, b }", "{ a: 1 }", "{ a: b }", "{ a: 1, }", "{ , }", "{ a, , b }", "{ a = 1 }", "{ a: b = 1 }", "{ 'a': 1 }", "{ 1: a }", "{ [a]: b }", "{ [a] }", "{ [a, b]: c }", "{ 'a' }", "{ 1 }", "{ ...a }", "{ ...a, b }", "{ ...a, }", "{ if }", "{ if: 1 }", "{ get }", "{ get: 1 }", "{ get, set }", "{ async }", "{ m() { } }", "{ get a() { } }", "{ get a(b) { } }", "{ set a(b) { } }", "{ set a() { } }", "{ set a(...b) { } }", "{ async m() { } }", "{ async *m() { } }", "{ *m() { } }", "{ get *m() { } }", "{ async get a() { } }", "{ async\nm() { } }", "{ get\na() { } }", "{ a b }", "{ a: }", "{ a; }", "{ m() { super.x } }", "({ a })", "({ a = 1 })", "({})", "([a])", "([a] = b)", "[a] = b", "({ a } = b)", "{ a } = b", "{ __proto__: a, __proto__: b }",
    "function () { }", "function f() { }", "function* () { }", "function* yield() { }", "function f(a, b) { return a }", "function (a,) { }", "function (,) { }", "function (...a) { }", "function (...a,) { }", "function (...a, b) { }", "function (a a) { }", "function", "async function () { }", "async function* f() { }", "async\nfunction f() { }", "async function await() { }", "class { }", "class A { }", "class A extends B { }", "class extends a.b() { }", "class extends a, b { }", "class extends a => a { }", "class A extends { }", "class { m() { } }", "class { m() }", "class { a = 1 }", "class { ; }", "class", "class A",
    "a => b", "a => { }", "a => ({ })", "() => a", "() => { }", "(a) => b", "(a, b) => c", "(a,) => b", "(a, ...b) => c", "(...a) => b", "(...a,) => b", "(...a, b) => c", "([a]) => b", "({ a }) => b", "({ a = 1 }) => b", "(a = 1) => b", "(a.b) => c", "((a)) => b", "(a, (b)) => c", "([(a)]) => b", "(1) => a", "(a + b) => c", "(f()) => a", "a => b => c", "a => { return b }", "() => a, b", "a => b ? c : d", "a => { }\n/b/g", "a\n=> b", "(a)\n=> b", "()", "(,)", "(a,)", "(a, b)", "(a)", "((a))", "(...a)", "(a, ...b)", "(a", "a)", "async a => b", "async (a) => b", "async () => { }", "async (a, ...b) => c", "async ([a]) => b", "async (a.b) => c", "async\na => b", "async a\n=> b", "async (a)\n=> b", "async()", "async(a)", "async(a, ...b)", "async.a", "async\n(a)", "async => a", "async (async) => b", "async async => b", "async yield => b", "async ({ a = 1 })", "async ({ a = 1 }) => b", "async a", "async (x) => await x", "async => await a", "a => { } ()", "a => { }.b", "a => { } + b", "a => { } ? b : c", "async a => { } ()",
    "-a", "- a", "+a", "!a", "~a", "typeof a", "void 0", "delete a.b", "delete a", "- -a", "+ +a", "!typeof a", "-a ** b", "(-a) ** b", "-(a ** b)", "a ** -b", "a ** b ** c", "typeof a ** b", "await a", "await a ** b", "yield a", "yield* a", "yield\na", "yield* ", "a++", "a--", "++a", "--a", "a++ ++", "++a++", "++ ++a", "a.b++", "a()++", "++a()", "1++", "(a)++", "++(a)", "[a]++", "++{ a }", "this++", "a\n++", "a\n++b", "a++ + ++b", "a - -b", "a+ +b", "a ++", "-a++", "- --a", "a++ ** 2", "++a ** 2", "++new.target", "async++",
    "a + b", "a - b * c", "a * b - c", "(a + b) * c", "a % b / c", "a << b >> c >>> d", "a < b", "a <= b > c >= d", "a == b != c", "a === b !== c", "a & b ^ c | d", "a && b || c", "a || b && c", "a ?? b", "a ?? b ?? c", "a ?? b || c", "a || b ?? c", "a ?? b && c", "a && b ?? c", "(a || b) ?? c", "a ?? (b && c)", "a in b", "a in b in c", "(a in b)", "!a in b", "a instanceof b", "a + b in c", "a in", "in a", "a +", "+ ", "a + + b", "a b", "a 1", "1 a", "a * * b", "a ** ", "a === === b", "a <!-- b", "a ! b", "a ? b", "a ? b :", "a ? : c", "a ?? ", "?? a", "a => b in c", "a = b in c", "a ? b : c in d", "a ? b in c : d", "a ? b : c", "a ? b : c ? d : e", "a ? b ? c : d : e", "(a ? b : c) ? d : e", "a ? b, c : d", "a ? b : c, d", "a ? (b) : c => d", "a ? (b) => c : d", "a ? b => c : d => e", "a ? (b, c) : d", "a ? (b) => (c) : d", "a ? { b } : [c]", "a ? async (b) => c : d", "a ? async(b) : c => d", "a ? .5 : 1",
    "a = b", "a = b = c", "a += b", "a -= b", "a *= b", "a /= b", "a %= b", "a **= b", "a <<= b", "a >>= b", "a >>>= b", "a &= b", "a ^= b", "a |= b", "a.b = c", "a[b] = c", "a() = b", "(a) = b", "(a.b) = c", "((a)) = b", "(a, b) = c", "(a = b) = c", "a + b = c", "a = ", "= a", "1 = a", "'s' = a", "this = a", "new.target = a", "import.meta = a", "super.x = a", "[a, b] = c", "[a, ...b] = c", "[...a, b] = c", "[a + b] = c", "[a()] = b", "[(a)] = b", "[(a.b)] = c", "[([a])] = b", "([a]) = b", "({ a }) = b", "({ a }) => b", "[a] += b", "({ a } += b)", "({ a: b.c } = d)", "({ a: (b) } = c)", "({ a: ({ b }) } = c)", "({ a() { } } = b)", "({ get a() { } } = b)", "({ ...a.b } = c)", "({ ...(a) } = b)", "({ ...{ a } } = b)", "({ a = 1, b: c = 2 } = d)", "({ a: 1 } = b)", "({ 'a': b } = c)", "({ [a]: b } = c)", "{ a = 1 } = b", "a => a = b", "a = b => c", "a = (b, c)", "a, b", "a, b, c", "a,", ", a", "a, , b", "...a", "a...b", "...", "a;", "a }", "a ]", "} a", "=> a", "a =>", "a : b", "a ? b : c : d", "var a", "let a", "return", "throw a", "@a", "#a", "a.#b", "#a in b", "1n", "a??b?.c", "a?.b?.c", "a?.[b]?.(c)", "(a?.b).c", "(a?.b)++", "a?.b++", "++a?.b", "delete a?.b", "new (a?.b)()", "a?.b => c", "[a?.b] = c", "async?.(a)", "async?.a", "this?.a", "1?.5:a", "'s'?.length", "`t`?.a",
];

/// Positions of a binding or an assignment target
pub const PATTERN_CTX: &[&str] = &[
    "var § = x", "let § = x", "const § = x", "var §", "let §", "var y, § = x, z", "let § = x, y = 1", "var [§] = x", "var [y, §] = x", "var [...§] = x", "var [[§]] = x", "var { y: § } = x", "var { y: [§] } = x", "var { y: § = 1 } = x", "var { y, ...§ } = x", "var {§} = x", "var { y, § } = x", "let {§, y} = x", "function f(§) { }", "function f(y, §) { }", "function f(...§) { }", "function f(§ = 1) { }", "function f([§]) { }", "function f({ y: § }) { }", "function f({§}) { }", "(function (§) { })", "async function f(§) { }", "function* f(§) { }", "({ m(§) { } })", "({ m(y, ...§) { } })", "({ set m(§) { } })", "({ get m(§) { } })", "(class { m(§) { } })", "(class { set m(§) { } })", "(class { static m([§]) { } })", "(class { constructor(§) { } })", "(§) => 1", "(y, §) => 1", "(§, y) => 1", "(...§) => 1", "(y, ...§) => 1", "(§ = 1) => 1", "([§]) => 1", "({ y: § }) => 1", "({§}) => 1", "({ y, § }) => 1", "({ y: [§] = z }) => 1", "(y = [§]) => 1", "(y = {§}) => 1", "(y = (§)) => 1", "(y = z => §) => 1", "§ => 1", "async (§) => 1", "async (y, §) => 1", "async (...§) => 1", "async ([§]) => 1", "async ({ y: § }) => 1", "async ({§}) => 1", "async § => 1", "async(§)", "async(y, §)", "async([§])", "async({§})", "try { } catch (§) { }", "try { } catch ([§]) { }", "try { } catch ({§}) { }", "for (var § of x);", "for (let § of x);", "for (const § of x);", "for (var § in x);", "for (let § in x);", "for (const § in x);", "for (var § = 1 in x);", "for (let § = 1 of x);", "for (var y, § of x);", "for (var § = x;;);", "for (let § = x, y;;);", "for (var §;;);", "for (var [§] of x);", "for (const { y: § } of x);", "for (let {§} of x);", "for (let [...§] in x);",
    "(§ = x)", "§ = x", "y = § = x", "§ += x", "[§] = x", "[y, §] = x", "[§, y] = x", "[...§] = x", "[y, ...§] = x", "[[§]] = x", "[{§}] = x", "[{ y: § }] = x", "[§ = 1] = x", "({ y: § } = x)", "({ y: [§] } = x)", "({ y: § = 1 } = x)", "({ y: { z: § } } = x)", "({§} = x)", "({ y, § } = x)", "({ §, y } = x)", "({ ...§ } = x)", "({ y: [...§] } = x)", "for (§ of x);", "for (§ in x);", "for (§;;);", "for ([§] of x);", "for ([...§] of x);", "for ({ y: § } of x);", "for ({§} of x);", "for ([§] in x);", "for ({ y: [§] } in x);", "for ((§) of x);", "for ([§];;);", "for ({§};;);", "for ([§] = x;;);", "for ({§} = x;;);", "async function f() { for await (§ of x); }", "async function f() { for await (let § of x); }", "async function f() { for await ([§] of x); }", "(§)", "(y, §)", "(§, y)", "((§))", "x = §", "x = [§]", "x = {§}", "x = ({ y: § })", "f(§)", "f({§})", "[§]", "({§})", "({ y: § })", "({ y: [{§}] })", "[{§}]", "[§].z", "({§}).z", "[§] + 1", "({§}, 1)", "(y, {§})", "((§) = x)", "([§]) = x", "({§}) = x", "(([§])) => 1", "(([§] = x))", "(({§} = x) => 1)", "(({ y: { z: § } } = x) => 1)", "x => ([§] = x)", "x ? [§] = y : z", "x ? ({§} = y) : z", "x ? (§) : z", "x ? (§) => y : z", "x ? y : (§) => z", "x ? async (§) => y : z", "`${[§] = x}`", "new x([§] = y)", "class A extends ([§] = x) { }", "yield => { [§] = x }", "[§]\n= x", "(§)\n=> 1", "(\n§\n) => 1", "[\n§\n] = x", "export const § = x", "export let [§] = x", "export default ({§}) => 1", "export default [§] = x", "§++", "--§", "delete §",
];
pub const PATTERN: &[&str] = &[
    "", "a", "a = 1", "a = b = c", "a: b", "a: b = 1", "a: b.c", "a: b.c = 1", "a: [b]", "a: [b] = c", "a: { b }", "a: { b = 1 } = c", "a: 1", "a: b()", "a: (b)", "a: (b.c)", "a: (b) = 1", "a: ([b])", "a: b += 1", "a: b => c", "'a': b", "'a'", "1: b", "1", "[a]: b", "[a]: b = 1", "[a]: [b]", "[a]", "if: b", "if", "if = 1", "get", "get = 1", "get: b", "set: b", "async: b", "async", "async = 1", "static", "get a() { }", "set a(b) { }", "a() { }", "*a() { }", "async a() { }", "async *a() { }", "...a", "...a, b", "...a,", "...a = 1", "...[a]", "...[a, b]", "...{ a }", "...a.b", "...a[b]", "...a()", "...(a)", "...(a.b)", "...([a])", "... ...a", "...", "a, b", "a, a", "a, ...b", "a, ...b, c", "a, ...b,", "a, ...[b]", "a, ...{ b }", "a,", "a,,", "a, , b", ",", ", a", ",,", ", , a", "a = 1, b = 2", "a = 1, ...b", "a b", "a;", "a.b", "a.b = 1", "a[b]", "a[b] = 1", "a.b.c", "a().b", "a()", "a() = 1", "a`t`", "new a", "new a.b", "new.target", "super.a", "import.meta", "this", "this.a", "null", "true", "1 = 1", "'s'", "'s' = 1", "`t`", "/r/", "a?.b", "a?.b = 1", "a++", "-a", "a + b", "a || b", "a ? b : c", "a => b", "() => a", "async a => b", "async () => a", "function () { }", "class { }", "yield", "yield = 1", "await", "await = 1", "let", "let = 1", "eval", "arguments", "of", "of = 1", "enum", "undefined", "(a)", "((a))", "(a) = 1", "(a = 1)", "(a, b)", "(a.b)", "(a.b) = 1", "(a[b])", "([a])", "([a]) = 1", "({ a })", "({ a }) = 1", "(a())", "()", "(...a)", "[]", "[] = 1", "[a = 1]", "[a, b]", "[a,]", "[, a]", "[a, , b]", "[...a]", "[...a] = b", "[...a,]", "[...a, b]", "[...a = 1]", "[...[a]]", "[...{ a }]", "[...a.b]", "[...(a)]", "[[a]]", "[[a] = b]", "[{ a }]", "[{ a = 1 }]", "[{ a } = b]", "[a] = b", "[a, b] = c", "[a] = [b]", "[a.b]", "[a.b = 1]", "[a[b]]", "[a()]", "[(a)]", "[(a) = 1]", "[(a.b)]", "[([a])]", "[({ a })]", "[a + b]", "[a => b]", "[1]", "[this]", "[yield]", "[await]", "[a += b]", "[a = b += c]", "[a].b", "[a][b]", "[a]()", "[a]`t`", "[a] + b", "[a]++", "{}", "{} = 1", "{ a }", "{ a, }", "{ a, b }", "{ , }", "{ a b }", "{ a = 1 }", "{ a = 1, b }", "{ a: b }", "{ a: b = 1 }", "{ a: b.c }", "{ a: b[c] = 1 }", "{ a: [b] }", "{ a: [b] = c }", "{ a: { b } }", "{ a: { b = 1 } = c }", "{ a: b() }", "{ a: 1 }", "{ a: (b) }", "{ a: (b.c) }", "{ a: ([b]) }", "{ a: b + c }", "{ 'a': b }", "{ 'a': b = 1 }", "{ 'a' }", "{ 1: b }", "{ [a]: b }", "{ [a]: b = 1 }", "{ [a] }", "{ [a] = 1 }", "{ ...a }", "{ ...a, }", "{ ...a, b }", "{ a, ...b }", "{ ...a.b }", "{ ...(a) }", "{ ...{ a } }", "{ ...a() }", "{ ...a = 1 }", "{ a } = b", "{ a = 1 } = b", "{ a: b } = c", "{ a = 1 }.b", "{ a }.b", "{ a }.b = 1", "{ a = 1 } + b", "{ a = 1 }()", "{ a }++", "{ if }", "{ if: a }", "{ if = 1 }", "{ get }", "{ get = 1 }", "{ get: a }", "{ set: a = 1 }", "{ async }", "{ async = 1 }", "{ async: a }", "{ static }", "{ get a() { } }", "{ set a(b) { } }", "{ a() { } }", "{ *a() { } }", "{ async a() { } }", "{ yield }", "{ await }", "{ eval }", "{ eval = 1 }", "{ arguments: a }", "{ a: eval }", "{ let }", "{ this }", "{ a: this }", "{ true }", "{ a: 'b' }", "{ __proto__: a }", "{ __proto__: a, __proto__: b }", "{ __proto__: a, __proto__: b } = c",
];

/// Positions of statements
pub const STMT_CTX: &[&str] = &["§", "{ § }", "{ § b }", "if (a) §", "if (a) § else b", "if (a) b; else §", "if (a) §; else b", "if (a) { § } else { § }", "while (a) §", "do § while (a)", "do § while (a);", "do { § } while (a) b", "for (;;) §", "for (a in b) §", "for (a of b) §", "for (let a of b) §", "with (a) §", "l: §", "l: m: §", "l: { § }", "l: for (;;) { § }", "switch (a) { case 1: § }", "switch (a) { case 1: § case 2: }", "switch (a) { default: § }", "switch (a) { case 1: default: § case 2: break; }", "switch (a) { § }", "try { § } catch { }", "try { § } finally { }", "try { } catch (e) { § }", "try { } catch { § } finally { }", "try { } finally { § }", "try § catch { }", "try { } catch §", "function f() { § }", "function* f() { § }", "async function f() { § }", "async function* f() { § }", "(function () { § });", "(() => { § });", "(async () => { § });", "({ m() { § } });", "({ get m() { § } });", "({ async *m() { § } });", "class A { m() { § } }", "class A { static m() { § } }", "class A extends B { constructor() { § } }", "'use strict'; §", "'use strict'\n§", "function f() { 'use strict'; § }", "a\n§", "a; §", "{ } §", "§ b", "§\nb", "§\n(b)", "§\n[b]", "§\n++b", "§\n/b/g", "§; b", "§;", ";§", "/*\n*/ § /*\n*/", "if (a) ; § else b", "for (;;) { § b }", "export §", "export default §", "function f() { if (a) § }", "function* f() { while (a) § }", "async function f() { l: § }"];
pub const STMT: &[&str] = &["", ";", ";;", "{}", "{ ; }", "{ a }", "{ a; b }", "{ a b }", "{ a\nb }", "{", "}", "a", "a;", "a, b", "a = b", "'s'", "'use strict'", "\"use strict\"; a", "('use strict')", "'s' + a", "'s'.a", "'s', a", "'s' ? a : b", "'s'\n.a", "'s'\n/a/g", "/r/", "/r/g.test(a)", "`t`", "1", "this", "(a)", "[a]", "({})", "({ a } = b)", "{ a } = b", "{ a: b }", "{ a: { b: c } }", "{ 'a': b }", "function f() { }", "function* f() { }", "function () { }", "function* () { }", "function f() { } ()", "function f() { }\n(a)", "async function f() { }", "async function* f() { }", "async function () { }", "async\nfunction f() { }", "async () => { }", "async () => a", "async a => b", "async a\n=> b", "async", "async()", "async\na", "async: a", "async\n() => a", "(async function () { })", "class A { }", "class { }", "class A extends B { }", "class A { } b", "class A { m() { } ; static n() { } }", "let a", "let a;", "let a = 1", "let a, b = 2", "let\na", "let [a] = b", "let { a } = b", "let\n[a] = b", "let\n{ a } = b", "let [a]", "let { a }", "let", "let;", "let = 1", "let()", "let.a", "let[a]", "let: a", "let in a", "let instanceof a", "let let", "let yield", "let\nlet = 1", "const a = 1", "const a", "const { a } = b", "const [a] = b, c = 1", "const", "const a = 1,", "var a", "var a = 1", "var a, b", "var a = 1, b", "var", "var a,", "var a b", "var a\nb", "var a = 1\n, b", "var\na", "var [a] = b", "var { a: b } = c", "var a += 1", "var a.b", "var (a)", "var 1", "if (a) b", "if (a) b; else c", "if (a) b\nelse c", "if (a) b else c", "if (a) { } else { }", "if (a) { } else if (b) { } else { }", "if (a) if (b) c; else d", "if a", "if (a", "if (a) else b", "if () a", "if (a);", "if (a); else;", "if (a) function f() { }", "if (a) function f() { } else b", "if (a) function* f() { }", "if (a) async function f() { }", "if (a) class B { }", "if (a) let b", "if (a) let\nb", "if (a) let", "if (a) let [b] = c", "if (a) let\n[b] = c", "if (a) let\n{ }", "if (a) const b = 1", "if (a) var b", "if (a) async\nfunction f() { }", "else", "else a", "while (a) b", "while (a);", "while (a) { }", "while (a)", "while () a", "while a", "while (a) function f() { }", "while (a) class B { }", "while (a) let\nb", "while (a) async () => b", "do a; while (b)", "do a\nwhile (b)", "do a while (b)", "do { } while (a)", "do { } while (a) b", "do { } while (a);", "do ; while (a)", "do while (a)", "do while (a); while (b)", "do a, b; while (c)", "do { }", "do function f() { } while (a)", "for (;;);", "for (;;) a", "for (a; b; c);", "for (a;;);", "for (;a;);", "for (;;a);", "for (a, b; c, d; e, f);", "for (var a;;);", "for (var a = 1, b = 2; a; b);", "for (let a;;);", "for (let a = 1; a; a++);", "for (let;;);", "for (let a, b;;);", "for (const a = 1;;);", "for (const a;;);", "for (var a in b);", "for (let a in b);", "for (const a in b);", "for (a in b);", "for (a.b in c);", "for (a in b, c);", "for (var a in b, c);", "for (let of b);", "for (let of of b);", "for (let in b);", "for (let.a in b);", "for (let = 1;;);", "for (let[a] = 1;;);", "for (let\n[a] of b);", "for (var a of b);", "for (let a of b);", "for (const a of b);", "for (a of b);", "for (a of b, c);", "for (var a of b, c);", "for (a of of);", "for (of of of);", "for (var of of of);", "for (async of b);", "for (async of => b;;);", "for (async in b);", "for (async.a of b);", "for (async() in b);", "for ((async) of b);", "for (var async of b);", "for (var a, b of c);", "for (var a, b in c);", "for (var a = 1 of b);", "for (let a = 1 in b);", "for (var a = 1 in b);", "for (a = 1 in b);", "for (a = 1 of b);", "for ((a) of b);", "for ((a.b) in c);", "for (a() of b);", "for (a + b in c);", "for ((a in b);;);", "for (a in b;;);", "for (var a = (b in c);;);", "for (var a = b in c;;);", "for (var a = [b in c];;);", "for (1 of a);", "for (this in a);", "for ([a, b] of c);", "for ({ a } of b);", "for ({ a, b: c } in d);", "for ([a] = b;;);", "for (var [a] of b);", "for (var { a } in b);", "for (const { a = 1 } of b);", "for (a => b in c;;);", "for (a => { b in c };;);", "for (() => { } of a);", "for (new a in b);", "for (new a.b of c);", "for (a?.b of c);", "for (yield of a);", "for (a;b);", "for (a);", "for ();", "for (a;b;c;d);", "for (a of);", "for (of a);", "for (in a);", "for (var of a);", "for (var in a);", "for a;", "for (;;)", "for (;;) function f() { }", "for (;;) class B { }", "for (;;) let\na", "for (a of b) function f() { }", "for (a of b) let\n[c] = d", "for await (a of b);", "for await (let a of b);", "for await (a in b);", "for await (;;);", "for await (async of a);", "for await (var a = 1 of b);", "with (a) b", "with (a) { }", "with (a) function f() { }", "with () a", "l: a", "l: m: a", "l: l: a", "l: { }", "l: for (;;) break l", "l: for (;;) continue l", "l: function f() { }", "l: function* f() { }", "l: class A { }", "l: let a", "l: let\na", "l: const a = 1", "l: async function f() { }", "l:", "l: ;", "l\n: a", "(l): a", "yield: a", "await: a", "if: a", "1: a", "break", "break;", "break l", "break\nl", "break l\na", "break 1", "continue", "continue;", "continue l", "continue\nl", "continue l;", "return", "return;", "return a", "return\na", "return a, b", "return a\nb", "return /a/", "return { a }", "return (\na)", "throw a", "throw a;", "throw", "throw\na", "throw a, b", "throw new a", "throw { a }", "switch (a) { }", "switch (a) { case 1: }", "switch (a) { case 1: b; case 2: c; break; default: d }", "switch (a) { default: }", "switch (a) { default: case 1: }", "switch (a) { case: }", "switch (a) { case 1 }", "switch (a) { b }", "switch (a) { case 1: b default: c }", "switch (a) { case 1: function f() { } class B { } let c }", "switch (a) { case b, c: }", "switch (a) { case (b): { } }", "switch a { }", "switch () { }", "switch (a)", "switch (a) { case b ? c : d: e }", "switch (a) { default a: }", "try { } catch (a) { }", "try { } catch { }", "try { } finally { }", "try { } catch (a) { } finally { }", "try { } catch { } finally { }", "try { }", "try a; catch { }", "try { } catch a { }", "try { } catch () { }", "try { } catch (a, b) { }", "try { } catch (a = 1) { }", "try { } catch ([a]) { }", "try { } catch ({ a, b: c }) { }", "try { } catch ({ a = 1 }) { }", "try { } finally", "try { } finally { } catch { }", "catch { }", "finally { }", "case 1:", "default:", "debugger", "debugger;", "debugger a", "debugger\na", "enum a", "enum", "import a from 'm'", "import 'm'", "import { a } from 'm'", "import * as a from 'm'", "import(a)", "import(a).b", "import.meta", "import\n(a)", "export { a }", "export default a", "export var a", "export * from 'm'", "yield", "yield a", "yield\na", "yield\n* a", "yield / a", "yield\n/ a /g", "await", "await a", "await\na", "await /a/g", "await (a)", "await + a", "new.target", "super.a", "super()", "of", "get a", "static a", "static", "a b", "a\nb", "a\n++\nb", "a ++\nb", "a\n++b", "a\n--", "a\n(b)", "a\n[b]", "a\n.b", "a\n`t`", "a\n/b/g", "a\n/b", "a\n? b : c", "a\n=> b", "a\n= b", "a\nin b", "a\ninstanceof b", "a\n, b", "a; ; b", "a /*\n*/ b", "a // c\nb", "a /* c */ b", "a\r\nb", "a\u{2028}b", "a\u{2029}b", "a <!-- c\nb", "a\n--> c\nb", "--> a", "x\n++\ny", "if (a) b\n++c", "var a\n++b", "var a = b\n++c", "var a = b\n(c)", "a }", ")", "]", "a )", "=> a", "...a", "a => { } b", "a => { }\nb", "a => { }\n(b)", "a => { }\n[b]", "a => b\nc", "function f() { } b", "function f() { } /a/g", "{ } /a/g", "{ }\n/a/g", "({}) / a / g", "a / b / g", "a++ / b / g", ") / a", "(a) / b / g", "this / b / g", "if (a) /b/g", "while (a) /b/g", "[] / a / g", "`t` / a / g", "class A { } /a/g", "x = class { } / a", "x = function () { } / a / g", "x = { } / a / g", "typeof /a/g", "a = /b/g", "a, /b/g", "(/a/g)", "[/a/g]", "{ /a/g }", "!/a/g", "a ? /b/g : /c/g", "case /a/g", "return /a/g\n/b/g", "a\n/= b", "/=a/g", "a = /=b/g"];
/// Statements without their terminators, for every pair and every way to separate them
pub const PAIR: &[&str] = &["a", "a.b", "a()", "a++", "--a", "!a", "(a)", "[a]", "{ }", "'s'", "`t`", "/r/g", "1", ".5", "this", "a = b", "a = function () { }", "a => b", "a => { }", "async a => b", "a = class { }", "a = { }", "new a", "new a()", "typeof a", "x ? y : z", "var a", "var a = b", "let a", "let [a] = b", "const a = 1", "function f() { }", "async function f() { }", "class A { }", "if (a) b", "if (a) { }", "if (a) b; else c", "while (a) b", "while (a) { }", "do a; while (b)", "do { } while (a)", "for (;;) a", "for (a of b) { }", "l: a", "switch (a) { }", "try { } catch { }", "throw a", "throw a.b", "debugger", ";", "async", "let", "yield", "await", "of", "static", "import(a)", "import.meta", "-a", "+a", "*a", "/a", "? a : b", ", a", "in a", "instanceof a", ".a", "?.a", "=> a", "= a", ": a", "++", "&& a", "?? a", "else b", "while (a)", "catch { }", "finally { }", "case 1:", "}", "export { }", "import 'm'", "export default a", "export * from 'm'", "export var a"];
pub const SEPARATE: &[&str] = &["", " ", ";", "\n", "/*\n*/", " // c\n", "\u{2028}", ";\n", "\n\n;"];

/// Positions and forms of class and object members, functions, parameters and bodies
pub const MEMBER_CTX: &[&str] = &["(class { § });", "class A { § }", "class A extends B { § }", "class A { static § }", "class A { ; §; }", "class A { m() { } § n() { } }", "class A { § § }", "({ § });", "({ a, § });", "({ §, a });", "({ §, });", "({ §, § });", "x = { § } = y", "export default class { § }", "function* g() { ({ § }) }", "async function f() { class A { § } }", "function* g() { class A { § } }", "'use strict'; ({ § })", "({ m() { ({ § }) } })", "class A { m() { class B { § } } }", "(class { static m() { } § static n() { } });"];
pub const MEMBER: &[&str] = &["m() { }", "m(a) { }", "m(a, b = 1, ...c) { }", "m(a,) { }", "m(,) { }", "m(...a,) { }", "m(...a, b) { }", "m(a a) { }", "m(a, a) { }", "m([a], { b }) { }", "m { }", "m()", "m() a", "m() => a", "m() { return super.x }", "m() { super() }", "m() { new.target }", "m() { yield }", "m() { await a }", "m() { return }", "m() { 'use strict'; }", "m(a = 1) { 'use strict'; }", "*m() { }", "*m() { yield a }", "*m() { yield* a }", "* m() { }", "*\nm() { }", "**m() { }", "*get a() { }", "*async m() { }", "async m() { }", "async m() { await a }", "async m() { yield }", "async *m() { }", "async *m() { yield await a }", "async* m() { for await (a of b); }", "async\nm() { }", "async *\nm() { }", "async async() { }", "async get() { }", "async static() { }", "async get a() { }", "async set a(b) { }", "async", "async() { }", "async(a) { }", "async: 1", "async, b", "async = 1", "async 'a'() { }", "async 1() { }", "async [a]() { }", "async *[a]() { }", "async if() { }", "async *if() { }", "get a() { }", "get a() { return 1 }", "get a(b) { }", "get a(...b) { }", "get\na() { }", "get 'a'() { }", "get 1() { }", "get [a]() { }", "get if() { }", "get get() { }", "get set() { }", "get async() { }", "get static() { }", "get *a() { }", "get async a() { }", "get", "get() { }", "get(a) { }", "get: 1", "get = 1", "get, b", "get\n*a() { }", "get a() { yield }", "get a() { super.x }", "get constructor() { }", "get prototype() { }", "set a(b) { }", "set a([b]) { }", "set a({ b }) { }", "set a(b = 1) { }", "set a() { }", "set a(b, c) { }", "set a(...b) { }", "set a(b,) { }", "set\na(b) { }", "set 'a'(b) { }", "set 1(b) { }", "set [a](b) { }", "set if(b) { }", "set set(b) { }", "set get(b) { }", "set", "set() { }", "set(a) { }", "set(a, b) { }", "set: 1", "set = 1", "set *a(b) { }", "set a(eval) { }", "static", "static() { }", "static(a) { }", "static: 1", "static m() { }", "static\nm() { }", "static *m() { }", "static async m() { }", "static async *m() { }", "static async\nm() { }", "static get a() { }", "static set a(b) { }", "static get\na() { }", "static static() { }", "static get static() { }", "static get() { }", "static set() { }", "static set(a) { }", "static async() { }", "static 'a'() { }", "static 1() { }", "static [a]() { }", "static *[a]() { }", "static get [a]() { }", "static constructor() { }", "static prototype() { }", "static get prototype() { }", "static if() { }", "static async if() { }", "static static static() { }", "static { }", "static a", "static a = 1", "constructor() { }", "constructor(a) { }", "constructor() { super() }", "constructor() { super.x }", "constructor() { () => super() }", "constructor() { function f() { super() } }", "constructor() { } constructor() { }", "'constructor'() { }", "['constructor']() { super() }", "get constructor() { }", "*constructor() { }", "async constructor() { }", "prototype() { }", "'a'() { }", "\"a b\"() { }", "1() { }", "1.5() { }", "0x1() { }", "[a]() { }", "[a + b]() { }", "[a, b]() { }", "[]() { }", "[a in b]() { }", "[`t`]() { }", "[yield]() { }", "*[a]() { }", "`t`() { }", "if() { }", "if: 1", "new() { }", "null() { }", "true() { }", "this() { }", "yield() { }", "await() { }", "let() { }", "enum() { }", "eval() { }", "a: 1", "a: b", "'a': 1", "1: 2", "[a]: 1", "[a]", "'a'", "1", "a", "a = 1", "a b", "a.b", "a;", ";", ";;", ",", "...a", "...a, b", "a: function () { }", "a: () => b", "a: async () => b", "a: class { }", "a: yield", "a: 1, a: 2", "__proto__: a", "__proto__: a, __proto__: b", "'__proto__': a, __proto__: b", "__proto__, __proto__: a", "__proto__() { }, __proto__: a", "#a", "#a() { }", "@a m() { }", "function m() { }", "class m { }", "var a", "m() { } n() { }", "m() { }, n() { }", "m() { }; n() { }", "m() { }\nn() { }", "get a() { } set a(b) { }", "get a() { }, set a(b) { }", "static m() { } static n() { }"];
pub const FUNC_CTX: &[&str] = &["function f§", "function* f§", "async function f§", "async function* f§", "(function §);", "(function f§);", "(function* §);", "(function* f§);", "(async function §);", "(async function* f§);", "({ m§ });", "({ *m§ });", "({ async m§ });", "({ async *m§ });", "({ get m§ });", "({ set m§ });", "({ [a]§ });", "class A { m§ }", "class A { static m§ }", "class A { *m§ }", "class A { static async m§ }", "class A { static async *m§ }", "class A { get m§ }", "class A { static set m§ }", "class A { constructor§ }", "class A extends B { constructor§ }", "export default function §", "export default async function §", "export default function* f§", "export function f§", "export async function* f§", "'use strict'; function f§", "function* g() { function f§ }", "async function g() { function* f§ }", "function* g() { (function §) }", "async function g() { (async function §) }", "class A { m() { function f§ } }", "({ m() { return { n§ } } })", "if (a) function f§", "l: function f§", "new function §", "x = function §.a", "function § ", "async\nfunction f§"];
pub const FUNC: &[&str] = &["() { }", "(a) { }", "(a, b) { }", "(a,) { }", "(,) { }", "(a,,b) { }", "(a b) { }", "(a, a) { }", "(a = 1) { }", "(a = 1, b) { }", "(a, b = a) { }", "(...a) { }", "(...a,) { }", "(...a, b) { }", "(a, ...b) { }", "(...[a, b]) { }", "(...{ a }) { }", "(...a = 1) { }", "([a]) { }", "([a] = b) { }", "({ a }) { }", "({ a = 1 }) { }", "({ a: b } = c) { }", "({ a, ...b }) { }", "([a, ...b], { c }) { }", "(a.b) { }", "(1) { }", "((a)) { }", "(this) { }", "(yield) { }", "(await) { }", "(a = yield) { }", "(a = yield b) { }", "(a = await b) { }", "(a = () => yield) { }", "(a = function* () { yield }) { }", "(a = async () => await b) { }", "(a = super.x) { }", "(a = super()) { }", "(a = new.target) { }", "(eval) { }", "(arguments) { }", "(let) { }", "(if) { }", "(enum) { }", "(async) { }", "(static) { }", "(a = b in c) { }", "(a = [b, ...c]) { }", "(a = { b }) { }", "(a = b = c) { }", "(a = (b, c)) { }", "(a = b, c = d) { }", "() { return }", "() { return a }", "() { return\na }", "() { yield }", "() { yield a }", "() { yield* a }", "() { yield\n* a }", "() { yield\na }", "() { x = yield }", "() { x = yield a, b }", "() { f(yield, yield a) }", "() { [yield] }", "() { `${yield}` }", "() { a ? yield : yield b }", "() { yield ? a : b }", "() { yield + a }", "() { a + yield }", "() { a + (yield) }", "() { yield => a }", "() { (yield) => a }", "() { (a = yield) => b }", "() { yield yield a }", "() { yield /a/g }", "() { yield\n/a/g }", "() { yield in a }", "() { (yield) in a }", "() { for (yield in a;;); }", "() { var yield }", "() { yield: a }", "() { function yield() { } }", "() { ({ yield }) }", "() { ({ yield: a }) }", "() { a.yield }", "() { yield.a }", "() { delete yield }", "() { void yield }", "() { await }", "() { await a }", "() { await a.b }", "() { await a() }", "() { await\na }", "() { x = await a }", "() { await a + await b }", "() { await a ** b }", "() { (await a) ** b }", "() { -await a }", "() { await -a }", "() { await await a }", "() { await yield }", "() { yield await a }", "() { new await a }", "() { new (await a) }", "() { await a => b }", "() { async a => await a }", "() { async () => { await a } }", "() { a => await a }", "() { (a = await b) => c }", "() { async (a = await b) => c }", "() { async(await a) }", "() { var await }", "() { await: a }", "() { ({ await }) }", "() { a.await }", "() { function await() { } }", "() { class await { } }", "() { for await (a of b); }", "() { for await (let a of b); }", "() { for await (a in b); }", "() { await 1 }", "() { await [a] }", "() { await { a } }", "() { await /a/ }", "() { await (a) }", "() { await `t` }", "() { await function () { } }", "() { !await a }", "() { await a ? b : c }", "() { await a, b }", "() { await a = b }", "() { await a++ }", "() { super.x }", "() { super[x] }", "() { super.x() }", "() { super.x = a }", "() { super() }", "() { super(a, ...b) }", "() { () => super.x }", "() { () => super() }", "() { function g() { super.x } }", "() { ({ m() { super.x } }) }", "() { ({ m() { super() } }) }", "() { class C { m() { super.x } } }", "() { class C extends D { constructor() { super() } } }", "() { super }", "() { super?.x }", "() { new super.x }", "() { new super() }", "() { super`t` }", "() { delete super.x }", "() { super.x++ }", "() { new.target }", "() { new.target.a }", "() { new.target() }", "() { new new.target }", "() { new.target = a }", "() { () => new.target }", "() { 'use strict' }", "() { 'use strict'; with (a); }", "() { 'use strict'; var yield }", "() { 'use strict'; a = 010 }", "() { 'a'; 'use strict'; delete a }", "() { ('use strict'); with (a); }", "() { 'use strict' + a; with (b); }", "() { 'use strict'\n.a; with (b); }", "() { 'use strict', a; with (b); }", "() { a; 'use strict'; with (b); }", "() { \"use strict\"; function g() { with (a); } }", "(a = 1) { 'use strict' }", "(eval) { 'use strict' }", "(a, a) { 'use strict' }", "(yield) { 'use strict' }", "() { let a; let b }", "() { function g() { } function g() { } }", "() { arguments }", "() { this }", "() { } a", "() { } ()", "()", "() a", "() => a", "{ }", "(", "() {", "() { ) }", "(a { }", "a) { }"];

/// Imports and exports
pub const MODULE_CTX: &[&str] = &["import § from 'm'", "import § from 'm';", "import §, { b } from 'm'", "import §, * as b from 'm'", "import b, § from 'm'", "import { § } from 'm'", "import { §, b } from 'm'", "import { b, § } from 'm'", "import { §, } from 'm'", "import { a as § } from 'm'", "import { § as a } from 'm'", "import { a as b, c as § } from 'm'", "import * as § from 'm'", "import * as a, § from 'm'", "import b, * as § from 'm'", "import a, { b as § } from 'm'", "import §", "import §;", "import a §'m'", "import a from §", "import { a } from §", "import { a } § 'm'", "import\n§\nfrom\n'm'", "import { a }\n§", "export { § }", "export { § };", "export { a, § }", "export { §, a }", "export { §, }", "export { a as § }", "export { § as a }", "export { a as b, c as § }", "export { § } from 'm'", "export { a, § } from 'm'", "export { a as § } from 'm'", "export { § as a } from 'm'", "export { a } from §", "export { a } § 'm'", "export { a }\n§", "export * §", "export * as § from 'm'", "export * from §", "export * as a from §", "export §", "export §;", "export §\na", "export default §", "export default §;", "export default §\na", "export default §\n(a)", "export default §\n/a/g", "export var §", "export let §", "export const § = 1", "export function §() { }", "export class § { }", "export async function §() { }", "export default function §() { }", "export default class § { }", "export default class extends § { }", "export default async function §() { }", "{ export { § } }", "{ import § from 'm' }", "function f() { export § }", "if (a) export §", "if (a) import §", "a\nexport §", "a; import § from 'm'", "export default async §", "import(§)", "import.§", "import §.meta", "export default (§)", "export default import.§", "import a from 'm' §", "export * from 'm' §", "export { a } from 'm' §", "export { a } §", "export var a = 1 §", "export default a §"];
pub const MODULE: &[&str] = &["", "a", "a, b", "a, , b", "a b", "a as b", "a as", "as", "as as", "as as as", "as as as as", "* as a", "*", "* as", "* a", "* from 'm'", "* as default", "{}", "{ }", "{ a }", "{ a, b }", "{ a, }", "{ , }", "{ a as b }", "{ default as a }", "{ a as default }", "{ default }", "{ if as a }", "{ a as if }", "{ if }", "{ 'a' as b }", "{ a as 'b' }", "{ a b }", "{ * }", "{ a: b }", "{ ...a }", "{ a = 1 }", "{ [a] }", "from", "from from", "from 'm'", "from 'm';", "from a", "from", "'m'", "\"m\"", "'m';", "'m' a", "'m'\na", "'m', 'n'", "`m`", "1", "m", "(m)", "'m' + a", "null", "true", "this", "default", "default a", "if", "else", "in", "of", "new", "typeof", "function", "class", "import", "export", "super", "async", "get", "set", "static", "let", "yield", "await", "eval", "arguments", "enum", "implements", "interface", "public", "undefined", "target", "meta", "as, a", "meta.url", "meta()", "meta = 1", "a.b", "a = 1", "a = 1, b", "[a] = b", "{ a } = b", "a => b", "(a)", "() => a", "(a, b) => c", "async a => b", "async () => a", "async (a) => b", "async()", "async\nfunction f() { }", "function () { }", "function f() { }", "function* () { }", "function* f() { }", "async function () { }", "async function f() { }", "async function* () { }", "async function* f() { }", "function () { } ()", "function f() { } a", "(function () { })", "class { }", "class A { }", "class extends B { }", "class A extends B { m() { } }", "class { } a", "class { }.a", "(class { })", "{ a: 1 }", "{ m() { } }", "[a]", "[a, ...b]", "a, b", "(a, b)", "a ? b : c", "a = b", "a = function () { }", "-a", "!a", "new a", "new a()", "a()", "a.b()", "`t`", "t`t`", "/r/g", "a + b", "a in b", "a instanceof b", "delete a.b", "typeof a", "await a", "yield a", "super.a", "new.target", "import(a)", "import.meta", "import a from 'm'", "import('m')", "var a", "var a = 1", "var a, b", "let a", "let a = 1, b", "let [a] = b", "let { a } = b", "const a = 1", "const a", "const { a, b: [c] } = d", "var [a, b] = c", "if (a) b", "for (;;);", "return", "return a", "throw a", "debugger", "{ a }", "export a", "export default a", "export { a }", "default default a", "default export a", "default var a", "default let a", "default const a = 1", "default let", "default function () { }", "default class { }", "default async function () { }", "default async () => a", "default enum", "a;", "; a", ";", "\n", "\na", "\n;", "\n'm'", "\nfrom 'm'", "/*\n*/ a", "{ a } from 'm'", "{ a } from m", "{ a } from", "{ a } 'm'", "{ a, default as b } from 'm'", "{} from 'm'", "a from 'm'", "default from 'm'", "a, { b } from 'm'", "{ b }, a from 'm'", "* as a from 'm'", "* as if from 'm'", "* as 'a' from 'm'", "* as a", "* as a as b from 'm'", "type a", "defer a", "as from 'm'"];

/// Where statements can be, for sources that are put further inside
pub const WRAP: &[&str] = &["§", "§", "function f() { § }", "function* g() { § }", "async function f() { § }", "async function* g() { § }", "(function () { § });", "(() => { § });", "(async () => { § });", "({ m() { § } });", "({ *m() { § } })", "({ async m() { § } })", "({ get a() { § } })", "({ set a(b) { § } })", "class A { m() { § } }", "class A { static async *m() { § } }", "class A extends B { constructor() { § } }", "class A { set a(b) { § } }", "'use strict'; §", "'use strict'\n§", "function f() { 'use strict'; § }", "{ § }", "if (a) { § }", "if (a) ; else { § }", "switch (a) { case 1: § }", "try { § } catch { }", "try { } catch (e) { § }", "l: { § }", "for (;;) { § }", "for (a of b) { § }", "while (a) { § }", "do { § } while (a)", "with (a) { § }", "a\n§", "§\nb", "x = function* () { § }", "x = async y => { § }", "(a = () => { § }) => 1", "f(function () { § })", "`${() => { § }}`", "[a = function () { § }] = b"];

/// Where a line break, or its absence, before an expression decides
pub const AFTER: &[&str] = &["throw §", "throw\n§", "throw /*\n*/ §", "throw // c\n§;", "function f() { return § }", "function f() { return\n§ }", "() => { return /*\n*/ § }", "function* g() { yield § }", "function* g() { yield\n§ }", "function* g() { yield /*\n*/ § }", "while (1) { break\n§ }", "while (1) { continue\n§ }", "a\n§", "a++\n§", "a: while (1) break a\n§", "let a\n§", "var a = b\n§", "debugger\n§", "do a\nwhile (b) §", "do a\nwhile (b)\n§", "async\n§", "async () => a\n§", "a => { }\n§", "function f() { }\n§", "class A { }\n§", "if (a)\n§\nelse\n§", "for (;;)\n§", "'use strict'\n§"];

/// Heads of for statements: keywords, what is declared or assigned, what follows
pub const FOR: &[&str] = &["for", "for await"];
pub const FOR_LEFT: &[&str] = &["", "a", "(a)", "a.b", "a?.b", "a[b in c]", "a()", "new a", "new a()", "[a]", "[a = 1]", "[a in b]", "{ a }", "{ a = 1 }", "{ a: b in c }", "([a])", "var a", "let a", "const a", "var [a]", "let { a }", "const { a: [b] }", "var a = 1", "let a = 1", "const a = b in c", "let a = (b in c)", "var a, b", "let a, b = 1", "let [a] = b, c", "var { a = b in c }", "let [a = b in c] = d", "async", "async.a", "async()", "async a => b", "async () => a in b", "of", "let", "let.a", "let[a]", "let of", "let in", "let\na", "yield", "yield a", "await", "await a", "a, b", "a = 1", "a = b, c", "[a] = b", "{ a } = b", "{ a = 1 } = b", "(a in b)", "a in b, c", "a + b", "a + (b in c)", "() => a", "() => { a in b }", "a => b in c", "(a = b in c) => d", "function () { a in b }", "class { [a in b]() { } }", "`${a in b}`", "a ? b in c : d", "a ? b : c in d", "this", "super.a", "1", "'s'", "/r/"];
pub const FOR_REST: &[&str] = &[" of b", " in b", " of b, c", " in b, c", " of b in c", " in b in c", " of d => e", " of [a]", " of of", " of yield", " of await d", " of", " in", " of b;", " in b; c", ";;", "; b; c", "; b in c; d in e", "; b, c; d, e", ";; a++", ";", "; a", "", ";;;", " = 1 of c", " = 1 in c", " b of c", " => d;;"];
/// What the flags of the context decide, for two levels of contexts of expressions
pub const FLAGGED: &[&str] = &["a in b", "yield", "yield a", "await a", "await"];

pub fn fill(ctx: &str, with: &str) -> String { ctx.replace('§', with) }
fn cross(ctx: &[&str], fills: &[&str]) -> Vec<String> { ctx.iter().flat_map(|c| fills.iter().map(move |f| fill(c, f))).collect() }
fn expr_ctx() -> Vec<&'static str> { EXPR_CTX.iter().map(|c| c.0).collect() }
fn pairs() -> Vec<String> { let mut v = vec![]; for a in PAIR { for b in PAIR { for s in SEPARATE { v.push(format!("{a}{s}{b}")); } } } v }

/// The head of every for statement, in functions of every kind.
fn heads() -> Vec<String> {
    let mut v = vec![];
    for k in FOR { for l in FOR_LEFT { for t in FOR_REST { for w in ["§", "async function f() { § }", "function* g() { § }", "async function* g() { § }", "(async () => { § });", "({ async m() { § } });"] {
        if w == "§" || k.len() > 3 || l.contains("yield") || l.contains("await") || t.contains("yield") || t.contains("await") { v.push(fill(w, &format!("{k} ({l}{t}) d"))); }
    } } } }
    v
}
/// Expressions that the context allows or not, in every two contexts, where the context says so.
fn flagged(id: &str) -> Vec<String> {
    let inner: Vec<&str> = EXPR_CTX.iter().filter(|c| c.1).map(|c| c.0).collect();
    let mut v = vec![];
    for (i, c) in inner.iter().enumerate() { for (j, d) in inner.iter().enumerate() {
        if id == "C04" { let e = fill(c, &fill(d, "a in b")); v.push(if (i + j) % 3 == 0 { format!("for (var x = {e};;) y") } else if (i + j) % 3 == 1 { format!("for (x = {e};;) y") } else { format!("for (x, {e};;) y") }); }
        else {
            let e = fill(c, &fill(d, *["yield", "yield a", "(yield)"].get((i + j) % 3).unwrap()));
            v.push(match (i + j * 5) % 7 { 0 => format!("function* g(x = {e}) {{ }}"), 1 => format!("async function* g() {{ x = {e} }}"), 2 => format!("({{ *g() {{ return {e} }} }});"), _ => format!("function* g() {{ x = {e} }}") });
            let e = fill(c, &fill(d, if (i + j) % 4 == 0 { "await" } else { "await a" }));
            v.push(match (i * 3 + j) % 7 { 0 => format!("async function f(x = {e}) {{ }}"), 1 => format!("async x => {e}"), 2 => format!("({{ async f() {{ return {e} }} }});"), 3 => format!("async (x = {e}) => y"), _ => format!("async function f() {{ x = {e} }}") });
        }
    } }
    v
}

/// Every source of a property's tables.
pub fn all(id: &str) -> Vec<String> {
    match id {
        "C04" => { let mut v = cross(&expr_ctx(), EXPR); v.extend(flagged(id)); v }
        "C05" => cross(PATTERN_CTX, PATTERN),
        "C06" => { let mut v = cross(STMT_CTX, STMT); v.extend(pairs()); v.extend(cross(AFTER, EXPR)); v.extend(heads()); v }
        "C07" => { let mut v = cross(MEMBER_CTX, MEMBER); v.extend(cross(FUNC_CTX, FUNC)); v.extend(flagged(id)); v }
        "C08" => cross(MODULE_CTX, MODULE),
        "C11" => { let mut v = heads(); v.extend(flagged("C04")); v.extend(flagged("C07")); v }
        _ => vec![],
    }
}
/// Every filler in one or two contexts.
pub fn fillers() -> Vec<String> {
    let mut v = cross(&["§", "x = §", "export default §"], EXPR);
    v.extend(cross(&["var § = x", "(§) => 1", "[§] = x"], PATTERN)); v.extend(cross(&["§", "if (a) §"], STMT)); v.extend(cross(&["class A { § }", "({ § })"], MEMBER)); v.extend(cross(&["function f§", "(async function* §)"], FUNC)); v.extend(cross(&["import §", "import { § } from 'm'", "export §", "export { § } from 'm'", "export default §"], MODULE));
    v
}
/// One at random, of any table or of the property's own, often put further inside.
pub fn one(r: &mut Rng, id: &str) -> String {
    let kind = match id { "C04" => 0, "C05" => 1, "C06" => 2, "C07" => 3, "C08" => 4, _ => r.weighted(&[6, 4, 3, 4, 1]) };
    let expr = |r: &mut Rng, levels: usize| { let mut s = r.pick(EXPR).to_string(); for _ in 0..levels { let c = loop { let c = r.pick(EXPR_CTX); if c.1 { break c.0; } }; s = fill(c, &s); } s };
    let s = match kind {
        0 => { let n = r.below(3); let e = expr(r, n); let c = r.pick(EXPR_CTX).0; fill(c, &e) }
        1 => { let c = *r.pick(PATTERN_CTX); let mut f = r.pick(PATTERN).to_string(); if r.pct(50) { let inner = *r.pick(&["[§]", "{ a: § }", "[a, §]", "[...§]", "{§}", "{ a, § }", "§ = 1", "§ = [b]", "(§)", "a = §", "a: §", "a: §, b", "[a] = §", "{ a } = §", "§, b", "b, §", "{ [b]: § }", "{ a: § = 1 }", "[§ = 1]", "{ a = § }", "[a = §]", "§.b", "§[b]", "b[§]"]); f = fill(inner, &f); } fill(c, &f) }
        2 => if r.pct(35) { let (a, s, b, t, c) = (*r.pick(PAIR), *r.pick(SEPARATE), *r.pick(PAIR), *r.pick(SEPARATE), *r.pick(PAIR)); format!("{a}{s}{b}{t}{c}") } else { let c = *r.pick(STMT_CTX); let mut f = r.pick(STMT).to_string(); if r.pct(60) { f = fill(r.pick(STMT_CTX), &f); } fill(c, &f) },
        3 => if r.pct(50) { let c = *r.pick(MEMBER_CTX); let mut f = r.pick(MEMBER).to_string(); if r.pct(30) { f += *r.pick(&[" ", ";", ",", "\n", "; ", ", "]); f += *r.pick(MEMBER); } fill(c, &f) } else { let c = *r.pick(FUNC_CTX); let mut f = r.pick(FUNC).to_string(); if r.pct(50) { f = format!("() {{ {} }}", fill(r.pick(FUNC_CTX), &f)); } fill(c, &f) },
        _ => { let c = *r.pick(MODULE_CTX); let f = if r.pct(25) { expr(r, 1) } else { r.pick(MODULE).to_string() }; let s = fill(c, &f); if r.pct(40) { let c2 = *r.pick(MODULE_CTX); let f2 = *r.pick(MODULE); format!("{s}{}{}", *r.pick(&["\n", ";", "; ", " "]), fill(c2, f2)) } else { s } }
    };
    if kind != 4 && r.pct(50) { fill(r.pick(WRAP), &s) } else { s }
}
