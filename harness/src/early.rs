//! Early errors and reserved words by context (C10).
use crate::check::*;
use crate::judge::must;
use crate::rng::Rng;
use serde_json::{json, Value};

const WORDS: &[&str] = &["a", "yield", "await", "let", "static", "implements", "interface", "package", "private", "protected", "public", "eval", "arguments", "enum", "async", "of", "get", "set", "as", "from", "target", "undefined", "if", "class", "null", "this", "true", "function", "super", "import", "typeof", "default", "new", "in"];
/// (name, kind of place, text): W is the word
const PLACES: &[(&str, &str)] = &[
    ("bind", "var W;"), ("bind", "var W = 1"), ("bind", "let W = 1;"), ("bind", "const W = 1;"), ("bind", "function W() {}"), ("fname", "(function W() {});"), ("bind", "class W {}"), ("bind", "(class W {});"),
    ("bind", "function f(W) {}"), ("bind", "function f(x, W) {}"), ("bind", "(function (W) {});"), ("arrow", "(W) => 1;"), ("arrow", "W => 1;"), ("arrow", "x = W => { };"), ("asyncarrow", "async W => 1;"), ("asyncarrow", "async (W) => 1;"), ("bind", "({ m(W) {} });"), ("bind", "({ set m(W) {} });"), ("bind", "(class { m(W) {} });"), ("bind", "(class { static m(W) {} });"),
    ("bind", "try { } catch (W) { }"), ("bind", "for (var W of x);"), ("bind", "for (let W in x);"), ("bind", "for (const W of x);"), ("bind", "for (var W = 1; ; );"), ("bind", "var { W } = x;"), ("bind", "var { b: W } = x;"), ("bind", "var { b: W = 1 } = x;"), ("bind", "var { W = 1 } = x;"), ("bind", "var [W] = x;"), ("bind", "let [, W = 1] = x;"), ("bind", "var [...W] = x;"), ("bind", "var { ...W } = x;"),
    ("bind", "function W() { 'use strict' }"), ("fname", "(function W() { 'use strict' });"), ("fgen", "function* W() { 'use strict' }"), ("fasync", "async function W() { 'use strict' }"), ("fname", "(async function* W() { 'use strict' });"), ("bind", "function f(x, W) { 'use strict' }"), ("bind", "function* f(W) { 'a'; 'use strict' }"), ("bind", "async function f(W) { 'use strict' }"), ("bind", "(function (W) { 'use strict' });"), ("arrow", "(W) => { 'use strict' };"), ("arrow", "x = W => { 'use strict' };"), ("asyncarrow", "async W => { 'use strict' };"), ("asyncarrow", "async (x, W) => { 'use strict' };"), ("bind", "({ m(W) { 'use strict' } });"), ("bind", "({ set m(W) { 'use strict' } });"), ("bind", "({ *m(W) { 'use strict' } });"), ("bind", "({ async m(W) { 'use strict' } });"), ("name", "function f() { 'use strict'; x.W }"),
    ("assign", "({ W } = x);"), ("assign", "({ W = 1 } = x);"), ("assign", "({ b: W } = x);"), ("assign", "({ b: W = 1 } = x);"), ("assign", "[W] = x;"), ("assign", "[W = 1] = x;"), ("assign", "[...W] = x;"), ("assign", "({ ...W } = x);"), ("assign", "W = 1;"), ("assign", "W += 1;"), ("assign", "(W) = 1;"), ("assign", "x = W **= 2;"), ("update", "W++;"), ("update", "--W;"), ("update", "x = (W)--;"), ("forassign", "for (W of x);"), ("forassign", "for (W in x);"), ("forassign", "for ([W] of x);"),
    ("delete", "delete W;"), ("delete", "delete (W);"), ("delete", "delete ((W));"), ("delete", "delete W.b;"), ("delete", "delete W[0];"), ("delete", "delete W();"), ("delete", "void delete W;"),
    ("ref", "W;"), ("ref", "x = W;"), ("ref", "x(W);"), ("ref", "x + W;"), ("ref", "x ? W : W;"), ("ref", "({ W });"), ("ref", "[W];"), ("ref", "W.b;"), ("ref", "W();"), ("ref", "x[W];"), ("ref", "`${W}`;"), ("ref", "x => W;"), ("ref", "typeof W;"), ("ref", "-W;"), ("ref", "(x, W);"), ("ref", "(W);"), ("ref", "W\n/x/g"), ("ref", "W ** 2;"), ("ref", "new W;"),
    ("name", "({ W: 1 });"), ("name", "({ W() {} });"), ("name", "({ get W() { return 1; } });"), ("name", "({ set W(v) {} });"), ("name", "({ async W() {} });"), ("name", "({ *W() {} });"), ("name", "x.W;"), ("name", "x?.W;"), ("name", "x.y.W();"), ("name", "(class { W() {} });"), ("name", "(class { static W() {} });"), ("name", "(class { get W() {} });"), ("name", "(class { static async W() {} });"), ("name", "(class { *W() {} });"), ("name", "var { W: b } = x;"), ("name", "({ W: b } = x);"),
    ("label", "W: x;"), ("label", "W: while (1) break W;"), ("label", "W: while (1) continue W;"), ("label", "q: W: x;"),
    ("fgen", "function* W() {}"), ("fasync", "async function W() {}"), ("fasync", "async function* W() {}"), ("fname", "(function* W() {});"), ("fname", "(async function W() {});"),
    ("arrow", "(W, x) => 1;"), ("arrow", "([W]) => 1;"), ("arrow", "({ W }) => 1;"), ("arrow", "({ b: W }) => 1;"), ("arrow", "(...W) => 1;"), ("arrow", "(x = W) => 1;"), ("asyncarrow", "async (x, W) => 1;"), ("asyncarrow", "async ([W]) => 1;"), ("asyncarrow", "async (x = W) => 1;"), ("asyncarrow", "async (...W) => 1;"), ("asyncarrow", "async ({ W }) => 1;"),
    ("default", "function f(x = W) {}"), ("default", "({ m(x = W) {} });"), ("default", "function* f(x = W) {}"), ("default", "async function f(x = W) {}"), ("default", "(class { m(x = W) {} });"),
    ("import", "import W from 'm';"), ("import", "import { W } from 'm';"), ("import", "import { b as W } from 'm';"), ("import", "import * as W from 'm';"), ("import", "import { W as b } from 'm';"), ("import", "export { x as W };"), ("import", "export * as W from 'm';"), ("import", "export { W } from 'm';"), ("import", "export default W;"),
];
/// (name, text) without a word
const RULES: &[(&str, &str)] = &[
    ("with", "with (x) y;"), ("with", "if (x) with (y) { }"), ("with", "q: with (x) y"),
    ("delete", "delete x;"), ("delete", "delete (x);"), ("delete", "delete x.y;"), ("delete", "delete x[y];"), ("delete", "delete x();"), ("delete", "delete (x.y);"), ("delete", "delete this;"), ("delete", "delete (x, y);"), ("delete", "delete (() => x);"), ("delete", "x = delete y;"),
    ("return", "return;"), ("return", "return 1;"), ("return", "if (x) return;"), ("return", "{ return }"), ("return", "for (;;) return x;"),
    ("super", "super.x;"), ("super", "super[x];"), ("super", "super.x = 1;"), ("super", "super.x();"), ("super", "(() => super.x);"), ("super", "(x => { super.y; });"), ("super", "(function () { super.x; });"), ("super", "({ m() { super.x; } });"), ("super", "({ f: function () { super.x; } });"), ("super", "({ get g() { return super.x; } });"), ("super", "(class { m() { super.x; } });"), ("super", "(class { m() { function f() { super.x; } } });"), ("super", "super;"), ("super", "super`x`;"), ("super", "new super.x();"), ("super", "`${super.x}`;"), ("super", "({ m() { return async () => super.x; } });"), ("super", "({ m(x = super.y) { } });"),
    ("supercall", "super();"), ("supercall", "(() => super());"), ("supercall", "(class extends x { constructor() { super(); } });"), ("supercall", "(class extends x { constructor() { (() => super(1, ...y))(); } });"), ("supercall", "(class extends x { constructor(y = super()) { } });"), ("supercall", "(class extends x { m() { super(); } });"), ("supercall", "(class extends x { static constructor() { super(); } });"), ("supercall", "(class extends x { constructor() { function f() { super(); } } });"), ("supercall", "(class extends x { constructor() { ({ m() { super(); } }); } });"), ("supercall", "(class extends x { constructor() { super().y; super.z; } });"), ("supercall", "(class extends x { get constructor2() { super(); } });"), ("supercall", "(class { constructor() { } });"), ("supercall_base", "(class { constructor() { super(); } });"), ("supercall", "({ constructor() { super(); } });"), ("supercall", "({ m() { super(); } });"), ("supercall", "(class extends x { constructor() { class B { m() { super(); } } } });"), ("supercall", "(class extends x { constructor() { class B extends y { constructor() { super(); } } } });"), ("supercall", "(class extends x { constructor() { `${super()}`; } });"), ("supercall", "(class extends x { constructor() { new super(); } });"), ("supercall", "(class extends x { constructor() { if (y) { for (;;) super(); } } });"),
    ("dup", "({ m(x, x) {} });"), ("dup", "({ m(x, y, x) {} });"), ("dup", "(class { m(x, x) {} });"), ("dup", "(class { constructor(x, x) {} });"), ("dup", "({ m(x, ...x) {} });"), ("dup", "({ async m(x, x) {} });"), ("dup", "({ *m(x, x) {} });"), ("dup", "(class { static m(x, x) {} });"), ("dup", "({ m(x, y) {} });"), ("dup", "({ m(x, X) {} });"),
    ("dupfn", "function f(x, x) {}"), ("dupfn", "(function (x, y, x) {});"), ("dupfn", "function f(x, [x]) {}"), ("dupfn", "function f(x, x) { 'use strict' }"), ("duparrow", "(x, x) => 1;"), ("duparrow", "(x, [x]) => 1;"), ("dupfn", "function f(x, y) {}"),
    ("usestrict", "function f(x = 1) { 'use strict'; }"), ("usestrict", "function f([x]) { 'use strict'; }"), ("usestrict", "function f({ x }) { 'use strict'; }"), ("usestrict", "function f(...x) { 'use strict'; }"), ("usestrict", "({ m(x = 1) { 'use strict'; } });"), ("usestrict", "({ set m([x]) { 'use strict'; } });"), ("usestrict", "(class { m(...x) { 'use strict'; } });"), ("usestrict", "(x = 1) => { 'use strict'; };"), ("usestrict", "({ x }) => { 'use strict'; };"), ("usestrict", "async ([x]) => { 'use strict'; };"), ("usestrict", "function f(x, y) { 'use strict'; }"), ("usestrict", "function f() { 'use strict'; }"), ("usestrict", "x => { 'use strict'; };"), ("usestrict", "function f(x = 1) { 'use strict' + 1; }"), ("usestrict", "function f(x = 1) { ('use strict'); }"), ("usestrict", "function f(x = 1) { x; 'use strict'; }"), ("usestrict", "function f(x = 1) { 'a'; 'use strict'; }"), ("usestrict", "function* f(x = 1) { 'use strict'; }"), ("usestrict", "async function f(x = 1) { 'use strict'; }"), ("usestrict", "({ async m(x = 1) { 'use strict'; } });"), ("usestrict", "({ m() { 'use strict'; } });"), ("usestrict", "({ get m() { 'use strict'; } });"),
    ("accessor", "({ get m(x) {} });"), ("accessor", "({ get m(...x) {} });"), ("accessor", "({ get m() {} });"), ("accessor", "({ set m() {} });"), ("accessor", "({ set m(x, y) {} });"), ("accessor", "({ set m(...x) {} });"), ("accessor", "({ set m(x) {} });"), ("accessor", "({ set m(x = 1) {} });"), ("accessor", "({ set m([x, y]) {} });"), ("accessor", "(class { get m(x) {} });"), ("accessor", "(class { set m() {} });"), ("accessor", "(class { static set m(x, y) {} });"), ("accessor", "(class { static get m() {} });"), ("accessor", "(class { set m(x) {} });"), ("accessor", "({ set m(x,) {} });"), ("accessor", "({ get [m](x) {} });"), ("accessor", "({ set 'm'() {} });"),
    ("target", "1 = 2;"), ("target", "x() = 1;"), ("target", "x() += 1;"), ("target", "++x();"), ("target", "x()++;"), ("target", "x?.y = 1;"), ("target", "x?.y++;"), ("target", "(x, y) = 1;"), ("target", "(x) = 1;"), ("target", "((x)) = 1;"), ("target", "(x.y) = 1;"), ("target", "({ x }) = 1;"), ("target", "([x]) = 1;"), ("target", "[x] += 1;"), ("target", "({ x } += 1);"), ("target", "'x' = 1;"), ("target", "this = 1;"), ("target", "null = 1;"), ("target", "x + y = 1;"), ("target", "x ? y : z = 1;"), ("target", "x ? y = 1 : z;"), ("target", "-x = 1;"), ("target", "x++ = 1;"), ("target", "x++ ++;"), ("target", "++x++;"), ("target", "- - x++;"), ("target", "() => x = 1;"), ("target", "(() => x) = 1;"), ("target", "`x` = 1;"), ("target", "x`y` = 1;"), ("target", "new x = 1;"), ("target", "new x().y = 1;"), ("target", "new.target = 1;"), ("target", "function () {} = 1;"), ("target", "(function () {}) = 1;"), ("target", "/x/ = 1;"), ("target", "x = y = z;"), ("target", "x = 1 = y;"), ("target", "++this;"), ("target", "--'x';"), ("target", "++[x];"), ("target", "({ x })++;"), ("target", "x[y] = x.z++;"), ("target", "import('x') = 1;"), ("target", "super.x = 1;"), ("target", "x && y = 1;"), ("target", "x && (y = 1);"), ("target", "typeof x = 1;"), ("target", "(x = 1) = 2;"), ("target", "(x = 1)++;"),
    ("dtarget", "[x()] = y;"), ("dtarget", "[1] = y;"), ("dtarget", "({ x: 1 } = y);"), ("dtarget", "({ x: y() } = z);"), ("dtarget", "[x + y] = z;"), ("dtarget", "[(x)] = z;"), ("dtarget", "[(x.y)] = z;"), ("dtarget", "[([x])] = z;"), ("dtarget", "[({ x })] = z;"), ("dtarget", "({ x: (y) } = z);"), ("dtarget", "({ x: (y = 1) } = z);"), ("dtarget", "({ x: ({ y }) } = z);"), ("dtarget", "[x = 1] = z;"), ("dtarget", "[(x = 1)] = z;"), ("dtarget", "[...x, y] = z;"), ("dtarget", "[...x,] = z;"), ("dtarget", "[...x = 1] = z;"), ("dtarget", "[...[x, y]] = z;"), ("dtarget", "[...x.y] = z;"), ("dtarget", "({ ...x.y } = z);"), ("dtarget", "({ ...x, y } = z);"), ("dtarget", "({ ...(x) } = z);"), ("dtarget", "({ ...x = 1 } = z);"), ("dtarget", "({ x() {} } = z);"), ("dtarget", "({ get x() {} } = z);"), ("dtarget", "({ x = 1 });"), ("dtarget", "({ x = 1 } = {});"), ("dtarget", "({ x = 1 }) => 1;"), ("dtarget", "f({ x = 1 });"), ("dtarget", "[{ x = 1 }] = y;"), ("dtarget", "[{ x = 1 }];"), ("dtarget", "({ y: { x = 1 } } = z);"), ("dtarget", "({ y: [{ x = 1 }] }) => 1;"), ("dtarget", "({ 'x' } = y);"), ("dtarget", "({ 1: x } = y);"), ("dtarget", "[x?.y] = z;"), ("dtarget", "[this] = z;"), ("dtarget", "for ({ x = 1 } of y);"), ("dtarget", "for ([x.y] in z);"), ("dtarget", "for (x() of y);"), ("dtarget", "for (1 of y);"), ("dtarget", "for ((x) of y);"), ("dtarget", "for ((x.y) in z);"), ("dtarget", "for (x, y of z);"), ("dtarget", "for (x = 1 of y);"), ("dtarget", "for (var x, y of z);"), ("dtarget", "for (let x = 1 of y);"), ("dtarget", "for (let [x] = 1 in y);"), ("dtarget", "for (const x in y);"),
    ("params", "(x.y) => 1;"), ("params", "(x + 1) => 1;"), ("params", "((x)) => 1;"), ("params", "([x.y]) => 1;"), ("params", "({ x: y.z }) => 1;"), ("params", "(1) => 1;"), ("params", "(x, 1) => 1;"), ("params", "(x()) => 1;"), ("params", "(...x, y) => 1;"), ("params", "(x, ...y) => 1;"), ("params", "(x,) => 1;"), ("params", "(,) => 1;"), ("params", "(...x,) => 1;"), ("params", "(...x);"), ("params", "();"), ("params", "(x,);"), ("params", "() + 1;"), ("params", "() => { } + 1;"), ("params", "() => { } ? 1 : 2;"), ("params", "() => { }();"), ("params", "x || () => 1;"), ("params", "x = () => 1;"), ("params", "(() => { }).x;"), ("params", "() => { }.x;"), ("params", "async (x.y) => 1;"), ("params", "async ((x)) => 1;"), ("params", "async () => 1;"), ("params", "async x y;"), ("params", "-x => 1;"), ("params", "(x)\n=> 1;"), ("params", "x\n=> 1;"), ("params", "async\nx => 1;"), ("params", "async x\n=> 1;"), ("params", "async (x)\n=> 1;"), ("params", "function f(x.y) {}"), ("params", "function f(...x, y) {}"), ("params", "function f(...x = 1) {}"), ("params", "function f(x,) {}"), ("params", "function f(,) {}"), ("params", "function f(x,,y) {}"), ("params", "function f([x, ...y, z]) {}"), ("params", "function f({ ...x, y }) {}"), ("params", "function f((x)) {}"), ("params", "function f(this) {}"), ("params", "function f(1) {}"),
    ("for", "for await (x of y);"), ("for", "for await (var x of y);"), ("for", "for await (x in y);"), ("for", "for await (let x in y);"), ("for", "for await (;;);"), ("for", "for await (x = 1; ; );"), ("for", "for (let of x);"), ("for", "for (let of of x);"), ("for", "for (let in x);"), ("for", "for (async of x);"), ("for", "for (async of => 1; ; );"), ("for", "for (var i = 0 in x);"), ("for", "for (x of y, z);"), ("for", "for (x in y, z);"), ("for", "for (var x of y, z);"), ("for", "for (x in y in z);"), ("for", "for (var x = (y in z); ; );"), ("for", "for (x of (y, z));"), ("for", "for (;;) let\nx"), ("for", "for (;;) class A {}"), ("for", "for (;;) const x = 1;"), ("for", "for (;;) function f() {}"), ("for", "while (x) let [y] = z;"), ("for", "if (x) class A {}"), ("for", "if (x) let y;"), ("for", "do let\nx; while (1)"),
    ("decl", "var [x];"), ("decl", "let { x };"), ("decl", "const [x], y = 1;"), ("decl", "for (var [x]; ; );"), ("decl", "for (let { x }; ; );"), ("decl", "for (var [x] of y);"), ("decl", "var x, [y] = z;"), ("decl", "let [x] = y, { z };"), ("decl", "var [x,,] = y;"), ("decl", "var [...x, y] = z;"), ("decl", "var [...x,] = z;"), ("decl", "var { ...x, } = z;"), ("decl", "var { ...{ x } } = z;"), ("decl", "var [...{ x }] = z;"), ("decl", "var { x: y.z } = z;"), ("decl", "var [x.y] = z;"), ("decl", "var { 'x' } = z;"), ("decl", "var { [x] } = z;"), ("decl", "var { [x]: y } = z;"), ("decl", "var { 1: y } = z;"), ("decl", "var (x) = 1;"), ("decl", "var x.y = 1;"), ("decl", "var x += 1;"), ("decl", "var 1 = x;"), ("decl", "let let = 1;"), ("decl", "const let = 1;"), ("decl", "let [let] = x;"), ("decl", "var let = 1;"), ("decl", "let\nlet = 1;"),
    ("throw", "throw x;"), ("throw", "throw\nx;"), ("throw", "throw;"), ("throw", "throw /*\n*/ x;"), ("throw", "throw (\nx);"),
    ("try", "try { }"), ("try", "try { } catch { }"), ("try", "try { } catch (x) { }"), ("try", "try { } finally { }"), ("try", "try { } catch () { }"), ("try", "try { } catch (x, y) { }"), ("try", "try { } catch ([x]) { }"), ("try", "try { } catch (x = 1) { }"), ("try", "try x; catch (y) { }"), ("try", "try { } catch (x) y;"), ("try", "try { } catch (x) { } finally { } finally { }"), ("try", "try { } finally { } catch (x) { }"), ("try", "try { } catch (x.y) { }"),
    ("switch", "switch (x) { default: default: }"), ("switch", "switch (x) { case 1: default: case 2: }"), ("switch", "switch (x) { y; }"), ("switch", "switch (x) case 1: y"), ("switch", "switch (x) { case: y }"),
    ("optional", "x?.`y`;"), ("optional", "x?.y`z`;"), ("optional", "new x?.y();"), ("optional", "new (x?.y)();"), ("optional", "x?.y.z`w`;"), ("optional", "(x?.y)`z`;"), ("optional", "x?.[y]`z`;"), ("optional", "x?.y\n`z`"), ("optional", "super?.x;"), ("optional", "new.target?.x;"), ("optional", "delete x?.y;"), ("optional", "x?.y?.();"),
    ("coalesce", "x ?? y || z;"), ("coalesce", "x || y ?? z;"), ("coalesce", "x && y ?? z;"), ("coalesce", "x ?? y && z;"), ("coalesce", "(x || y) ?? z;"), ("coalesce", "x ?? (y && z);"), ("coalesce", "x ?? y ?? z;"), ("coalesce", "x || y && z;"), ("coalesce", "x ?? y | z;"), ("coalesce", "x ?? y + z ?? w;"), ("coalesce", "(x ?? y) || z;"), ("coalesce", "x = y ?? z || w;"), ("coalesce", "x ? y ?? z : w || v;"), ("coalesce", "x || (y && z ?? w);"),
    ("power", "-x ** y;"), ("power", "(-x) ** y;"), ("power", "x ** -y;"), ("power", "typeof x ** y;"), ("power", "!x ** y;"), ("power", "++x ** y;"), ("power", "x++ ** y;"), ("power", "delete x.y ** z;"), ("power", "void x ** y;"), ("power", "x ** y;"), ("power", "+x ** y;"), ("power", "~x ** y;"), ("power", "x * -y ** z;"), ("power", "(typeof x) ** y;"), ("power", "await x ** y;"), ("power", "(await x) ** y;"),
    ("yieldawait", "yield;"), ("yieldawait", "yield 1;"), ("yieldawait", "yield* x;"), ("yieldawait", "yield\n* x"), ("yieldawait", "yield\n1"), ("yieldawait", "x = yield y;"), ("yieldawait", "x + yield;"), ("yieldawait", "yield + x;"), ("yieldawait", "yield ? 1 : 2;"), ("yieldawait", "(yield) ? 1 : 2;"), ("yieldawait", "yield yield x;"), ("yieldawait", "[yield x];"), ("yieldawait", "({ x: yield });"), ("yieldawait", "({ [yield]: x });"), ("yieldawait", "f(yield x, yield);"), ("yieldawait", "`${yield x}`;"), ("yieldawait", "yield x, y;"), ("yieldawait", "void yield;"), ("yieldawait", "await x;"), ("yieldawait", "await;"), ("yieldawait", "x = await y;"), ("yieldawait", "x + await y;"), ("yieldawait", "-await x;"), ("yieldawait", "await -x;"), ("yieldawait", "await await x;"), ("yieldawait", "[await x];"), ("yieldawait", "`${await x}`;"), ("yieldawait", "yield await x;"), ("yieldawait", "await (yield x);"), ("yieldawait", "await\nx"), ("yieldawait", "await x => 1;"), ("yieldawait", "(class extends (yield) { });"), ("yieldawait", "(class { [yield x]() { } });"), ("yieldawait", "(class { [await x]() { } });"), ("yieldawait", "({ [await x]: 1 });"), ("yieldawait", "await /x/;"), ("yieldawait", "yield /x/;"), ("yieldawait", "yield\n/x/g"), ("yieldawait", "for (x of yield y);"), ("yieldawait", "for (await x of y);"), ("yieldawait", "if (await x) yield;"), ("yieldawait", "var { x = yield } = y;"), ("yieldawait", "var { x = await y } = z;"), ("yieldawait", "[x = yield] = y;"),
    ("modules", "import x from 'm';"), ("modules", "export var x1;"), ("modules", "export default 1;"), ("modules", "{ import x from 'm'; }"), ("modules", "if (x) export default 1;"), ("modules", "import('x');"), ("modules", "export { x };"), ("modules", "import 'm';"), ("modules", "import * as ns from 'm'"), ("modules", "export function () {}"), ("modules", "export class { }"), ("modules", "export default function () {}"), ("modules", "export default class { }"), ("modules", "export async function () {}"), ("modules", "export default async function () {}"), ("modules", "export default async () => 1;"), ("modules", "export x;"), ("modules", "export 1;"), ("modules", "export default var x1;"), ("modules", "export default const x1 = 1;"), ("modules", "export let [x1] = y;"), ("modules", "import { 'a' as b } from 'm';"), ("modules", "import { default } from 'm';"), ("modules", "import { default as b } from 'm';"), ("modules", "export { default } from 'm';"), ("modules", "export { if };"), ("modules", "export { if } from 'm';"), ("modules", "export * from 'm';"), ("modules", "export *;"), ("modules", "import * from 'm';"), ("modules", "import a, b from 'm';"), ("modules", "import a, * as b from 'm';"), ("modules", "import a, { b } from 'm';"), ("modules", "import { a }, b from 'm';"), ("modules", "import {} from 'm';"), ("modules", "import { a, } from 'm';"), ("modules", "import { , } from 'm';"), ("modules", "export { , };"), ("modules", "import a from x;"), ("modules", "import a;"), ("modules", "import { a };"), ("modules", "import 'm' x;"), ("modules", "export default;"), ("modules", "export default function f() {} x"), ("modules", "export default 1 x"), ("modules", "import.x;"), ("modules", "new import('x');"),
    ("direct", "'use strict'; with (x) y;"), ("direct", "('use strict'); with (x) y;"), ("direct", "'use strict' + 1; with (x) y;"), ("direct", "'use strict'.x; with (x) y;"), ("direct", "x; 'use strict'; with (x) y;"), ("direct", "'a'; 'use strict'; with (x) y;"), ("direct", "'use  strict'; with (x) y;"), ("direct", "'use strict', x; with (x) y;"), ("direct", "'use strict'\nwith (x) y;"), ("direct", "\"use strict\"; with (x) y;"), ("direct", "`use strict`; with (x) y;"), ("direct", "'use strict'\n.x; with (x) y;"), ("direct", "'use strict'\n+ x; with (x) y;"), ("direct", "'use strict'\n(x); with (x) y;"), ("direct", "'a' 'use strict'"), ("direct", "{ 'use strict'; with (x) y; }"),
    ("newtarget", "new.target;"), ("newtarget", "new.x;"), ("newtarget", "(function () { new.target; });"), ("newtarget", "new new.target;"), ("newtarget", "new.target();"), ("newtarget", "({ m() { new.target } });"),
    ("misc", "x y"), ("misc", "x\ny"), ("misc", "{ x } y"), ("misc", "do x; while (y) z"), ("misc", "do x while (y)"), ("misc", "if (x) y else z"), ("misc", "if (x) y; else z"), ("misc", "if (x)"), ("misc", "else x"), ("misc", "case 1: x"), ("misc", "catch (x) { }"), ("misc", "debugger"), ("misc", "debugger x"), ("misc", "enum x { }"), ("misc", "@x"), ("misc", "#x"), ("misc", "x.#y;"), ("misc", ";;;"), ("misc", "var"), ("misc", "let"), ("misc", "const"), ("misc", "new"), ("misc", "x ="), ("misc", "x."), ("misc", "(x"), ("misc", "[x"), ("misc", "{ x"), ("misc", "x)"), ("misc", "x]"), ("misc", "x}"), ("misc", "function"), ("misc", "class"), ("misc", "class A extends { }"), ("misc", "class A { x }"), ("misc", "class A { ; ; }"), ("misc", "class A { , }"), ("misc", "class A { m() { } , n() { } }"), ("misc", "class A { m() { }; n() { } }"), ("misc", "class { }"), ("misc", "class A extends x, y { }"), ("misc", "class A extends x => x { }"), ("misc", "class A extends (x => x) { }"), ("misc", "class A extends x.y() { }"), ("misc", "class A extends x + y { }"), ("misc", "function f { }"), ("misc", "function f() x"), ("misc", "function () { }"), ("misc", "function* () { }"), ("misc", "async function () { }"), ("misc", "async\nfunction f() { }"), ("misc", "({ x: 1, x: 2 });"), ("misc", "({ x y });"), ("misc", "({ , });"), ("misc", "({ x, , y });"), ("misc", "({ x: });"), ("misc", "({ async\nx() { } });"), ("misc", "({ async x: 1 });"), ("misc", "({ get x: 1 });"), ("misc", "({ get\nx() { } });"), ("misc", "({ *x: 1 });"), ("misc", "({ async *x() { } });"), ("misc", "({ * async x() { } });"), ("misc", "({ get *x() { } });"), ("misc", "({ async get x() { } });"), ("misc", "[,];"), ("misc", "f(,);"), ("misc", "f(x,);"), ("misc", "f(x,,y);"), ("misc", "f(...x, ...y);"), ("misc", "f(x y);"), ("misc", "new f(,);"), ("misc", "[...];"), ("misc", "...x;"), ("misc", "x ? y;"), ("misc", "x ? y : ;"), ("misc", "x ? : y;"), ("misc", "`${}`;"), ("misc", "`${x"), ("misc", "`x"), ("misc", "'x"), ("misc", "'x\n'"), ("misc", "/x"), ("misc", "/x\n/"), ("misc", "/*"), ("misc", "1x"), ("misc", "1_"), ("misc", "0x"), ("misc", "0b2"), ("misc", "1e"), ("misc", "1__0"), ("misc", ".e1"), ("misc", "1.x"), ("misc", "1..x"), ("misc", "x--\n++\ny"), ("misc", "x\n++y"), ("misc", "x ++ y"), ("misc", "in x"), ("misc", "x in"), ("misc", "x instanceof"), ("misc", "+"), ("misc", "x +"), ("misc", "* x"), ("misc", "x ** "), ("misc", "=> x"), ("misc", "() =>"), ("misc", "() =>\nx"), ("misc", "() => { "), ("misc", "x: "), ("misc", "x: y: z"), ("misc", "1: x"), ("misc", "break x y"), ("misc", "while (1) { break\nx }"), ("misc", "if x y"), ("misc", "while x y"), ("misc", "for x y"), ("misc", "for (x) y"), ("misc", "for (x; y) z"), ("misc", "for (x; y; z; w) v"), ("misc", "for (;;)"), ("misc", "switch x { }"), ("misc", "switch (x) { case 1 x }"), ("misc", "with x y"), ("misc", "do while (1)"), ("misc", "do x; while 1"),
];
/// What a statement can be inside of. The first half of a pair opens, the second closes.
const CONTEXTS: &[(&str, &str)] = &[
    ("", ""), ("'use strict'; ", ""), ("\"use strict\"\n", ""), ("function f() { ", " }"), ("function f() { 'use strict'; ", " }"), ("function* g() { ", " }"), ("async function h() { ", " }"), ("async function* h() { ", " }"),
    ("(() => { ", " });"), ("(() => { 'use strict'; ", " });"), ("(async () => { ", " });"), ("(async x => { 'use strict'; ", " });"), ("(function () { ", " });"), ("(function* () { ", " });"), ("(async function () { ", " });"),
    ("({ m() { ", " } });"), ("({ *m() { ", " } });"), ("({ async m() { ", " } });"), ("({ async *m() { ", " } });"), ("({ get m() { ", " } });"), ("({ set m(v) { ", " } });"), ("({ m() { 'use strict'; ", " } });"),
    ("class A { m() { ", " } }"), ("class A { static m() { ", " } }"), ("class A { *m() { ", " } }"), ("class A { async m() { ", " } }"), ("class A { constructor() { ", " } }"), ("class A extends x { constructor() { ", " } }"), ("class A extends x { m() { ", " } }"), ("class A { get m() { ", " } }"), ("class A { static set m(v) { ", " } }"),
    ("class A extends (() => { ", " }) { }"), ("class A { [(() => { ", " })()]() { } }"), ("(class { [function () { ", " }]() { } });"),
    ("function s() { 'use strict'; } ", ""), ("(() => { 'use strict'; }); ", ""), ("class B { } ", ""), ("({ m() { 'use strict'; } }); ", ""), ("function* g2() { } ", ""), ("async function h2() { } ", ""), ("(async () => { }); ", ""), ("({ m() { } }); ", ""), ("class B extends x { constructor() { super(); } } ", ""), ("function r() { return; } ", ""), ("for (var i = 0; ; ) { } ", ""),
    ("{ ", " }"), ("if (x) { ", " }"), ("if (x) { } else { ", " }"), ("for (;;) { ", " }"), ("for (var k in x) { ", " }"), ("while (x) { ", " }"), ("do { ", " } while (x);"), ("try { ", " } catch (e) { }"), ("try { } catch (e) { ", " }"), ("try { } finally { ", " }"), ("switch (x) { case 1: ", " }"), ("switch (x) { default: ", " }"), ("q2: { ", " }"),
    ("`${() => { ", " }}`;"), ("(x = (() => { ", " })) => 1;"), ("function d(x = (() => { ", " })) { }"), ("function* d(x = function () { ", " }) { }"), ("async function d(x = () => { ", " }) { }"), ("x[() => { ", " }];"), ("new x(() => { ", " });"), ("[function () { ", " }] = x;"), ("({ a: () => { ", " } });"), ("var { a = () => { ", " } } = x;"), ("async (x = () => { ", " }) => 1;"), ("export default function () { ", " }"), ("export class E { m() { ", " } }"), ("export default () => { ", " };"), ("export default class extends x { constructor() { ", " } }"),
];

/// Functions of every kind, by where their parameters and body are
const KINDS: &[&str] = &["function f§", "function* f§", "async function f§", "async function* f§", "(function §);", "(function* f§);", "(async function §);", "({ m§ });", "({ *m§ });", "({ async m§ });", "({ async *m§ });", "({ get m§ });", "({ set m§ });", "({ [m]§ });", "({ 'm'§ });", "({ set 1§ });", "({ get [m]§ });", "({ static§ });", "({ get§ });", "({ async§ });",
    "class A { m§ }", "class A { *m§ }", "class A { async m§ }", "class A { async *m§ }", "class A { get m§ }", "class A { set m§ }", "class A { static m§ }", "class A { static *m§ }", "class A { static async m§ }", "class A { static async *m§ }", "class A { static get m§ }", "class A { static set m§ }", "class A { static static§ }", "class A { static get§ }", "class A { constructor§ }", "class A extends x { constructor§ }", "class A extends x { static constructor§ }", "class A { static set [m]§ }",
    "x = § =>", "x = async § =>", "'use strict'; function f§", "'use strict'; ({ set m§ });", "'use strict'; x = § =>", "export default function §", "export default async function §", "export function f§", "async function f() { ({ m§ }); }", "async function f() { ({ set m§ }); }", "async () => { x = § => }", "function* g() { x = § => }", "function* g() { (function §); }"];
const PARAMS: &[&str] = &["()", "(a)", "(a,)", "(a, b)", "(a, a)", "(a, b, a)", "(a, a = 1)", "(a = 1)", "(a, b = 1)", "(a = 1, b)", "([a])", "([])", "([a], a)", "({ a })", "({ })", "({ a, a })", "({ a }, [a])", "({ b: a }, a)", "({ a = 1 })", "({ [b]: a })", "([a = 1])", "(...a)", "(...[a])", "(a, ...b)", "(a, ...a)", "(a, ...[a])", "(a, ...{ a })", "(...a,)", "(eval)", "(arguments)", "([eval])", "({ eval })", "(...arguments)", "(yield)", "(await)", "(static)", "(let)", "(implements)", "(async)", "(a = yield)", "(a = yield b)", "(a = await b)", "(a = await)", "(a = super.b)", "(a = super())", "(a = () => yield)", "(a = () => await)", "(a = eval = 1)", "(a = arguments)", "(a = new.target)", "(a = function () { 'use strict' })", "(a = delete b)", "([a = yield])", "({ [yield]: a })", "({ a = await })"];
const BODIES: &[&str] = &["{ }", "{ 'use strict' }", "{ 'a'; 'use strict' }", "{ ('use strict') }", "{ a; 'use strict' }", "{ 'use strict'; with (a) b }", "{ with (a) b }", "{ 'use strict'; delete a }", "{ 'use strict'; eval = 1 }", "{ 'use strict'; yield }", "{ yield }", "{ await }", "{ super.a }", "{ super() }", "{ return }", "{ let = 1 }"];

pub struct Early;
impl Early {
    fn total() -> u64 { let (r, c) = ((PLACES.len() * WORDS.len() + 4 * RULES.len()) as u64, CONTEXTS.len() as u64); r * c * c * 2 }
    fn texts() -> u64 { (PLACES.len() * WORDS.len() + RULES.len()) as u64 }
    fn nth(k: u64) -> Value {
        let c = CONTEXTS.len() as u64;
        let module = k % 2 == 1; let k = k / 2;
        let (o, k) = (CONTEXTS[(k % c) as usize], k / c);
        let (i, k) = (CONTEXTS[(k % c) as usize], k / c);
        let k = k as usize;
        let (rule, text) = if k < PLACES.len() * WORDS.len() { let (p, w) = (PLACES[k / WORDS.len()], WORDS[k % WORDS.len()]); (format!("{}:{}", p.0, w), p.1.replace('W', w)) } else { let r = RULES[(k - PLACES.len() * WORDS.len()) % RULES.len()]; (r.0.to_owned(), r.1.to_owned()) };
        let src = format!("{}{}{}{}{}", o.0, i.0, text, i.1, o.1);
        json!({"src": src, "type": if module { "module" } else { "script" }, "rule": rule, "text": text, "outer": o.0, "inner": i.0})
    }
}

/// Rules that the project does not enforce anywhere.
const NEVER: &str = "already been declared|is already declared|^Export '|^Duplicate export|^Binding (eval|arguments) in strict|^Multiple default|let is disallowed|^'new.target' can only";
/// Texts that the project reads otherwise, by design or as its tests pin.
const OTHERWISE: &[&str] = &["export { if };", "for (var i = 0 in x);", "var { ...{ x } } = z;"];
fn undecided(j: &Value) -> Option<&'static str> {
    if j["raw"] == true { return None; }
    let (rule, text) = (j["rule"].as_str().unwrap(), j["text"].as_str().unwrap());
    if OTHERWISE.contains(&text) { return Some("read otherwise by design"); }
    // plain methods inside of generators are read as generators themselves (pinned)
    let (o, i) = (j["outer"].as_str().unwrap(), j["inner"].as_str().unwrap());
    if text.contains("yield") && o.contains('*') && ["({ m(", "({ get", "({ set", "class A { m(", "class A { static", "class A { get", "class A { constructor", "class A extends x { "].iter().any(|p| i.starts_with(p)) { return Some("method inside a generator"); }
    None
}
fn job_of(k: u64) -> Value {
    let mut j = Early::nth(k);
    j["whole"] = json!(true);
    j["strictOnly"] = json!(true); j["noast"] = json!(true);
    j["ignore"] = json!(NEVER);
    j
}
/// The k-th of a pseudo-random permutation of all cases.
fn permuted(k: u64) -> u64 { let n = Early::total(); let step = 0x9E37_79B9_7F4A_7C15u64 % n; let mut s = step; while gcd(s, n) != 1 { s += 1; } ((k as u128 * s as u128) % n as u128) as u64 }
fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }

/// Development aid: how often each text and reference message agrees with the project, over contexts.
pub fn explore(n: u64, off: u64) {
    use crate::pool::*;
    let groups = std::sync::Mutex::new(std::collections::BTreeMap::<String, (u64, u64, String, String)>::new());
    lanes(8, |th| {
        let mut t = Tools::new(30, &[]);
        let mut k = th;
        while k < n {
            let j = job_of(permuted(k + off)); k += 8;
            if undecided(&j).is_some() { continue; }
            let x = match crate::judge::alive(t.fajt(&j), "") { Ok(x) => x, Err(e) => json!({"ok": null, "err": format!("{e:?}")}) };
            let y = t.refer(&j);
            if y["ok"] == true && x["ok"] == true { continue; }
            let m = |v: &Value| v.as_str().unwrap_or("").split(" (").next().unwrap_or("").to_owned();
            let key = format!("{}\t{}\t{:?}", m(&y["err"]), j["rule"].as_str().unwrap(), j["text"].as_str().unwrap());
            let mut g = groups.lock().unwrap();
            let e = g.entry(key).or_default();
            let ex = || format!("{} {:?} => {}", j["type"].as_str().unwrap(), j["src"].as_str().unwrap(), m(&x["err"]));
            if x["ok"] == y["ok"] { e.0 += 1; if e.2.is_empty() || ex().len() < e.2.len() { e.2 = ex(); } } else { e.1 += 1; if e.3.is_empty() || ex().len() < e.3.len() { e.3 = ex(); } }
        }
    });
    for (k, v) in groups.into_inner().unwrap() { println!("{k}\t{}\t{}\t{}\t{}", v.0, v.1, v.2, v.3); }
}

impl Check for Early {
    fn id(&self) -> &'static str { "C10" }
    fn rule(&self) -> &'static str { "Every kind of function and method (50, alone and in strict code, classes and other functions) with every parameter list (52) and body (16) of a table, all; and a table of statements in which a word (reserved in some contexts, or not) is bound, assigned, read, deleted, or used as a name, and of statements that some context forbids, is placed in each of a table of contexts (functions and methods of every kind, strict and sloppy, class bodies, loops, after other functions, ...): first in one context, as script and as module, then in two nested ones at random. Acceptance is compared with the reference's. Non-trivial: the decided (text, context) pairs, and of the nested ones every distinct source." }
    fn size(&self) -> (u64, u64) { (460_000, 10_000_000) }
    fn fixed(&self, _: bool) -> Vec<Value> {
        let mut v = vec![];
        for k in KINDS { for p in PARAMS { for b in BODIES { for m in ["script", "module"] {
            let src = if k.contains("=>") { k.replacen('§', p, 1).replace("=>", &format!("=> {b}")).replacen(&format!("() => {b} {{"), "() => {", 1) } else { k.replacen('§', &format!("{p} {b}"), 1) };
            v.push(json!({"src": src, "type": m, "rule": "function", "text": format!("{p} {b}"), "outer": k.split('§').next().unwrap(), "inner": k.split('§').next().unwrap(), "whole": true, "strictOnly": true, "noast": true, "ignore": NEVER}));
        } } } }
        v
    }
    fn make(&self, r: &mut Rng, k: u64) -> Value {
        let c = CONTEXTS.len() as u64;
        let one = Early::texts() * c;
        let i = k - k / 4;
        if k % 4 == 3 || i >= 2 * one { return job_of(r.next() % Early::total()); }
        let p = { let n = one; let mut s = 0x9E37_79B9_7F4A_7C15u64 % n; while gcd(s, n) != 1 { s += 1; } (((i % one) as u128 * s as u128) % n as u128) as u64 };
        let module = (p.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 63) ^ (i / one);
        job_of(((p / c) * c * c + p % c) * 2 + module)
    }
    fn judge(&self, job: &Value, t: &mut Tools, o: &mut Obs) -> Viols {
        let x = must!(t.fajt(job), "parsing");
        if let Some(why) = undecided(job) { o.undecided(why); return vec![]; }
        let y = t.refer(job);
        if !y["ok"].is_boolean() { o.undecided("no answer from the reference"); return vec![]; }
        o.evaluations += 1;
        let rule = job["rule"].as_str().unwrap_or("").split(':').next().unwrap();
        let text = |k: &str| job[k].as_str().unwrap_or("");
        let (a, b) = (x["ok"] == true, y["ok"] == true);
        o.count(if b { "accepted by the reference" } else { "rejected by the reference" }, 1);
        if !b { *o.constructs.entry(format!("{rule}: {}", class_of(y["err"].as_str().unwrap_or("")))).or_default() += 1; }
        o.case(crate::worker::fnv(&format!("{}{}", job["type"], job["src"])), || job.clone());
        if a == b { return vec![]; }
        if a { vec![(format!("accepted although forbidden here ({rule})"), format!("{:?} in {:?} in {:?}: the reference says: {}", text("text"), text("inner"), text("outer"), y["err"].as_str().unwrap_or("")))] }
        else { vec![(format!("rejected although allowed here ({rule})"), format!("{:?} in {:?} in {:?}: {} at {}", text("text"), text("inner"), text("outer"), x["err"].as_str().unwrap_or(""), x["span"]))] }
    }
    fn floor(&self) -> Vec<(&'static str, u64)> { vec![("accepted by the reference", 80_000), ("rejected by the reference", 150_000)] }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the reference reader (acorn 8) applies the early errors of ECMAScript 2021 as specified", "rules the project does not enforce anywhere (redeclarations, labels, export names, eval/arguments as bindings, let as a lexical name, new.target at top level, 'use strict' in functions with other than simple parameters) are not asked for"] }
}
/// A message without its position and quoted names.
fn class_of(m: &str) -> String { m.split(" (").next().unwrap_or("").split('\'').enumerate().map(|(i, s)| if i % 2 == 0 { s } else { "…" }).collect::<String>() }
