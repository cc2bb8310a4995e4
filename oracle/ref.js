'use strict';
// Reference reader: parses JavaScript with acorn (an independent implementation of ECMA-262) and
// rewrites the ESTree it produces into the JSON shape of fajt's serialised syntax tree, byte spans
// included. Line protocol on stdin: {"id":n,"src":"...","type":"script"|"module","entry":"program"}
// and on stdout: {"id":n,"ok":true,"ast":...} or {"id":n,"ok":false,"err":"...","pos":n}.
const path = require('path');
function loadAcorn() {
  const tries = [process.env.FAJT_ACORN, '/opt/veriftools/node/node_modules/acorn', 'acorn'];
  for (const t of tries) { if (!t) continue; try { return require(t); } catch (e) { /* next */ } }
  throw new Error('acorn not found');
}
const acorn = loadAcorn();

class Ctx {
  constructor(src) {
    this.src = src; this.tokens = []; this.quirks = {};
    this.map = null;
    for (let i = 0; i < src.length; i++) if (src.charCodeAt(i) > 127) { this.buildMap(); break; }
  }
  buildMap() {
    const s = this.src, m = new Uint32Array(s.length + 1); let b = 0;
    for (let i = 0; i < s.length; i++) {
      m[i] = b; const c = s.charCodeAt(i);
      if (c < 0x80) b += 1; else if (c < 0x800) b += 2;
      else if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.length) { b += 4; i++; m[i] = b; }
      else b += 3;
    }
    m[s.length] = b; this.map = m;
  }
  off(i) { return this.map ? this.map[i] : i; }
  // End offset of a token. This project's tokens that end in a non-ASCII character end (as its own
  // lexer tests pin) at the first byte of that character plus its length in UTF-16 units.
  offEnd(i) {
    if (!this.map || i === 0) return this.off(i);
    let k = i - 1; const c = this.src.charCodeAt(k);
    if (c < 0x80) return this.map[i];
    if (c >= 0xdc00 && c < 0xe000 && k > 0) { const h = this.src.charCodeAt(k - 1); if (h >= 0xd800 && h < 0xdc00) k--; }
    this.quirks.nonAsciiEnd = true;
    return this.map[k] + (i - k);
  }
  sp(a, b) { return this.off(a) + ':' + this.offEnd(b); }
  s(n) { return this.sp(n.start, n.end); }
  // index of the first token whose start >= pos
  tokAt(pos) {
    const t = this.tokens; let lo = 0, hi = t.length;
    while (lo < hi) { const m = (lo + hi) >> 1; if (t[m].start < pos) lo = m + 1; else hi = m; }
    return lo;
  }
  text(i) { const t = this.tokens[i]; return t ? this.src.slice(t.start, t.end) : undefined; }
}

const BIN = { '+': 'Plus', '-': 'Minus', '*': 'Multiplication', '/': 'Division', '%': 'Modulus', '**': 'Exponent', '<<': 'ShiftLeft', '>>': 'ShiftRight', '>>>': 'ShiftRightUnsigned', '<': 'LessThan', '>': 'MoreThan', '<=': 'LessThanEquals', '>=': 'MoreThanEquals', instanceof: 'InstanceOf', in: 'In', '==': 'Equal', '!=': 'NotEqual', '===': 'StrictEqual', '!==': 'StrictNotEqual', '&': 'BitwiseAnd', '^': 'BitwiseXOR', '|': 'BitwiseOR' };
const LOGIC = { '&&': 'And', '||': 'Or', '??': 'Coalesce' };
const UN = { delete: 'Delete', void: 'Void', typeof: 'Typeof', '+': 'Plus', '-': 'Minus', '~': 'BitwiseNot', '!': 'Not' };
const ASSIGN = { '=': 'Assign', '*=': 'Multiply', '**=': 'Power', '/=': 'Divide', '%=': 'Modulus', '+=': 'Add', '-=': 'Sub', '<<=': 'LeftShift', '>>=': 'RightShift', '>>>=': 'UnsignedRightShift', '&=': 'BitwiseAnd', '^=': 'BitwiseXOr', '|=': 'BitwiseOr' };
const KIND = { const: 'Const', let: 'Let', var: 'Var' };
function lookup(t, k) { if (!Object.prototype.hasOwnProperty.call(t, k)) throw new Unsupported('operator ' + k); return t[k]; }
class Unsupported extends Error {}
class Reject extends Error {}

// Value of a string / template chunk as this project defines it: every escape backslash is removed
// and the escaped character kept (pinned by the project's own lexer tests).
function dropEscapes(raw) {
  let out = '';
  for (let i = 0; i < raw.length; i++) {
    if (raw[i] === '\\' && i + 1 < raw.length) { i++; out += raw[i]; } else out += raw[i];
  }
  return out;
}

class Conv {
  constructor(c) { this.c = c; this.y = false; this.a = false; }
  // Runs f inside a function whose [Yield] and [Await] contexts are y and a.
  within(y, a, f) { const oy = this.y, oa = this.a; this.y = y; this.a = a; const r = f(); this.y = oy; this.a = oa; return r; }
  s(n) { return this.c.s(n); }
  list(a) { return a.map(n => this.stmt(n)); }
  ident(n) { if (n.type !== 'Identifier') throw new Unsupported('ident ' + n.type); return { span: this.s(n), name: n.name }; }
  optIdent(n) { return n ? this.ident(n) : null; }
  optExpr(n) { return n ? this.expr(n) : null; }
  lit(n) { // LitString
    const raw = this.c.src.slice(n.start, n.end);
    return { value: dropEscapes(raw.slice(1, -1)), delimiter: raw[0] };
  }
  splitDirectives(body) {
    const directives = []; let i = 0;
    while (i < body.length && body[i].directive !== undefined) { directives.push(this.lit(body[i].expression)); i++; }
    return [directives, body.slice(i)];
  }
  program(n, type) {
    const c = this.c; const real = c.tokens.filter(t => t.type.label !== 'eof');
    const [directives, rest] = this.splitDirectives(n.body);
    const span = real.length ? c.sp(real[0].start, real[real.length - 1].end) : '0:0';
    return { [type === 'module' ? 'Module' : 'Script']: { span, directives, body: this.list(rest) } };
  }
  body(n) { const [directives, rest] = this.splitDirectives(n.body); return { span: this.s(n), directives, statements: this.list(rest) }; }
  block(n) { return { span: this.s(n), statements: this.list(n.body) }; }
  varDecl(n) {
    return { span: this.s(n), kind: lookup(KIND, n.kind), declarations: n.declarations.map(d => ({ span: this.s(d), pattern: this.bind(d.id), initializer: this.optExpr(d.init) })) };
  }
  func(n, decl, anon) {
    const c = this.c; let i;
    if (n.id) i = c.tokAt(n.id.end); else { i = c.tokAt(n.start); while (c.text(i) !== '(') i++; }
    let identifier = this.optIdent(n.id);
    if (decl && !identifier) { const p = c.off(c.tokens[i].start); identifier = { span: p + ':' + p, name: '' }; }
    return this.within(n.generator, n.async, () => ({ span: this.s(n), asynchronous: n.async, generator: n.generator, identifier, parameters: this.params(n.params, c.tokens[i].start, c.tokens[c.tokAt(n.body.start) - 1].end), body: this.body(n.body) }));
  }
  params(ps, start, end) {
    const bindings = []; let rest = null;
    this.within(false, this.a, () => {
      for (const p of ps) if (p.type === 'RestElement') { this.restLast(p); rest = this.bind(p.argument); } else bindings.push(this.bindEl(p));
    });
    return { span: this.c.sp(start, end), bindings, rest };
  }
  bindEl(p) {
    if (p.type === 'AssignmentPattern') return { span: this.s(p), pattern: this.bind(p.left), initializer: this.expr(p.right) };
    return { span: this.s(p), pattern: this.bind(p), initializer: null };
  }
  bind(p) {
    switch (p.type) {
      case 'Identifier': return { Ident: this.ident(p) };
      case 'ArrayPattern': {
        const elements = []; let rest = null;
        for (const e of p.elements) if (e === null) elements.push(null); else if (e.type === 'RestElement') { this.restLast(e); rest = this.bind(e.argument); } else elements.push(this.bindEl(e));
        return { Array: { span: this.s(p), elements, rest } };
      }
      case 'ObjectPattern': {
        const props = []; let rest = null;
        for (const e of p.properties) {
          if (e.type === 'RestElement') { this.restLast(e); rest = this.bind(e.argument); continue; }
          if (e.shorthand) props.push({ Single: { span: this.s(e), ident: this.ident(e.key), initializer: e.value.type === 'AssignmentPattern' ? this.expr(e.value.right) : null } });
          else props.push({ Named: { span: this.s(e), property: this.propName(e), binding: this.bindEl(e.value) } });
        }
        return { Object: { span: this.s(p), props, rest } };
      }
      default: throw new Unsupported('binding ' + p.type);
    }
  }
  propName(e) {
    if (e.computed) return { Computed: this.expr(e.key) };
    if (e.key.type === 'Identifier') return { Ident: this.ident(e.key) };
    if (e.key.type === 'Literal' && typeof e.key.value === 'string') return { String: this.lit(e.key) };
    if (e.key.type === 'Literal' && typeof e.key.value === 'number') return { Number: { raw: this.c.src.slice(e.key.start, e.key.end) } };
    throw new Unsupported('key');
  }
  // assignment target
  target(p) {
    if (p.type === 'ArrayPattern' || p.type === 'ObjectPattern') return { AssignmentPattern: this.apat(p) };
    return { Expr: this.expr(p) };
  }
  // (the parser misses some of these)
  restLast(e) { if (this.c.text(this.c.tokAt(e.end)) === ',') throw new Reject('Comma is not permitted after the rest element'); }
  // a target within a pattern
  inner(p) {
    if (p.type === 'MemberExpression' && '[{'.includes(this.c.src[p.start])) this.c.quirks.literalTarget = true;
    return this.target(p);
  }
  aEl(e) {
    if (e.type === 'AssignmentPattern') return { span: this.s(e), target: this.inner(e.left), initializer: this.expr(e.right) };
    return { span: this.s(e), target: this.inner(e), initializer: null };
  }
  apat(p) {
    if (p.type === 'ArrayPattern') {
      // Pinned by this project's snapshots: every comma of an array assignment pattern is recorded
      // as an empty element, in addition to the elements themselves.
      const elements = []; let rest = null; const c = this.c, n = p.elements.length;
      for (let k = 0; k < n; k++) {
        const e = p.elements[k];
        if (e === null) { elements.push(null); continue; }
        if (e.type === 'RestElement') { this.restLast(e); rest = this.inner(e.argument); continue; }
        elements.push(this.aEl(e));
        if (k + 1 < n || c.text(c.tokAt(e.end)) === ',') elements.push(null);
      }
      return { Array: { span: this.s(p), elements, rest } };
    }
    const props = []; let rest = null;
    for (const e of p.properties) {
      if (e.type === 'RestElement') { this.restLast(e); rest = this.inner(e.argument); continue; }
      if (e.shorthand) props.push({ Single: { span: this.s(e), ident: this.ident(e.key), initializer: e.value.type === 'AssignmentPattern' ? this.expr(e.value.right) : null } });
      else { const v = this.aEl(e.value); props.push({ Named: { span: this.s(e), name: this.propName(e), value: v.target, initializer: v.initializer } }); }
    }
    return { Object: { span: this.s(p), props, rest } };
  }
  method(e, isStatic, isObject) {
    const c = this.c; let start = e.start;
    if (isStatic) start = c.tokens[c.tokAt(e.start) + 1].start;
    const f = e.value;
    const kind = e.kind === 'get' ? 'Get' : e.kind === 'set' ? 'Set' : 'Method';
    let generator = f.generator, asynchronous = f.async;
    // Pinned by this project's snapshots: plain methods and accessors take over the [Yield] context
    // that surrounds them.
    if (!generator && !asynchronous && this.y) { generator = true; c.quirks.method = true; }
    const name = this.propName(e);
    const parameters = this.within(false, asynchronous, () => this.params(f.params, f.start, c.tokens[c.tokAt(f.body.start) - 1].end));
    const body = this.within(generator, asynchronous, () => this.body(f.body));
    return { span: c.sp(start, e.end), name, kind, parameters, body, generator, asynchronous, is_static: isStatic };
  }
  cls(n, decl) {
    const c = this.c; let identifier = this.optIdent(n.id);
    if (decl && !identifier) { const i = c.tokAt(n.start) + 1; const p = c.off(c.tokens[i].start); identifier = { span: p + ':' + p, name: '' }; }
    const body = n.body.body.map(e => { if (e.type !== 'MethodDefinition') throw new Unsupported(e.type); return { Method: this.method(e, e.static) }; });
    return { span: this.s(n), identifier, super_class: this.optExpr(n.superClass), body };
  }
  stmt(n) {
    const S = this.s(n);
    switch (n.type) {
      case 'BlockStatement': return { Block: this.block(n) };
      case 'BreakStatement': return { Break: { span: S, label: this.optIdent(n.label) } };
      case 'ContinueStatement': return { Continue: { span: S, label: this.optIdent(n.label) } };
      case 'DebuggerStatement': return { Debugger: { span: S } };
      case 'DoWhileStatement': return { DoWhile: { span: S, body: this.stmt(n.body), test: this.expr(n.test) } };
      case 'EmptyStatement': return { Empty: { span: S } };
      case 'ExpressionStatement': return { Expr: { span: S, expr: this.expr(n.expression) } };
      case 'ForStatement': {
        let init = null;
        if (n.init) init = n.init.type === 'VariableDeclaration' ? { Declaration: this.varDecl(n.init) } : { Expr: this.expr(n.init) };
        return { For: { span: S, init, test: this.optExpr(n.test), update: this.optExpr(n.update), body: this.stmt(n.body) } };
      }
      case 'ForInStatement': return { ForIn: { span: S, left: this.forLeft(n.left), right: this.expr(n.right), body: this.stmt(n.body) } };
      case 'ForOfStatement': return { ForOf: { span: S, left: this.forLeft(n.left), right: this.expr(n.right), body: this.stmt(n.body), asynchronous: !!n.await } };
      case 'IfStatement': for (const b of [n.consequent, n.alternate]) if (b && b.type === 'FunctionDeclaration') this.c.quirks.functionBody = true; return { If: { span: S, condition: this.expr(n.test), consequent: this.stmt(n.consequent), alternate: n.alternate ? this.stmt(n.alternate) : null } };
      case 'LabeledStatement': if (n.body.type === 'FunctionDeclaration') this.c.quirks.functionBody = true; return { Labeled: { span: S, label: this.ident(n.label), body: this.stmt(n.body) } };
      case 'ReturnStatement': return { Return: { span: S, argument: this.optExpr(n.argument) } };
      case 'SwitchStatement': return { Switch: { span: S, discriminant: this.expr(n.discriminant), cases: n.cases.map(k => ({ span: this.s(k), test: this.optExpr(k.test), consequent: this.list(k.consequent) })) } };
      case 'ThrowStatement': return { Throw: { span: S, argument: this.expr(n.argument) } };
      case 'TryStatement': return { Try: { span: S, block: this.block(n.block), handler: n.handler ? { span: this.s(n.handler), parameter: n.handler.param ? this.bind(n.handler.param) : null, body: this.block(n.handler.body) } : null, finalizer: n.finalizer ? this.block(n.finalizer) : null } };
      case 'VariableDeclaration': return { Variable: this.varDecl(n) };
      case 'WhileStatement': return { While: { span: S, test: this.expr(n.test), body: this.stmt(n.body) } };
      case 'WithStatement': return { With: { span: S, object: this.expr(n.object), body: this.stmt(n.body) } };
      case 'ClassDeclaration': return { ClassDecl: this.cls(n, true) };
      case 'FunctionDeclaration': return { FunctionDecl: this.func(n, true) };
      case 'ImportDeclaration': {
        let def = null, ns = null, named = null;
        for (const sp of n.specifiers) {
          if (sp.type === 'ImportDefaultSpecifier') def = this.ident(sp.local);
          else if (sp.type === 'ImportNamespaceSpecifier') ns = this.ident(sp.local);
          else { named = named || []; named.push({ span: this.s(sp), name: this.ident(sp.imported), alias: sp.imported.start === sp.local.start ? null : this.ident(sp.local) }); }
        }
        if (named === null && ns === null) { // `import {} from "x"` is told from `import "x"` by its brace
          const c = this.c; for (let i = c.tokAt(n.start); i < c.tokAt(n.source.start); i++) if (c.text(i) === '{') named = [];
        }
        return { ImportDecl: { span: S, default_binding: def, namespace_binding: ns, named_imports: named, from: this.lit(n.source) } };
      }
      case 'ExportNamedDeclaration': {
        if (n.declaration) return { ExportDecl: { Decl: { span: S, decl: this.stmt(n.declaration) } } };
        const named_exports = n.specifiers.map(sp => ({ span: this.s(sp), name: this.ident(sp.exported), alias_of: sp.exported.start === sp.local.start ? null : this.ident(sp.local) }));
        return { ExportDecl: { Named: { span: S, named_exports, from: n.source ? this.lit(n.source) : null } } };
      }
      case 'ExportDefaultDeclaration': {
        const d = n.declaration;
        if (d.type === 'FunctionDeclaration' || d.type === 'ClassDeclaration') return { ExportDecl: { DefaultDecl: { span: S, decl: this.stmt(d) } } };
        return { ExportDecl: { DefaultExpr: { span: S, expr: this.expr(d) } } };
      }
      case 'ExportAllDeclaration': return { ExportDecl: { Namespace: { span: S, alias: this.optIdent(n.exported), from: this.lit(n.source) } } };
      default: throw new Unsupported(n.type);
    }
  }
  forLeft(l) {
    if (l.type === 'MemberExpression' && '[{'.includes(this.c.src[l.start])) this.c.quirks.literalTarget = true;
    if (l.type === 'VariableDeclaration') {
      if (l.declarations[0].init) throw new Unsupported('for-in initializer');
      return { Declaration: { span: this.s(l), kind: lookup(KIND, l.kind), binding: this.bind(l.declarations[0].id) } };
    }
    if (l.type === 'ArrayPattern' || l.type === 'ObjectPattern') return { AssignmentPattern: this.apat(l) };
    return { Expr: this.expr(l) };
  }
  args(as) { return as.map(a => a.type === 'SpreadElement' ? { Spread: this.expr(a.argument) } : { Expr: this.expr(a) }); }
  argsSpan(afterEnd, end) {
    const c = this.c; let i = c.tokAt(afterEnd);
    if (c.text(i) === '?.') i++;
    if (c.text(i) !== '(') throw new Unsupported('argspan');
    return c.sp(c.tokens[i].start, end);
  }
  template(q) {
    const parts = [];
    if (q.expressions.length === 0) return { parts: [{ String: this.chunk(q.quasis[0]) }] };
    for (let i = 0; i < q.quasis.length; i++) {
      const t = this.chunk(q.quasis[i]); if (t !== '') parts.push({ String: t });
      if (i < q.expressions.length) parts.push({ Expr: this.expr(q.expressions[i]) });
    }
    return { parts };
  }
  chunk(q) { return dropEscapes(this.c.src.slice(q.start, q.end)); }
  literal(n, literal) { return { Literal: { span: this.s(n), literal } }; }
  inChain(n) { // does the chain up to and including n contain a `?.`
    if (n.type === 'MemberExpression') return n.optional || this.inChain(n.object);
    if (n.type === 'CallExpression') return n.optional || this.inChain(n.callee);
    return false;
  }
  expr(n) {
    const S = this.s(n), c = this.c;
    switch (n.type) {
      case 'Identifier': return { IdentRef: this.ident(n) };
      case 'ThisExpression': return { This: { span: S } };
      case 'Literal': {
        const raw = c.src.slice(n.start, n.end);
        if (n.regex) return this.literal(n, { Regexp: raw });
        if (n.bigint !== undefined && n.bigint !== null) throw new Unsupported('bigint');
        if (n.value === null) return this.literal(n, 'Null');
        if (typeof n.value === 'boolean') return this.literal(n, { Boolean: n.value });
        if (typeof n.value === 'number') return this.literal(n, { Number: { raw } });
        return this.literal(n, { String: this.lit(n) });
      }
      case 'TemplateLiteral': return this.literal(n, { Template: this.template(n) });
      case 'TaggedTemplateExpression': return { TaggedTemplate: { span: S, callee: this.expr(n.tag), template: this.template(n.quasi) } };
      case 'ArrayExpression': return this.literal(n, { Array: { elements: n.elements.map(e => e === null ? 'Elision' : e.type === 'SpreadElement' ? { Spread: this.expr(e.argument) } : { Expr: this.expr(e) }) } });
      case 'ObjectExpression': return this.literal(n, { Object: { props: n.properties.map(e => {
        if (e.type === 'SpreadElement') return { Spread: this.expr(e.argument) };
        if (e.shorthand) { if (e.value.type !== 'Identifier') throw new Reject('Shorthand property assignments are valid only in destructuring patterns'); return { IdentRef: this.ident(e.key) }; }
        if (e.method || e.kind !== 'init') return { Method: this.method(e, false) };
        return { Named: { span: this.s(e), name: this.propName(e), value: this.expr(e.value) } };
      }) } });
      case 'FunctionExpression': return { Function: this.func(n, false) };
      case 'ClassExpression': return { Class: this.cls(n, false) };
      case 'ArrowFunctionExpression': {
        let i = c.tokAt(n.start); if (n.async) i++;
        const first = c.tokens[i]; const binding_parameter = c.text(i) !== '(';
        const arrow = c.tokAt(n.body.start) - 1;
        const parameters = this.params(n.params, first.start, c.tokens[arrow - 1].end);
        const body = this.within(false, n.async, () => n.body.type === 'BlockStatement' ? { Body: this.body(n.body) } : { Expr: this.expr(n.body) });
        return { ArrowFunction: { span: S, asynchronous: n.async, binding_parameter, parameters, body } };
      }
      case 'ParenthesizedExpression': return { Parenthesized: { span: S, expression: this.expr(n.expression) } };
      case 'SequenceExpression': return { Sequence: { span: S, expr: n.expressions.map(e => this.expr(e)) } };
      case 'UnaryExpression': return { Unary: { span: S, operator: lookup(UN, n.operator), argument: this.expr(n.argument) } };
      case 'UpdateExpression': return { Update: { span: S, operator: n.operator === '++' ? 'Increase' : 'Decrease', prefix: n.prefix, argument: this.expr(n.argument) } };
      case 'BinaryExpression': if (n.operator === '**' && n.right.type === 'BinaryExpression' && n.right.operator === '**') {
        // Pinned by this project's snapshots: ** associates to the left.
        c.quirks.exponent = true;
        const ops = [n.left]; let r = n.right;
        while (r.type === 'BinaryExpression' && r.operator === '**') { ops.push(r.left); r = r.right; }
        ops.push(r);
        let t = this.expr(ops[0]);
        for (let k = 1; k < ops.length; k++) t = { Binary: { span: c.sp(n.start, ops[k].end), operator: 'Exponent', left: t, right: this.expr(ops[k]) } };
        return t;
      }
      return { Binary: { span: S, operator: lookup(BIN, n.operator), left: this.expr(n.left), right: this.expr(n.right) } };
      case 'LogicalExpression': return { Logical: { span: S, operator: lookup(LOGIC, n.operator), left: this.expr(n.left), right: this.expr(n.right) } };
      case 'ConditionalExpression': return { Conditional: { span: S, condition: this.expr(n.test), consequent: this.expr(n.consequent), alternate: this.expr(n.alternate) } };
      case 'AssignmentExpression': return { Assignment: { span: S, operator: lookup(ASSIGN, n.operator), left: this.target(n.left), right: this.expr(n.right) } };
      case 'AwaitExpression': return { Await: { span: S, argument: this.expr(n.argument) } };
      case 'YieldExpression': return { Yield: { span: S, argument: this.optExpr(n.argument), delegate: n.delegate } };
      case 'MetaProperty': return { MetaProperty: { span: S, meta: this.ident(n.meta), property: this.ident(n.property) } };
      case 'ChainExpression': return this.expr(n.expression);
      case 'ImportExpression': return { Call: { span: S, callee: 'Import', arguments_span: this.argsSpan(c.tokens[c.tokAt(n.start)].end, n.end), arguments: [{ Expr: this.expr(n.source) }] } };
      case 'NewExpression': {
        const i = c.tokAt(n.callee.end);
        const has = c.tokens[i] && c.tokens[i].start < n.end && c.text(i) === '(';
        return { New: { span: S, callee: this.expr(n.callee), arguments_span: has ? c.sp(c.tokens[i].start, n.end) : null, arguments: this.args(n.arguments) } };
      }
      case 'CallExpression': {
        if (n.callee.type === 'Super') return { Call: { span: S, callee: 'Super', arguments_span: this.argsSpan(n.callee.end, n.end), arguments: this.args(n.arguments) } };
        const a = { arguments_span: this.argsSpan(n.callee.end, n.end), arguments: this.args(n.arguments) };
        if (this.inChain(n)) return { OptionalCall: { span: S, callee: this.expr(n.callee), ...a, optional: n.optional } };
        return { Call: { span: S, callee: { Expr: this.expr(n.callee) }, ...a } };
      }
      case 'MemberExpression': {
        const property = n.computed ? { Expr: this.expr(n.property) } : { Ident: this.ident(n.property) };
        if (this.inChain(n)) return { OptionalMember: { span: S, object: this.expr(n.object), property, optional: n.optional } };
        const object = n.object.type === 'Super' ? { Super: { span: this.s(n.object) } } : { Expr: this.expr(n.object) };
        return { Member: { span: S, object, property } };
      }
      default: throw new Unsupported(n.type);
    }
  }
}


// Errors that this project does not (aim to) report. A source that only breaks these rules may be
// accepted or rejected; when it is accepted its tree is still compared.
const LENIENT = new RegExp('^(' + [
  // labels, and the jumps to them
  "Unsyntactic", "Label '", "Multiple default clauses",
  // names that are declared or exported twice, or not at all
  "Identifier '.*' has already been declared", "Duplicate export '", "Export '.*' is not defined",
  // names that may not be bound in strict code (the words are read before the directive is seen)
  "Binding .* in strict mode", "let is disallowed as a lexically bound name",
  "Duplicate constructor", "Redefinition of __proto__ property", "Classes may not have a static",
  "The left-hand side of a for-of loop may not start with 'let'",
  "'new.target' can only be used in functions", "Cannot use 'import.meta' outside a module",
  "Bad escape sequence in untagged template", "Invalid regular expression flag", "Duplicate regular expression flag", "Invalid regular expression: ",
].join('|') + ')');
// acorn guesses from the tokens before it whether a slash starts a regular expression. Here the
// parser, which knows whether an operand or an operator is due, corrects the cases where the guess is wrong.
const TT = acorn.tokTypes, TC = acorn.tokContexts;
TT.name.updateContext = function () { this.exprAllowed = false; };
class Strict extends acorn.Parser {
  updateContext(prevType) {
    super.updateContext(prevType);
    if (this.type.keyword && prevType === TT.questionDot) this.exprAllowed = false;
  }
  // replaces the context that the construct that was just opened has pushed
  reopen(from, to) {
    const k = this.context, pushes = [TT.parenL, TT.braceL, TT.dollarBraceL, TT.backQuote, TT._function, TT._class].includes(this.type);
    for (const i of pushes ? [k.length - 2, k.length - 1] : [k.length - 1]) if (k[i] === from) { k[i] = to; return; }
  }
  readRegexp() {
    const at = this.pos;
    try { return super.readRegexp(); } catch (e) {
      if (!(e instanceof SyntaxError)) throw e;
      this.regexpError = e; this.pos = at - 1; return this.slash();
    }
  }
  slash() {
    if (this.input.charCodeAt(this.pos + 1) === 61) return this.finishOp(TT.assign, 2);
    return this.finishOp(TT.slash, 1);
  }
  parseExprOp(left, a, b, c, d) {
    if (this.type === TT.regexp) { this.pos = this.start; this.slash(); }
    return super.parseExprOp(left, a, b, c, d);
  }
  parseExprAtom(refs, forInit, forNew) {
    if (this.type === TT.assign && this.value === '/=') { this.pos = this.start + 1; this.readRegexp(); }
    return super.parseExprAtom(refs, forInit, forNew);
  }
  // `let` at the end of a line before a reserved word is an expression statement
  isLet(context) {
    if (!super.isLet(context)) return false;
    const m = /^(?:\s|\/\/.*|\/\*[^]*?\*\/)*/.exec(this.input.slice(this.pos)), w = /^[a-z]+/.exec(this.input.slice(this.pos + m[0].length));
    return !(w && this.keywords.test(w[0]) && !/[\w$\\]/.test(this.input.charAt(this.pos + m[0].length + w[0].length)) && !acorn.isIdentifierChar(this.input.codePointAt(this.pos + m[0].length + w[0].length) || 0, true));
  }
  // (acorn takes "use strict" before a line that starts with ++ or -- for an operand)
  strictDirective(start) {
    const skip = this.options.sourceType === 'module' ? /(?:\s|\/\/.*|\/\*[^]*?\*\/)*/y : /(?:\s|\/\/.*|\/\*[^]*?\*\/|<!--.*|(?<=[\n\r\u2028\u2029]\s*)-->.*)*/y;
    const literal = /'(?:\\[^]|[^'\\])*'|"(?:\\[^]|[^"\\])*"/y;
    const goesOn = /(?:[(`[*\/%<>=,?:^&|]|\.(?!\d)|\+(?!\+)|-(?!-)|!=|in(?:stanceof)?(?![\p{ID_Continue}$\u200c\u200d\\]))/uy;
    const at = (re, from) => { re.lastIndex = from; const m = re.exec(this.input); return m && m[0]; };
    for (let i = start; ;) {
      i += at(skip, i).length;
      const text = at(literal, i);
      if (text === null) return false;
      i += text.length;
      const space = at(skip, i), line = /[\n\r\u2028\u2029]/.test(space);
      i += space.length;
      const next = this.input.charAt(i);
      if (/^.use strict.$/.test(text)) return next === ';' || next === '}' || next === '' || line && at(goesOn, i) === null;
      if (next === ';') i++; else if (!line) return false;
    }
  }
  overrideContext(ctx) {
    // (for an anonymous async function the parenthesis has been opened already; parseFunction does it)
    if (ctx === TC.f_expr && this.type === TT.parenL) return;
    super.overrideContext(ctx);
  }
  parseYield(forInit) { this.exprAllowed = true; return super.parseYield(forInit); }
  parseExprList(close, a, b, c) { if (close === TT.parenR) this.reopen(TC.p_stat, TC.p_expr); return super.parseExprList(close, a, b, c); }
  parseFunction(node, statement, a, isAsync, forInit) {
    if (!(statement & 1)) { this.reopen(TC.f_stat, TC.f_expr); this.reopen(TC.f_gen, TC.f_expr_gen); }
    return super.parseFunction(node, statement, a, isAsync, forInit);
  }
  parseClass(node, isStatement) {
    const k = this.context;
    if (!isStatement && k[k.length - 1] === TC.f_stat) k[k.length - 1] = TC.f_expr;
    return super.parseClass(node, isStatement);
  }
  parseObj(isPattern, refs) {
    const k = this.context;
    if (k[k.length - 1] === TC.b_stat) k[k.length - 1] = TC.b_expr;
    return super.parseObj(isPattern, refs);
  }
}
class Lenient extends Strict {
  tolerates(msg) {
    return LENIENT.test(msg) || this.specifier;
  }
  raise(pos, msg) { if (!this.tolerates(msg)) super.raise(pos, msg); }
  raiseRecoverable(pos, msg) { if (!this.tolerates(msg)) super.raiseRecoverable(pos, msg); }
  // the names in export { } are not checked when they also name something local
  parseModuleExportName() {
    const node = super.parseModuleExportName();
    if (!this.importing) (this.specifiers = this.specifiers || new Set()).add(node);
    return node;
  }
  parseImportSpecifier() {
    this.importing = true;
    try { return super.parseImportSpecifier(); } finally { this.importing = false; }
  }
  checkUnreserved(ref) {
    // (and plain methods in generators are read as generators)
    this.specifier = !!(this.specifiers && this.specifiers.has(ref))
      || (ref.name === 'yield' && !this.inGenerator && this.scopeStack.some(s => s.flags & 8));
    try { super.checkUnreserved(ref); } finally { this.specifier = false; }
  }
  checkPropClash() {}
  // const without a value
  parseVar(node, isFor, kind) {
    super.parseVar(node, isFor, kind, true);
    const heads = isFor && (this.type === TT._in || this.isContextual('of'));
    for (const d of node.declarations) if (d.id.type !== 'Identifier' && !d.init && !heads) super.raise(d.end, 'Complex binding patterns require an initialization value');
    return node;
  }
  validateRegExpFlags() {}
  validateRegExpPattern() {}
}

// A reader that reports every error but those that match.
const ignoring = new Map();
function Ignoring(text) {
  if (!ignoring.has(text)) {
    const re = new RegExp(text);
    ignoring.set(text, class extends Strict {
      raise(pos, msg) { if (re.test(msg)) return; super.raise(pos, msg); }
      raiseRecoverable(pos, msg) { this.raise(pos, msg); }
    });
  }
  return ignoring.get(text);
}

const SKIP = /^(Constructor can't|Bad character escape|Code point out of bounds|Octal literal in)/;
function parse(P, job, c) {
  const opts = { ecmaVersion: job.ecma || 2021, sourceType: job.type, preserveParens: true, onToken: t => c.tokens.push(t), locations: false };
  if (job.opts) Object.assign(opts, job.opts);
  return P.parse(job.src, opts);
}

// ok: true (valid), "lenient" (valid but for rules this project does not enforce), false, or null (oracle failure)
function run(job) {
  let c = new Ctx(job.src), node, ok = true, err, pos;
  try { node = parse(job.ignore ? Ignoring(job.ignore) : Strict, job, c); } catch (e) {
    if (!(e instanceof SyntaxError)) return { id: job.id, ok: null, err: 'internal: ' + e.message };
    err = e.message; pos = e.pos; ok = false;
    if (!job.strictOnly) {
      c = new Ctx(job.src);
      try { node = parse(Lenient, job, c); ok = 'lenient'; } catch (e2) { ok = false; if (e2 instanceof SyntaxError) { err = e2.message; pos = e2.pos; } }
    }
  }
  // Not decided: rules this project does not implement, and that change how the rest is read.
  if (ok !== true && SKIP.test(err)) return { id: job.id, ok: 'skip', err, pos };
  if (ok === false) return { id: job.id, ok, err, pos };
  const res = { id: job.id, ok, err, pos };
  if (ok === true && c.tokens.some(t => t.type === TT.num && /^0[0-9]/.test(job.src.slice(t.start, t.end)))) c.quirks.legacyNumber = true;
  if (job.noast) return res;
  c.tokens.sort((a, b) => a.start - b.start || a.end - b.end);
  try { res.ast = new Conv(c).program(node, job.type); res.quirks = Object.keys(c.quirks); } catch (e) {
    if (e instanceof Reject) return { id: job.id, ok: false, err: e.message, pos: 0 };
    if (e instanceof Unsupported || ok === 'lenient') res.unsupported = String(e.message);
    else return { id: job.id, ok: null, err: 'convert: ' + e.stack };
  }
  return res;
}
module.exports = { run, dropEscapes };
if (require.main === module) {
  // Split on '\n' only: readline would also split on U+2028/U+2029 inside a JSON string.
  const { StringDecoder } = require('string_decoder');
  const dec = new StringDecoder('utf8'); let buf = '';
  process.stdin.on('data', d => {
    buf += dec.write(d); let i, from = 0, out = '';
    while ((i = buf.indexOf('\n', from)) >= 0) {
      const l = buf.slice(from, i); from = i + 1;
      if (l.trim() !== '') out += JSON.stringify(run(JSON.parse(l))) + '\n';
    }
    buf = buf.slice(from);
    if (out) process.stdout.write(out);
  });
}
