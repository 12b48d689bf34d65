// Mechanical extraction of /repo's TypeScript (and of the contract files) into a
// small ESTree-like JSON tree, by the TypeScript compiler API, on every run.
//
// What the extraction drops, and nothing else: types (interfaces, type aliases,
// annotations, type arguments, `as`, `satisfies`, `!`, overload signatures,
// access modifiers other than constructor parameter properties), type-only
// imports and exports, comments, parentheses, `declare` statements.
// Any node it does not know becomes {t:'Unsupported'} with its kind and text and
// makes the verifier refuse every function whose execution reaches it.
import fs from 'node:fs';
import path from 'node:path';
import { createRequire } from 'node:module';
const require = createRequire('/opt/veriftools/node/node_modules/');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const K = ts.SyntaxKind;

function convert(file, text) {
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true,
    file.endsWith('.ts') ? ts.ScriptKind.TS : ts.ScriptKind.JS);
  const ln = (n) => sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1;
  const mk = (n, t, o) => ({ t, l: ln(n), ...o });
  const uns = (n) => mk(n, 'Unsupported', { kind: K[n.kind], text: n.getText(sf).slice(0, 120) });
  const hasMod = (n, k) => !!(ts.canHaveModifiers(n) && ts.getModifiers(n)?.some((m) => m.kind === k));

  function propName(p) {
    if (ts.isIdentifier(p) || ts.isStringLiteral(p) || ts.isNoSubstitutionTemplateLiteral(p) || ts.isPrivateIdentifier(p)) return { key: p.text };
    if (ts.isNumericLiteral(p)) return { key: String(Number(p.text)) };
    if (ts.isComputedPropertyName(p)) return { computed: ex(p.expression) };
    return { computed: uns(p) };
  }
  function pat(p) { // binding pattern
    if (ts.isIdentifier(p)) return mk(p, 'Id', { name: p.text });
    if (ts.isObjectBindingPattern(p)) {
      return mk(p, 'ObjPat', { props: p.elements.map((e) => e.dotDotDotToken
        ? { rest: pat(e.name) }
        : { ...(e.propertyName ? propName(e.propertyName) : { key: e.name.text }), value: pat(e.name), def: e.initializer ? ex(e.initializer) : null }) });
    }
    if (ts.isArrayBindingPattern(p)) {
      return mk(p, 'ArrPat', { elems: p.elements.map((e) => ts.isOmittedExpression(e) ? null
        : { value: pat(e.name), def: e.initializer ? ex(e.initializer) : null, rest: !!e.dotDotDotToken }) });
    }
    return uns(p);
  }
  // assignment target: member / identifier / literal patterns
  function target(e) {
    while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) e = e.expression;
    if (ts.isObjectLiteralExpression(e)) {
      const props = e.properties.map((p) => {
        if (ts.isShorthandPropertyAssignment(p)) return { key: p.name.text, value: mk(p.name, 'Id', { name: p.name.text }), def: p.objectAssignmentInitializer ? ex(p.objectAssignmentInitializer) : null };
        if (ts.isPropertyAssignment(p)) {
          let v = p.initializer, def = null;
          if (ts.isBinaryExpression(v) && v.operatorToken.kind === K.EqualsToken) { def = ex(v.right); v = v.left; }
          return { ...propName(p.name), value: target(v), def };
        }
        if (ts.isSpreadAssignment(p)) return { rest: target(p.expression) };
        return { computed: uns(p), value: uns(p) };
      });
      return mk(e, 'ObjPat', { props });
    }
    if (ts.isArrayLiteralExpression(e)) {
      return mk(e, 'ArrPat', { elems: e.elements.map((x) => {
        if (ts.isOmittedExpression(x)) return null;
        if (ts.isSpreadElement(x)) return { value: target(x.expression), rest: true };
        if (ts.isBinaryExpression(x) && x.operatorToken.kind === K.EqualsToken) return { value: target(x.left), def: ex(x.right) };
        return { value: target(x) };
      }) });
    }
    return ex(e);
  }
  function params(n) {
    return n.parameters.filter((p) => !(ts.isIdentifier(p.name) && p.name.text === 'this')).map((p) => ({
      pat: pat(p.name), def: p.initializer ? ex(p.initializer) : null, rest: !!p.dotDotDotToken,
      prop: !!ts.getModifiers(p)?.some((m) => [K.PrivateKeyword, K.PublicKeyword, K.ProtectedKeyword, K.ReadonlyKeyword].includes(m.kind)),
    }));
  }
  function fn(n, extra = {}) {
    const body = n.body ? (ts.isBlock(n.body) ? { block: n.body.statements.map(st).filter(Boolean) } : { expr: ex(n.body) }) : null;
    return mk(n, 'Fn', { params: params(n), ...body, async: hasMod(n, K.AsyncKeyword), gen: !!n.asteriskToken,
      arrow: ts.isArrowFunction(n), name: n.name && n.name.text ? n.name.text : null, ...extra });
  }
  function cls(n) {
    const members = [];
    for (const m of n.members) {
      if (ts.isSemicolonClassElement(m) || ts.isIndexSignatureDeclaration(m)) continue;
      if (hasMod(m, K.DeclareKeyword) || hasMod(m, K.AbstractKeyword)) continue;
      const stat = hasMod(m, K.StaticKeyword);
      if (ts.isConstructorDeclaration(m)) { if (m.body) members.push({ kind: 'ctor', fn: fn(m) }); }
      else if (ts.isMethodDeclaration(m)) { if (m.body) { const pn = propName(m.name); members.push({ kind: 'method', static: stat, ...pn, fn: fn(m, { name: pn.key ?? null }) }); } }
      else if (ts.isGetAccessor(m)) members.push({ kind: 'get', static: stat, ...propName(m.name), fn: fn(m) });
      else if (ts.isSetAccessor(m)) members.push({ kind: 'set', static: stat, ...propName(m.name), fn: fn(m) });
      else if (ts.isPropertyDeclaration(m)) members.push({ kind: 'field', static: stat, ...propName(m.name), init: m.initializer ? ex(m.initializer) : null });
      else members.push({ kind: 'unsupported', node: uns(m) });
    }
    const ext = n.heritageClauses?.find((h) => h.token === K.ExtendsKeyword);
    return mk(n, 'Class', { name: n.name ? n.name.text : null, ext: ext ? ex(ext.types[0].expression) : null, members });
  }
  function inChain(n) { return !!(n.flags & ts.NodeFlags.OptionalChain); }
  function ex(n) {
    const e = ex0(n);
    // close an optional chain at its outermost link
    if (inChain(n) && (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n) || ts.isCallExpression(n))) {
      let p = n.parent;
      const cont = p && inChain(p) && p.expression === n;
      const nn = p && ts.isNonNullExpression(p) && p.parent && inChain(p.parent) && p.parent.expression === p;
      if (!cont && !nn) return mk(n, 'Chain', { e });
    }
    return e;
  }
  function ex0(n) {
    switch (n.kind) {
      case K.ParenthesizedExpression: case K.AsExpression: case K.SatisfiesExpression:
      case K.NonNullExpression: case K.TypeAssertionExpression: case K.ExpressionWithTypeArguments:
        return ex(n.expression);
      case K.NumericLiteral: return mk(n, 'Num', { v: n.text });
      case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return mk(n, 'Str', { v: n.text });
      case K.TrueKeyword: return mk(n, 'Bool', { v: true });
      case K.FalseKeyword: return mk(n, 'Bool', { v: false });
      case K.NullKeyword: return mk(n, 'Null', {});
      case K.ThisKeyword: return mk(n, 'This', {});
      case K.SuperKeyword: return mk(n, 'Super', {});
      case K.Identifier: return mk(n, 'Id', { name: n.text });
      case K.RegularExpressionLiteral: { const i = n.text.lastIndexOf('/'); return mk(n, 'Regex', { src: n.text.slice(1, i), flags: n.text.slice(i + 1) }); }
      case K.TemplateExpression: return mk(n, 'Tpl', { head: n.head.text, spans: n.templateSpans.map((s) => ({ e: ex(s.expression), s: s.literal.text })) });
      case K.ArrayLiteralExpression: return mk(n, 'Arr', { elems: n.elements.map((e) => ts.isSpreadElement(e) ? { spread: ex(e.expression) } : ts.isOmittedExpression(e) ? { e: uns(e) } : { e: ex(e) }) });
      case K.ObjectLiteralExpression: return mk(n, 'Obj', { props: n.properties.map((p) => {
        if (ts.isPropertyAssignment(p)) { const pn = propName(p.name); return { ...pn, value: ex(p.initializer) }; }
        if (ts.isShorthandPropertyAssignment(p)) return { key: p.name.text, value: mk(p.name, 'Id', { name: p.name.text }) };
        if (ts.isSpreadAssignment(p)) return { spread: ex(p.expression) };
        if (ts.isMethodDeclaration(p)) return { ...propName(p.name), value: fn(p) };
        if (ts.isGetAccessor(p)) return { ...propName(p.name), value: uns(p) };
        return { key: '?', value: uns(p) };
      }) });
      case K.FunctionExpression: case K.ArrowFunction: return fn(n);
      case K.ClassExpression: return cls(n);
      case K.PropertyAccessExpression: return mk(n, 'Mem', { o: ex(n.expression), p: n.name.text, opt: !!n.questionDotToken });
      case K.ElementAccessExpression: return mk(n, 'Idx', { o: ex(n.expression), i: ex(n.argumentExpression), opt: !!n.questionDotToken });
      case K.CallExpression:
        if (n.expression.kind === K.ImportKeyword) return mk(n, 'ImportCall', { arg: ex(n.arguments[0]) });
        return mk(n, 'Call', { f: ex(n.expression), args: n.arguments.map((a) => ts.isSpreadElement(a) ? { spread: ex(a.expression) } : { e: ex(a) }), opt: !!n.questionDotToken });
      case K.NewExpression: return mk(n, 'New', { f: ex(n.expression), args: (n.arguments ?? []).map((a) => ts.isSpreadElement(a) ? { spread: ex(a.expression) } : { e: ex(a) }) });
      case K.ConditionalExpression: return mk(n, 'Cond', { c: ex(n.condition), a: ex(n.whenTrue), b: ex(n.whenFalse) });
      case K.AwaitExpression: return mk(n, 'Await', { e: ex(n.expression) });
      case K.TypeOfExpression: return mk(n, 'TypeOf', { e: ex(n.expression) });
      case K.VoidExpression: return mk(n, 'Void', { e: ex(n.expression) });
      case K.DeleteExpression: return mk(n, 'Delete', { e: ex(n.expression) });
      case K.PrefixUnaryExpression: {
        const op = ts.tokenToString(n.operator);
        if (op === '++' || op === '--') return mk(n, 'Upd', { op, prefix: true, e: target(n.operand) });
        return mk(n, 'Un', { op, e: ex(n.operand) });
      }
      case K.PostfixUnaryExpression: return mk(n, 'Upd', { op: ts.tokenToString(n.operator), prefix: false, e: target(n.operand) });
      case K.BinaryExpression: {
        const op = ts.tokenToString(n.operatorToken.kind);
        if (op === ',') return mk(n, 'Seq', { a: ex(n.left), b: ex(n.right) });
        if (op === '=') return mk(n, 'Assign', { op: '=', to: target(n.left), e: ex(n.right) });
        if (['+=', '-=', '*=', '/=', '%=', '&&=', '||=', '??='].includes(op)) return mk(n, 'Assign', { op, to: ex(n.left), e: ex(n.right) });
        if (['&&', '||', '??'].includes(op)) return mk(n, 'Logic', { op, a: ex(n.left), b: ex(n.right) });
        if (op === 'in') return mk(n, 'In', { a: ex(n.left), b: ex(n.right) });
        if (op === 'instanceof') return mk(n, 'InstanceOf', { a: ex(n.left), b: ex(n.right) });
        if (['===', '!==', '==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '%'].includes(op)) return mk(n, 'Bin', { op, a: ex(n.left), b: ex(n.right) });
        return uns(n);
      }
      case K.MetaProperty: return uns(n);
      default: return uns(n);
    }
  }
  const isVar = (l) => ts.isVariableDeclarationList(l) && !(l.flags & (ts.NodeFlags.Const | ts.NodeFlags.Let | ts.NodeFlags.Using));
  function vardecl(list) {
    const kind = list.flags & ts.NodeFlags.Const ? 'const' : list.flags & ts.NodeFlags.Let ? 'let' : 'var';
    return { kind, decls: list.declarations.map((d) => ({ pat: pat(d.name), init: d.initializer ? ex(d.initializer) : null })) };
  }
  function st(n) {
    switch (n.kind) {
      case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.EmptyStatement: return null;
      case K.VariableStatement: if (hasMod(n, K.DeclareKeyword)) return null;
        return mk(n, 'Var', { ...vardecl(n.declarationList), exported: hasMod(n, K.ExportKeyword) });
      case K.ExpressionStatement: return mk(n, 'Expr', { e: ex(n.expression) });
      case K.IfStatement: return mk(n, 'If', { c: ex(n.expression), a: st(n.thenStatement), b: n.elseStatement ? st(n.elseStatement) : null });
      case K.ReturnStatement: return mk(n, 'Ret', { e: n.expression ? ex(n.expression) : null });
      case K.ThrowStatement: return mk(n, 'Throw', { e: ex(n.expression) });
      case K.Block: return mk(n, 'Block', { body: n.statements.map(st).filter(Boolean) });
      case K.TryStatement: return mk(n, 'Try', { body: n.tryBlock.statements.map(st).filter(Boolean),
        param: n.catchClause?.variableDeclaration ? pat(n.catchClause.variableDeclaration.name) : null,
        handler: n.catchClause ? n.catchClause.block.statements.map(st).filter(Boolean) : null,
        fin: n.finallyBlock ? n.finallyBlock.statements.map(st).filter(Boolean) : null });
      case K.ForOfStatement: if (n.awaitModifier || isVar(n.initializer)) return uns(n);
        return mk(n, 'ForOf', { ...(ts.isVariableDeclarationList(n.initializer) ? { decl: pat(n.initializer.declarations[0].name) } : { to: target(n.initializer) }), e: ex(n.expression), body: st(n.statement) });
      case K.ForInStatement: if (isVar(n.initializer)) return uns(n);
        return mk(n, 'ForIn', { ...(ts.isVariableDeclarationList(n.initializer) ? { decl: pat(n.initializer.declarations[0].name) } : { to: target(n.initializer) }), e: ex(n.expression), body: st(n.statement) });
      case K.ForStatement: return mk(n, 'For', { init: n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? mk(n, 'Var', vardecl(n.initializer)) : mk(n, 'Expr', { e: ex(n.initializer) })) : null,
        c: n.condition ? ex(n.condition) : null, u: n.incrementor ? ex(n.incrementor) : null, body: st(n.statement) });
      case K.WhileStatement: return mk(n, 'While', { c: ex(n.expression), body: st(n.statement) });
      case K.DoStatement: return mk(n, 'Do', { c: ex(n.expression), body: st(n.statement) });
      case K.SwitchStatement: return mk(n, 'Switch', { e: ex(n.expression), cases: n.caseBlock.clauses.map((c) => ({ test: ts.isCaseClause(c) ? ex(c.expression) : null, body: c.statements.map(st).filter(Boolean) })) });
      case K.BreakStatement: return n.label ? uns(n) : mk(n, 'Break', {});
      case K.ContinueStatement: return n.label ? uns(n) : mk(n, 'Continue', {});
      case K.FunctionDeclaration: if (!n.body) return null;
        return mk(n, 'FnDecl', { name: n.name ? n.name.text : 'default', fn: fn(n), exported: hasMod(n, K.ExportKeyword), def: hasMod(n, K.DefaultKeyword) });
      case K.ClassDeclaration: if (hasMod(n, K.DeclareKeyword)) return null;
        return mk(n, 'ClassDecl', { name: n.name ? n.name.text : 'default', cls: cls(n), exported: hasMod(n, K.ExportKeyword), def: hasMod(n, K.DefaultKeyword) });
      case K.ImportDeclaration: {
        const c = n.importClause, from = n.moduleSpecifier.text;
        if (!c) return mk(n, 'Import', { from, names: [] });
        if (c.isTypeOnly) return null;
        const names = [];
        if (c.name) names.push({ imported: 'default', local: c.name.text });
        if (c.namedBindings) {
          if (ts.isNamespaceImport(c.namedBindings)) names.push({ imported: '*', local: c.namedBindings.name.text });
          else for (const s of c.namedBindings.elements) if (!s.isTypeOnly) names.push({ imported: (s.propertyName ?? s.name).text, local: s.name.text });
        }
        return mk(n, 'Import', { from, names });
      }
      case K.ExportDeclaration: {
        if (n.isTypeOnly) return null;
        const from = n.moduleSpecifier?.text ?? null;
        if (!n.exportClause) return mk(n, 'ExportAll', { from });
        if (ts.isNamespaceExport(n.exportClause)) return uns(n);
        return mk(n, 'ExportNames', { from, names: n.exportClause.elements.filter((s) => !s.isTypeOnly).map((s) => ({ local: (s.propertyName ?? s.name).text, exported: s.name.text })) });
      }
      case K.ExportAssignment: return mk(n, 'ExportDefault', { e: ex(n.expression) });
      default: return uns(n);
    }
  }
  const diags = sf.parseDiagnostics?.length ?? 0;
  return { body: sf.statements.map(st).filter(Boolean), parseErrors: diags };
}

function walk(dir, out) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) { if (e.name !== '__recordings__' && e.name !== 'test-utils' && e.name !== 'node_modules') walk(p, out); }
    else if (/\.(ts|mjs|js|tsx)$/.test(e.name) && !/\.spec\.|\.test\.|\.d\.ts$/.test(e.name)) out.push(p);
  }
  return out;
}

const [repo, contracts, outFile] = process.argv.slice(2).map((p) => path.resolve(p));
const files = {};
for (const f of walk(path.join(repo, 'src'), [])) files[f] = convert(f, fs.readFileSync(f, 'utf8'));
for (const f of walk(contracts, [])) files[f] = convert(f, fs.readFileSync(f, 'utf8'));
const pkg = JSON.parse(fs.readFileSync(path.join(repo, 'package.json'), 'utf8'));
const { OPS, INTERNAL, SHAPES } = await import(path.join(contracts, 'ops.mjs'));
fs.writeFileSync(outFile, JSON.stringify({ files, pkg, ops: OPS, internal: INTERNAL, shapes: SHAPES }));
