// Lists single-edit mutants of /repo/src as JSON: {file, start, end, text, kind}.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
const require = createRequire('/opt/veriftools/node/node_modules/');
const ts = require('typescript');
const K = ts.SyntaxKind;
const repo = process.argv[2];
const out = [];
function walk(d) {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    const p = path.join(d, e.name);
    if (e.isDirectory()) { if (!['interfaces', 'test-utils', '__recordings__'].includes(e.name)) walk(p); }
    else if (/\.ts$/.test(e.name) && !/\.spec\.|\.d\.ts$/.test(e.name)) file(p);
  }
}
function file(p) {
  const text = fs.readFileSync(p, 'utf8');
  const sf = ts.createSourceFile(p, text, ts.ScriptTarget.ES2022, true);
  const add = (n, t, kind) => out.push({ file: path.relative(repo, p), start: n.getStart(), end: n.end, text: t, kind });
  const cut = (a, b, t, kind) => out.push({ file: path.relative(repo, p), start: a, end: b, text: t, kind });
  (function v(n) {
    if (ts.isImportDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isTypeNode(n)) return;
    const inConf = ts.isExportDeclaration(n);
    if (inConf) return;
    if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) {
      const q = text[n.getStart()];
      add(n, `${q}${n.text}x${q}`, 'str+');
      if (n.text) add(n, `${q}${q}`, 'str-empty');
    }
    if (ts.isTemplateHead(n) || ts.isTemplateMiddle(n) || ts.isTemplateTail(n)) {
      if (n.text) cut(n.getStart() + 1, n.getStart() + 1 + n.text.length, n.text + 'x', 'tpl+');
    }
    if (ts.isTemplateSpan(n) && ts.isCallExpression(n.expression)) add(n.expression, n.expression.arguments[0]?.getText() ?? "''", 'uncall');
    if (n.kind === K.TrueKeyword) add(n, 'false', 'bool');
    if (n.kind === K.FalseKeyword) add(n, 'true', 'bool');
    if (n.kind === K.NullKeyword) add(n, 'undefined', 'null->undef');
    if (ts.isObjectLiteralExpression(n)) {
      for (const q of n.properties) {
        let e = q.end;
        if (text[e] === ',') e++;
        cut(q.getStart(), e, '', 'prop-');
        if (ts.isPropertyAssignment(q) && ts.isIdentifier(q.name)) cut(q.name.getStart(), q.name.end, q.name.text + 'x', 'key+');
      }
    }
    if (ts.isBinaryExpression(n)) {
      const o = n.operatorToken, m = { '===': '!==', '!==': '===', '&&': '||', '||': '&&', '??': '||', '>': '>=', '<': '<=', '+': '-' }[o.getText()];
      if (m) add(o, m, 'op');
      if (o.getText() === '||') add(o, '??', 'op2');
      if (['&&', '||', '??'].includes(o.getText())) { add(n, n.left.getText(), 'left'); add(n, n.right.getText(), 'right'); }
    }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, n.operand.getText(), 'not-');
    if (ts.isConditionalExpression(n)) { add(n, n.whenTrue.getText(), 'cond-a'); add(n, n.whenFalse.getText(), 'cond-b'); }
    if (ts.isIfStatement(n)) { add(n.expression, `!(${n.expression.getText()})`, 'if!'); add(n.expression, 'true', 'if-true'); add(n.expression, 'false', 'if-false'); }
    if (ts.isExpressionStatement(n)) add(n, ';', 'stmt-');
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken) cut(n.questionDotToken.getStart(), n.questionDotToken.end, '.', 'chain-');
    if (ts.isAwaitExpression(n)) add(n, n.expression.getText(), 'await-');
    if (ts.isReturnStatement(n) && n.expression) add(n.expression, 'undefined as any', 'ret-');
    if (ts.isSpreadAssignment(n)) ;
    if (ts.isCallExpression(n) && n.arguments.length > 1) {
      const l = n.arguments;
      cut(l[l.length - 2].end, l[l.length - 1].end, '', 'arg-');
    }
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const m = { post: 'put', get: 'delete', patch: 'put', delete: 'get', put: 'patch', set: 'append', append: 'set', map: 'filter', push: 'unshift', entries: 'keys' }[n.expression.name.text];
      if (m) add(n.expression.name, m, 'method');
    }
    if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && n.expression.text !== 'this') {
      const m = { id: 'email', email: 'id', segmentId: 'audienceId', audienceId: 'segmentId', html: 'text', text: 'html', from: 'to', to: 'from', firstName: 'lastName', after: 'before', before: 'after', cc: 'bcc', bcc: 'cc' }[n.name.text];
      if (m) add(n.name, m, 'member');
    }
    if (ts.isCatchClause(n)) cut(n.block.getStart(), n.block.end, '{ throw new Error("x"); }', 'catch');
    ts.forEachChild(n, v);
  })(sf);
}
walk(path.join(repo, 'src'));
console.log(JSON.stringify(out.filter((m) => typeof m.text === "string")));
