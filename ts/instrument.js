'use strict';
// Rewrites TypeScript sources so that operators, conditions, look-ups and
// string building go through a runtime ($) that understands symbolic values.
const path = require('path');
const ts = require('/repo/node_modules/typescript');
const S = ts.SyntaxKind;
const BIN = { [S.PlusToken]: '+', [S.MinusToken]: '-', [S.AsteriskToken]: '*', [S.SlashToken]: '/', [S.PercentToken]: '%', [S.AsteriskAsteriskToken]: '**', [S.AmpersandToken]: '&', [S.BarToken]: '|', [S.CaretToken]: '^', [S.LessThanLessThanToken]: '<<', [S.GreaterThanGreaterThanToken]: '>>', [S.GreaterThanGreaterThanGreaterThanToken]: '>>>' };
const CMP = { [S.LessThanToken]: '<', [S.LessThanEqualsToken]: '<=', [S.GreaterThanToken]: '>', [S.GreaterThanEqualsToken]: '>=' };
const EQ = { [S.EqualsEqualsEqualsToken]: '===', [S.ExclamationEqualsEqualsToken]: '!==', [S.EqualsEqualsToken]: '==', [S.ExclamationEqualsToken]: '!=' };
const CASS = { [S.PlusEqualsToken]: '+', [S.MinusEqualsToken]: '-', [S.AsteriskEqualsToken]: '*', [S.SlashEqualsToken]: '/', [S.PercentEqualsToken]: '%', [S.AsteriskAsteriskEqualsToken]: '**' };
const LASS = { [S.BarBarEqualsToken]: '||', [S.AmpersandAmpersandEqualsToken]: '&&' };
const METHODS = new Set(['includes', 'indexOf', 'lastIndexOf', 'some', 'every', 'filter', 'find', 'findIndex', 'findLast', 'findLastIndex', 'sort', 'toSorted', 'at', 'slice', 'splice', 'join', 'concat', 'startsWith', 'endsWith', 'toLowerCase', 'toUpperCase', 'localeCompare', 'replace', 'replaceAll', 'split', 'substring', 'padStart', 'padEnd', 'charAt', 'has', 'repeat', 'fill', 'with', 'copyWithin', 'toString', 'flatMap']);

function transformer(file) {
  const F = ts.factory;
  return context => sf => {
    const $ = n => F.createPropertyAccessExpression(F.createIdentifier('$'), n);
    const call = (n, ...a) => F.createCallExpression($(n), undefined, a);
    const str = s => F.createStringLiteral(s);
    const paren = e => F.createParenthesizedExpression(e);
    const cond = (c, a, b) => paren(F.createConditionalExpression(c, F.createToken(S.QuestionToken), a, F.createToken(S.ColonToken), b));
    const isSuper = e => e.kind === S.SuperKeyword;
    const strip = e => { while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || (ts.isTypeAssertionExpression && ts.isTypeAssertionExpression(e)) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e))) e = e.expression; return e; };
    const fname = n => {
      const parts = [];
      for (let p = n; p && !ts.isSourceFile(p); p = p.parent) {
        if (ts.isConstructorDeclaration(p)) parts.unshift('constructor');
        else if (ts.isVariableDeclaration(p) || ts.isFunctionDeclaration(p) || ts.isMethodDeclaration(p) || ts.isClassDeclaration(p) || ts.isGetAccessor(p) || ts.isSetAccessor(p) || ts.isPropertyAssignment(p)) { if (p.name && p.name.getText) { try { parts.unshift(p.name.getText(sf)); } catch {} } }
      }
      return file + ':' + parts.join('.');
    };
    const test = e => call('b', visit(e));
    function access(e) { // the object part and key of a property or element access
      return ts.isPropertyAccessExpression(e) ? [visit(e.expression), str(e.name.text)] : [visit(e.expression), visit(e.argumentExpression)];
    }
    // an optional chain, link by link: $.nn keeps the value in front of a ?. for $.v
    function chain(e) {
      const links = []; let h = e;
      for (;;) {
        if (ts.isNonNullExpression(h) && (h.flags & ts.NodeFlags.OptionalChain)) { h = h.expression; continue; }
        if (!ts.isOptionalChain(h)) break;
        links.unshift(h); h = h.expression;
      }
      const go = (r, i) => {
        if (i >= links.length) return r;
        const l = links[i];
        if (ts.isCallExpression(l)) { // called without its receiver, or optionally
          const args = l.arguments.map(visit);
          return go(l.questionDotToken ? F.createCallChain(r, F.createToken(S.QuestionDotToken), undefined, args) : F.createCallExpression(r, undefined, args), i + 1);
        }
        if (l.questionDotToken) return cond(call('nn', r), link(call('v'), i), F.createIdentifier('undefined'));
        return link(r, i);
      };
      const link = (r, i) => {
        const l = links[i], c = links[i + 1];
        if (c && ts.isCallExpression(c) && !c.questionDotToken) {
          if (ts.isElementAccessExpression(l)) return go(call('callk', r, visit(l.argumentExpression), F.createArrayLiteralExpression(c.arguments.map(visit))), i + 2);
          if (METHODS.has(l.name.text)) return go(call('call', r, str(l.name.text), F.createArrayLiteralExpression(c.arguments.map(visit))), i + 2);
        }
        return go(ts.isElementAccessExpression(l) ? call('get', r, visit(l.argumentExpression)) : F.createPropertyAccessExpression(r, l.name), i + 1);
      };
      const f = links[0];
      // a.b?.(x) keeps its receiver
      if (ts.isCallExpression(f) && ts.isPropertyAccessExpression(strip(h)) && !isSuper(strip(h).expression)) return go(visit(strip(h)), 0);
      return go(visit(h), 0);
    }
    function enterStmt(n) {
      const nm = fname(n);
      return nm.endsWith(':') ? null : F.createExpressionStatement(call('f', str(nm)));
    }
    function withEntry(orig, n) {
      const e = enterStmt(orig); if (!e || !n.body) return n;
      if (!ts.isBlock(n.body)) return n;
      const st = [...n.body.statements];
      let i = 0; while (i < st.length && ts.isExpressionStatement(st[i]) && ts.isStringLiteral(st[i].expression)) i++;
      if (ts.isConstructorDeclaration(n)) { const j = st.findIndex(s => ts.isExpressionStatement(s) && ts.isCallExpression(s.expression) && isSuper(s.expression.expression)); if (j >= 0) i = j + 1; }
      st.splice(i, 0, e);
      const body = F.updateBlock(n.body, st);
      if (ts.isConstructorDeclaration(n)) return F.updateConstructorDeclaration(n, n.modifiers, n.parameters, body);
      if (ts.isMethodDeclaration(n)) return F.updateMethodDeclaration(n, n.modifiers, n.asteriskToken, n.name, n.questionToken, n.typeParameters, n.parameters, n.type, body);
      if (ts.isFunctionDeclaration(n)) return F.updateFunctionDeclaration(n, n.modifiers, n.asteriskToken, n.name, n.typeParameters, n.parameters, n.type, body);
      if (ts.isFunctionExpression(n)) return F.updateFunctionExpression(n, n.modifiers, n.asteriskToken, n.name, n.typeParameters, n.parameters, n.type, body);
      if (ts.isArrowFunction(n)) return F.updateArrowFunction(n, n.modifiers, n.typeParameters, n.parameters, n.type, n.equalsGreaterThanToken, body);
      return n;
    }
    function visit(n) {
      if (!n) return n;
      if (ts.isTypeNode(n) && !ts.isExpressionWithTypeArguments(n)) return n;
      if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isEnumDeclaration(n) || ts.isImportDeclaration(n)) return n;
      if (ts.isOptionalChain(n) || (ts.isNonNullExpression(n) && (n.flags & ts.NodeFlags.OptionalChain))) return chain(n);
      if (ts.isBinaryExpression(n)) {
        const k = n.operatorToken.kind;
        if (BIN[k]) return call('bin', str(BIN[k]), visit(n.left), visit(n.right));
        if (CMP[k]) return call('cmp', str(CMP[k]), visit(n.left), visit(n.right));
        if (EQ[k]) return call('eqop', str(EQ[k]), visit(n.left), visit(n.right));
        if (k === S.AmpersandAmpersandToken) return cond(call('t', visit(n.left)), visit(n.right), call('v'));
        if (k === S.BarBarToken) return cond(call('t', visit(n.left)), call('v'), visit(n.right));
        if (k === S.InKeyword) return call('in', visit(n.left), visit(n.right));
        if (k === S.EqualsToken) {
          const l = strip(n.left);
          if (ts.isElementAccessExpression(l) && !isSuper(l.expression)) return call('set', visit(l.expression), visit(l.argumentExpression), visit(n.right));
        }
        if (CASS[k] || LASS[k]) {
          const l = strip(n.left);
          if (ts.isIdentifier(l)) {
            if (CASS[k]) return paren(F.createAssignment(l, call('bin', str(CASS[k]), l, visit(n.right))));
            return paren(F.createAssignment(l, LASS[k] === '||' ? cond(call('t', l), call('v'), visit(n.right)) : cond(call('t', l), visit(n.right), call('v'))));
          }
          if (CASS[k] && (ts.isElementAccessExpression(l) || (ts.isPropertyAccessExpression(l) && !ts.isPrivateIdentifier(l.name))) && !isSuper(l.expression)) { const [o, key] = access(l); return call('cset', o, key, str(CASS[k]), visit(n.right)); }
        }
        return ts.visitEachChild(n, visit, context);
      }
      if (ts.isPrefixUnaryExpression(n)) {
        if (n.operator === S.ExclamationToken) return call('not', visit(n.operand));
        if (n.operator === S.MinusToken && !ts.isNumericLiteral(n.operand) && !ts.isBigIntLiteral(n.operand)) return call('neg', visit(n.operand));
        if (n.operator === S.PlusToken) return call('pos', visit(n.operand));
      }
      if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === S.PlusPlusToken || n.operator === S.MinusMinusToken)) {
        const l = strip(n.operand), d = F.createNumericLiteral(1), op = str(n.operator === S.PlusPlusToken ? '+' : '-');
        const post = ts.isPostfixUnaryExpression(n);
        if (ts.isIdentifier(l)) { const a = paren(F.createAssignment(l, call('inc', op, l))); return post ? call('post', l, a) : a; }
        if ((ts.isElementAccessExpression(l) || (ts.isPropertyAccessExpression(l) && !ts.isPrivateIdentifier(l.name))) && !isSuper(l.expression)) { const [o, key] = access(l); return call('upd', o, key, op, post ? F.createTrue() : F.createFalse()); }
      }
      if (ts.isConditionalExpression(n)) return cond(test(n.condition), visit(n.whenTrue), visit(n.whenFalse));
      if (ts.isIfStatement(n)) return F.updateIfStatement(n, test(n.expression), visit(n.thenStatement), visit(n.elseStatement));
      if (ts.isWhileStatement(n)) return F.updateWhileStatement(n, test(n.expression), ts.visitIterationBody(n.statement, visit, context));
      if (ts.isDoStatement(n)) return F.updateDoStatement(n, ts.visitIterationBody(n.statement, visit, context), test(n.expression));
      if (ts.isForStatement(n)) return F.updateForStatement(n, visit(n.initializer), n.condition ? test(n.condition) : undefined, visit(n.incrementor), ts.visitIterationBody(n.statement, visit, context));
      if (ts.isTypeOfExpression(n)) return ts.isIdentifier(n.expression) ? F.createConditionalExpression(F.createStrictEquality(F.createTypeOfExpression(n.expression), str('undefined')), F.createToken(S.QuestionToken), str('undefined'), F.createToken(S.ColonToken), call('typeof', n.expression)) : call('typeof', visit(n.expression));
      if (ts.isDeleteExpression(n)) { const l = strip(n.expression); if (ts.isElementAccessExpression(l)) return call('del', visit(l.expression), visit(l.argumentExpression)); }
      if (ts.isTemplateExpression(n)) return call('tpl', F.createArrayLiteralExpression([str(n.head.text), ...n.templateSpans.map(s => str(s.literal.text))]), F.createArrayLiteralExpression(n.templateSpans.map(s => visit(s.expression))));
      if (ts.isSwitchStatement(n)) {
        // the number of the first matching case
        let k = 0; const vals = n.caseBlock.clauses.filter(ts.isCaseClause).map(c => F.createArrowFunction(undefined, undefined, [], undefined, F.createToken(S.EqualsGreaterThanToken), paren(visit(c.expression))));
        const clauses = n.caseBlock.clauses.map(c => ts.isCaseClause(c) ? F.updateCaseClause(c, F.createNumericLiteral(k++), ts.visitNodes(c.statements, visit)) : F.updateDefaultClause(c, ts.visitNodes(c.statements, visit)));
        return F.updateSwitchStatement(n, call('sw', visit(n.expression), F.createArrayLiteralExpression(vals)), F.updateCaseBlock(n.caseBlock, clauses));
      }
      if (ts.isCatchClause(n)) {
        const c = ts.visitEachChild(n, visit, context); let decl = c.variableDeclaration, id;
        if (decl && ts.isIdentifier(decl.name)) id = decl.name;
        else if (!decl) { id = F.createUniqueName('err'); decl = F.createVariableDeclaration(id); }
        else return c;
        return F.updateCatchClause(c, decl, F.updateBlock(c.block, [F.createExpressionStatement(call('c', id)), ...c.block.statements]));
      }
      if (ts.isComputedPropertyName(n)) return F.updateComputedPropertyName(n, call('key', visit(n.expression)));
      if (ts.isElementAccessExpression(n) && !isSuper(n.expression)) {
        const p = n.parent; // assignment targets are left alone
        if (p && ((ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind === S.EqualsToken) || ts.isArrayLiteralExpression(p) && isTarget(p))) return ts.visitEachChild(n, visit, context);
        return call('get', visit(n.expression), visit(n.argumentExpression));
      }
      if (ts.isCallExpression(n)) {
        const f = strip(n.expression);
        if (ts.isPropertyAccessExpression(f) && !isSuper(f.expression) && METHODS.has(f.name.text)) {
          const args = F.createArrayLiteralExpression(n.arguments.map(visit));
          return call('call', visit(f.expression), str(f.name.text), args);
        }
        if (ts.isElementAccessExpression(f) && !isSuper(f.expression))
          return call('callk', visit(f.expression), visit(f.argumentExpression), F.createArrayLiteralExpression(n.arguments.map(visit)));
        return ts.visitEachChild(n, visit, context);
      }
      if (ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n)) return withEntry(n, ts.visitEachChild(n, visit, context));
      return ts.visitEachChild(n, visit, context);
    }
    function isTarget(p) { let q = p; while (q.parent && (ts.isArrayLiteralExpression(q.parent) || ts.isSpreadElement(q.parent))) q = q.parent; return q.parent && ts.isBinaryExpression(q.parent) && q.parent.left === q && q.parent.operatorToken.kind === S.EqualsToken; }
    return ts.visitEachChild(sf, visit, context);
  };
}
function compile(src, file, instrument) {
  const out = ts.transpileModule(src, { fileName: file, reportDiagnostics: true, compilerOptions: { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, esModuleInterop: true, experimentalDecorators: true }, transformers: instrument ? { before: [transformer(instrument)] } : undefined });
  const err = (out.diagnostics || []).find(d => d.category === ts.DiagnosticCategory.Error);
  if (err) throw new Error(file + ': ' + ts.flattenDiagnosticMessageText(err.messageText, '\n'));
  return out.outputText;
}
module.exports = { compile };
