// Mutants of the JavaScript library as lines of JSON: node mutants.js <folder of typescript> <folder of the library>
const fs = require('fs');
const path = require('path');
const ts = require(process.argv[2]);
const root = process.argv[3];

const SWAPS = {
  '===': ['!=='], '!==': ['==='], '==': ['!='], '!=': ['=='], '<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'],
  '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'], '+=': ['-='], '-=': ['+=']
};

const files = folder => fs.readdirSync(folder, { withFileTypes: true }).flatMap(entry =>
  entry.isDirectory() ? files(path.join(folder, entry.name)) : entry.name.endsWith('.js') ? [path.join(folder, entry.name)] : []);

for(const file of files(root)) {
  if(file.includes('/messages/')) continue;
  const text = fs.readFileSync(file, 'utf8');
  const source = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
  const seen = new Set();
  const put = (begin, end, replacement) => {
    const old = text.substring(begin, end);
    const key = `${begin}:${end}:${replacement}`;
    if(old === replacement || seen.has(key)) return;
    seen.add(key);
    console.log(JSON.stringify({ file: path.relative(root, file), line: text.substring(0, begin).split('\n').length, begin, end, old, new: replacement }));
  };
  const replace = (node, replacement) => put(node.getStart(), node.getEnd(), replacement);
  const visit = node => {
    if(ts.isBinaryExpression(node)) {
      const operator = node.operatorToken;
      for(const other of SWAPS[operator.getText()] || []) { replace(operator, other); }
      if(operator.getText() === '&&' || operator.getText() === '||') { replace(node, node.left.getText()); replace(node, node.right.getText()); }
    } else if(ts.isNumericLiteral(node)) {
      replace(node, String(Number(node.text) + 1));
      if(node.text !== '0') { replace(node, String(Number(node.text) - 1)); }
    } else if(node.kind === ts.SyntaxKind.TrueKeyword) {
      replace(node, 'false');
    } else if(node.kind === ts.SyntaxKind.FalseKeyword) {
      replace(node, 'true');
    } else if(node.kind === ts.SyntaxKind.NullKeyword) {
      replace(node, 'false');
    } else if(ts.isStringLiteral(node) && !(node.parent && ts.isCallExpression(node.parent) && node.parent.expression.getText() === 'require')) {
      replace(node, node.text === '' ? "'x'" : "''");
    } else if(ts.isPrefixUnaryExpression(node) && node.operator === ts.SyntaxKind.ExclamationToken) {
      replace(node, node.operand.getText());
    } else if(ts.isArrayLiteralExpression(node)) {
      for(const element of node.elements) {
        if(node.elements.length > 1) { replace(node, '[' + node.elements.filter(other => other !== element).map(other => other.getText()).join(', ') + ']'); }
      }
    } else if(ts.isCallExpression(node)) {
      const name = ts.isPropertyAccessExpression(node.expression) ? node.expression.name : null;
      if(name && name.text === 'push') { replace(name, 'unshift'); }
      if(name && name.text === 'find') { replace(name, 'findLast'); }
      if(name && name.text === 'indexOf') { replace(name, 'lastIndexOf'); }
      if(name && name.text === 'lastIndexOf') { replace(name, 'indexOf'); }
      if(name && ['filter', 'replace', 'trim'].includes(name.text)) { replace(node, node.expression.expression.getText()); }
      node.arguments.forEach((argument, index) => {
        if(index > 0 && index === node.arguments.length - 1) { put(node.arguments[index - 1].getEnd(), argument.getEnd(), ''); }
      });
    } else if(ts.isIfStatement(node) || ts.isWhileStatement(node)) {
      replace(node.expression, 'false');
      if(ts.isIfStatement(node)) { replace(node.expression, 'true'); }
    } else if(ts.isConditionalExpression(node)) {
      replace(node, node.whenTrue.getText());
      replace(node, node.whenFalse.getText());
    } else if(ts.isReturnStatement(node) && node.expression) {
      replace(node, 'return;');
    } else if(ts.isExpressionStatement(node) || ts.isThrowStatement(node)) {
      if(!node.getText().startsWith('exports.') && !node.getText().startsWith('super(')) { replace(node, ';'); }
    } else if(ts.isBreakStatement(node)) {
      replace(node, ';');
    } else if(ts.isContinueStatement(node)) {
      replace(node, ';');
      replace(node, 'break;');
    } else if(ts.isPropertyAssignment(node) && node.parent.properties.length > 1) {
      replace(node, '');
    } else if(ts.isParameter(node) && node.initializer) {
      put(node.name.getEnd(), node.getEnd(), '');
    } else if(ts.isSpreadElement(node)) {
      replace(node, node.expression.getText());
    }
    ts.forEachChild(node, visit);
  };
  visit(source);
}
