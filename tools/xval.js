// Development tool: compares the reference parser's verdicts (model/examples/xval) with acorn's.
//   cargo run --release --example xval 20000 1 0 | node tools/xval.js
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const lines = require('fs').readFileSync(0, 'utf8').split('\n').filter(Boolean);
function norm(n) {
  if (Array.isArray(n)) return n.map(norm);
  if (n && typeof n === 'object') {
    if (n.regex) return { type: 'Literal', regex: { pattern: n.regex.pattern, flags: n.regex.flags.split('').sort().join('') } };
    const o = {}; n = Object.assign({}, n);
    for (const k of Object.keys(n).sort()) {
      if (['start', 'end', 'raw', 'sourceType', 'directive', 'expression', 'id', 'async', 'optional'].includes(k) && !['ExpressionStatement', 'VariableDeclarator'].includes(n.type) && k !== 'id') continue;
      if (k === 'start' || k === 'end' || k === 'raw' || k === 'directive') continue;
      if (typeof n[k] === 'undefined') continue;
      o[k] = norm(n[k]);
    }
    return o;
  }
  if (typeof n === 'string') return n.toWellFormed();
  if (typeof n === 'number' && isFinite(n)) return n.toPrecision(13);
  if (n === Infinity) return 'inf';
  if (typeof n === 'bigint') return String(n);
  return n;
}
const count = {}; let shown = 0;
const c = (k) => { count[k] = (count[k] || 0) + 1; };
const opts = { ecmaVersion: 6, sourceType: 'script', allowHashBang: false };
for (const l of lines) {
  const r = JSON.parse(l);
  if (r.skip) { c('skip ' + r.skip); continue; }
  let tree = null, err = null;
  try { tree = acorn.parse(r.src, opts); } catch (e) { err = e; }
  const rej = r.err || r.early.length > 0 || r.strict.some(s => s.definite && !s.module);
  let why = null;
  if (err && !rej) {
    if (/already been declared|for-in loop variable|Invalid number|let is disallowed|Invalid regular expression|Binding|duplicate|Redefinition|clash|strict mode|flag/i.test(err.message) || r.unjudged.some(x => x)) { c('acorn more: ' + err.message.replace(/[ '(].*/, '')); continue; }
    why = 'acorn rejects: ' + err.message;
  } else if (!err && rej) {
    why = 'reference rejects: ' + (r.err || r.early + ' ' + JSON.stringify(r.strict)) + ' at ' + r.at;
  } else if (!err) {
    const a = JSON.stringify(norm(tree)), b = JSON.stringify(norm(r.tree));
    if (a !== b) why = 'trees differ ' + (() => { let i = 0; while (a[i] === b[i]) i++; return a.slice(i - 80, i + 80) + '\n    ' + b.slice(i - 80, i + 80); })();
    else c('same tree');
  } else { c('both reject'); }
  if (why) { c('DIFFERENT ' + why.split('\n')[0].slice(0, 40)); if (shown++ < (process.argv[2] || 5)) console.log(JSON.stringify(r.src) + '\n  ' + why.slice(0, 3000)); }
}
console.log(count);
